"""The two-part token list behaves as one sequence under all edits."""
from core import *

TECHNIQUE = "Exhaustive enumeration of edit histories on the real dynamic_token_adapter from every small starting split, compared after every step with a plain list and boundary"
NOTE = ("All histories of up to 3 (thorough: 4) edits (set, transfer, erase, insert of one and of ranges of 0-2, at every position, at end() and just before begin(), and pairs of writes through "
        "iterators made beforehand) from every split of up to 3+3 (2+2) tokens; after every edit both lists, iteration in every form, indexing, arithmetic, comparisons and returned iterators are "
        "compared; AddressSanitizer watches the lists. Ordering against end() is not specified by the library and not checked.")


def main():
    c = Check("C22")
    n = Native(c, "adapter", ENGINE + "/c22.cpp", opt="-O2", asan=True, flags=["-DDEPTH=%d" % (3 if c.quick else 4), "-DSTART=%d" % (3 if c.quick else 2)])
    if n.build():
        n.run()
    return c.finish()
