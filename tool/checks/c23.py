"""Internal value holders keep value semantics through any history of use."""
from core import *

TECHNIQUE = "Exhaustive enumeration of operation histories on the real unsafe_any, dynamic_string_view and result, each compared with a plain model and a registry of live objects"
NOTE = ("All histories of up to 3 operations over two holders and 2 over three (thorough: one more; result: 4 over two) of construction from lvalues and rvalues, copy, move, assignment, self-assignment, "
        "swap, reset, writing, extraction, concatenation and a copy that throws. Eight payloads for unsafe_any: trivial of 4, 16 and 40 bytes, literals, and objects whose address matters, small, "
        "large and over-aligned. Views look at heap blocks freed as soon as no holder may use them. AddressSanitizer and an object registry decide lifetimes. Moved-from strings may hold anything valid.")


def main():
    c = Check("C23")
    n = Native(c, "holders", ENGINE + "/c23.cpp", opt="-O1", asan=True, flags=["-DDEEP=%d" % (not c.quick)])
    if n.build():
        n.run()
    return c.finish()
