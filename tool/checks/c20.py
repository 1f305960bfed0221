"""UTF-8 text is decoded and segmented into user-perceived characters correctly."""
from core import *

TECHNIQUE = ("Exhaustive enumeration of every Unicode scalar value, every pair of a code point and a grapheme class representative, all class "
             "sequences and all byte strings up to a length, against an oracle written from UAX #29 over perl's Unicode database")
NOTE = ("Every scalar value is decoded, measured and classified; every assigned code point stands before and after representatives of all 15 "
        "grapheme classes; every class sequence up to 6 (7 thorough) and flag runs up to the configured 16 code point look-back are segmented; every byte "
        "string up to 2 (3) bytes and every string up to 5 (6) over 19 structural bytes, plus every cut of valid texts, is iterated at the end of a "
        "guarded page; edit distances of all pairs of texts up to 4 (5) characters.")


def main():
    c = Check("C20")
    n = Native(c, "utf8", ENGINE + "/c20.cpp", opt="-O2", flags=["-DDEEP=%d" % (not c.quick)])
    if n.build():
        n.run()
    return c.finish()
