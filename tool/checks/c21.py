"""Line wrapping loses nothing, fits the width and breaks legally."""
from core import *

TECHNIQUE = ("Exhaustive enumeration of all texts over the line break classes up to a length, wrapped to every width, each line judged against an "
             "oracle written from UAX #14 over perl's Unicode database")
NOTE = ("Every sequence of up to 3 (4 thorough) of the 39 line break classes in two sets of representatives, longer sequences of the classes of "
        "ordinary text and of the rules with context, texts of words, and every assigned code point next to every class, wrapped to every width up to "
        "that of the whole: lines reproduce the text apart from white space between them, fit, break where UAX #14 permits or where no break fits, "
        "and not earlier than needed; all strings up to 5 (6) of 13 structural bytes at the end of a guarded page terminate within the text.")


def main():
    c = Check("C21")
    n = Native(c, "wrap", ENGINE + "/c21.cpp", opt="-O2", flags=["-DDEEP=%d" % (not c.quick)])
    if n.build():
        n.run()
    return c.finish()
