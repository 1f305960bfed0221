"""Every command line ends in exactly one router call or one parse error."""

NOTE = ("Under AddressSanitizer, with every token in its own heap block: all sequences of up to 4 tokens over alphabets of 14-22 well-formed and "
        "malformed tokens on 12 trees, all single tokens of up to 5 fragments over bytes that start, continue or break UTF-8 sequences in label and "
        "value position, list lengths to 300, tokens to 4096 bytes, and all six entry points on the shorter ones. A hang is a case that makes no progress for 40 s.")
from core import *
from dsl import *


def trees():
    t = []
    t.append(Tree("mix", help_("--help", "-h", id="H", pname="prog", pver="1.0", pintro="in"), flag("--ver", "-V", id="V"),
                  mode(flag("--foo", "-f", desc="a flag"), count("--bar", "-b"), arg("i", "--num", "-n"), arg("s", "--str", desc="some longer text to wrap here"),
                       marg("v<i>", "--many", cnt=(2, 2)), pos("s", "P", cnt=(1, 1)), pos("v<u>", "Q", cnt=(0, 2)), id="A")))
    t.append(Tree("uni", help_("--help", id="H"), mode(flag("--f\u00e4\u00f6", "-\u00e9"), count("-\U0001F600"), arg("s", "--\u65e5\u672c", "-e\u0301", desc="\u65e5\u672c \u65e5\u672c\u8a9e"),
                                                         flag("-\U0001F1E9\U0001F1EA"), pos("v<s>", "rest"), id="A")))
    t.append(Tree("sep", arg("s", "--root", "-r", sep="=", id="R"), mode(arg("i", "--num", "-n", sep="="), arg("s", "--str", "-s", sep="\u00e9"), arg("d", "--dd", sep=":"), flag("-f"), pos("v<sv>", "rest"), id="A")))
    t.append(Tree("mark", mode(flag("--foo", "-f"), marg("v<s>", "--list", "-l", endm=";"), pos("v<i>", "nums", endm="--"), pos("v<s>", "rest", endm="\u00e9"), arg("i", "--num") if False else pos("v<s>", "tail"), id="A")))
    t.append(Tree("modes", help_("--help", "-h", id="H"), flag("--ver", id="V"),
                  mode("one", flag("--foo", "-f"), arg("i", "--num", required=True), id="O"),
                  mode("two", mode("sub", flag("--foo", "-f"), marg("v<i>", "--ll"), id="S"), mode("gr\u00fc", flag("-f"), id="G")),
                  mode("nog", mode("in", flag("-x"), id="I")), mode(arg("s", "--foo", "-f"), flag("-g"), id="A")))
    t.append(Tree("grp", mode(oneof(flag("--of", "-o"), arg("i", "--oi"), arg("s", "--os", sep="="), default=Val("42", "var1/i:42")),
                              agroup(count("-v"), arg("i", "--ver", sep="="), default=V("i", 1), maxv=V("i", 3)), agroup(marg("v<i>", "--la", cnt=(2, 2)), marg("v<i>", "--lb", cnt=(1, 3)) if False else marg("v<i>", "--lb", cnt=(3, 3)), required=True), flag("-f"), id="A")))
    t.append(Tree("rel", mode(arg("i", "--aa", "-a", minv=V("i", 1), maxv=V("i", 9), default=V("i", 1)), arg("i", "--bb", "-b"), arg("s", "--al", "-l", alias=["--aa", "--bb"]), flag("--cc", "-c", dep=["--aa"]),
                              flag("--dd", "-d", dep=["-c", "--bb"]), flag("-x", alias=["-y", "-z"]), flag("-y"), count("-z"), id="A")))
    t.append(Tree("en", help_("--help", "-h", id="H"), flag("--ver", id="V", en=3), mode("one", flag("-f", en=0), arg("i", "--num", en=1, en_req=True), id="O", en=2), mode("two", flag("-g"), id="T"),
                  mode(arg("s", "--num", sep="=", en=0), count("-v", en=1), id="A", en=2)))
    t.append(Tree("fwd", mode(flag("--foo", "-f"), fwd("--"), id="A")))
    t.append(Tree("fwdr", mode(flag("--foo", "-f"), fwd("run", cnt=(1, 2), required=True), id="A")))
    t.append(Tree("types", mode(arg("c", "--cc"), arg("b", "--bb"), arg("d", "--dd"), arg("u8", "--uu"), arg("o<i>", "--oo"), arg("en", "--ee", custom=True), marg("v<f>", "--ff"), id="A")))
    t.append(Tree("bare", flag("-f", id="F"), arg("i", "--num", "-n", id="N"), help_("-h", id="H", flatten=True)))
    return t


BAD = [b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\x80", b"\xff", b"-\xf0", b"--\xe2", b"\xcc\x81"]
BASE = ["", "-", "--", "---", "=", "-=", "--=", "x", "5", "-ff", "--fo"]
AL = {"mix": ["--help", "-h", "-V", "--foo", "-f", "-fb", "-fbn", "--num", "-n", "--str", "--many", "-bz"],
      "uni": ["--f\u00e4\u00f6", "-\u00e9", "-\u00e9\U0001F600", "--\u65e5\u672c", "-e\u0301", "-\U0001F1E9\U0001F1EA", "-\U0001F1E9", "--help", b"-\xc3", b"-\xc3\xa9\xc3", "\u0301"],
      "sep": ["--num=3", "-n=", "--num", "--str\u00e9x", "-s\u00e9", b"-s\xc3", "--dd:1:2", "--root=x", "-r=", "-f", "-fn=1", "-f="],
      "mark": ["-f", "--list", "-l", ";", "\u00e9", b"\xc3", "--num", "--foo", "-lf", "7"],
      "modes": ["one", "two", "sub", "gr\u00fc", b"gr\xc3", "nog", "in", "--num", "-f", "--foo", "--ll", "--help", "--ver", "-gf"],
      "grp": ["--of", "--oi", "--os=", "--os=a", "-v", "-vv", "--ver=2", "--ver=", "--la", "--lb", "-vf", "-of", "4"],
      "rel": ["--aa", "-a", "-b", "--al", "-l", "-c", "-cd", "-x", "-xy", "-zz", "-d", "--dd", "9", "10"],
      "en": ["--help", "one", "two", "-f", "--num", "--num=", "--num=a", "-v", "-vg", "--ver", "-h"],
      "fwd": ["-f", "--foo", "-f--"], "fwdr": ["-f", "run", "--run", "-fr"],
      "types": ["--cc", "--bb", "--dd", "--uu", "--oo", "--ee", "--ff", "1e999", "256", "true", "nan"],
      "bare": ["-f", "--num", "-n", "-h", "-fn"]}


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    M = dict(mode="total")

    def one(xs):
        return [[x] for x in xs]
    for tr, al in AL.items():
        al = al + [x for x in BASE if x not in al]
        for cfg in (range(16) if tr == "en" else (0,)):
            p += seq(tr, one(al + (BAD[:4] if tr == "en" else BAD)), 2, cfg=cfg, entry="012345", **M)
            p += seq(tr, one(al if d else al[:18]), 3 if tr == "en" and not d else 4, minlen=3, cfg=cfg, **M)
            p += seq(tr, one(al[::2] + BAD), 3 if tr == "en" or not d else 4, minlen=3, cfg=cfg, **M)
    frag = ["-", "a", "=", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f", b"\xff", "\u0301", "\u200d", "\U0001F1E9", "f"]
    for tr in ("mix", "uni", "sep", "mark", "modes", "grp")[:6 if d else 4]:
        for pre in ([], ["-"], ["--"]):
            p += cats(tr, frag, 3 + d if pre else 4 + d, stem=pre[0] if pre else "", **M)
        p += cats(tr, frag, 3 + d, prefix=["-f"] if tr != "uni" else ["-\u00e9"], **M)
        p += cats(tr, frag, 3, suffix=["x"], **M)
    for tr, o in (("mix", ["--num"]), ("mix", ["--str"]), ("mix", ["--help"]), ("mark", ["--list"]), ("types", ["--cc"]), ("types", ["--dd"]), ("types", ["--ee"]), ("sep", ["--str\u00e9"]),
                  ("fwd", ["--"]), ("modes", ["one", "--num"]), ("uni", ["--\u65e5\u672c"])):
        p += cats(tr, frag, 3 + d, prefix=o, **M)
    for tr in AL:
        for k in list(range(0, 80)) + [127, 128, 129, 255, 256, 257, 300]:
            p += lines(tr, [["5"] * k, ["-f"] + ["x"] * k, ["-f"] * k, ["--"] * k, [""] * k, ["-f" + "f" * k], ["--" + "x" * k], ["x" * k],
                            [b"\xc3" * k], ["-" + "\u00e9" * k], ["\U0001F1E9" * k], [AL[tr][0]] * k, [AL[tr][-1]] * k], **M)
        p += lines(tr, [["y" * k] for k in (1000, 4095, 4096)] + [["--" + "y\u00e9" * k] for k in (1000, 2048)], **M)
    for tr in AL:
        p += lines(tr, [[], [AL[tr][0]]], entry="0123456", **M)
    for cols in (1, 2, 3, 7, 20, 40, 80):
        for tr in ("mix", "uni", "modes", "bare"):
            p += seq(tr, one(["--help", "-h", "--foo", "--\u65e5\u672c", "one", "two", "sub", "-f", b"\xe2", "", "--str"]), 3, cols=cols, **M)
    return simple("C01", trees(), p, asan=True, entries=True)
