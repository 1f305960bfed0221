"""A one-of group selects at most one alternative, an alias group only one value."""
from core import *
from dsl import *

NOTE = ("Every command line of up to 5-6 (6-7 thorough) groups over all members of one-of and alias groups of two to four members and their "
        "neighbours, required and defaulted, first, in the middle and last, two groups in one mode, in named modes and with switches, and every "
        "history of three command lines on one tree; outcomes equal the model's.")


def trees():
    t = []
    D = lambda: oneof(flag("--fl"), arg("i", "--num", "-n"), arg("s", "--str", "-s", sep="="), default=Val("42", "var1/i:42"))
    R = lambda: oneof(flag("--fl"), arg("i", "--num", "-n"), arg("s", "--str", "-s", sep="="), required=True)
    N = [lambda: flag("--aa", "-a"), lambda: arg("i", "--bb", "-b", default=V("i", 2)), lambda: count("--vv", "-v")]
    for i in range(3):
        for nm, g in (("d", D), ("r", R)):
            ch = [f() for f in N]
            ch.insert(i if i < 2 else 3, g())
            t.append(Tree("%s%d" % (nm, i), mode(*ch, pos("v<s>", "rest", cnt=(0, 2)), id="A")))
    t.append(Tree("two", mode(oneof(flag("--aa", "-a"), arg("i", "--ab"), default=Val("false", "var0/b:0")),
                              oneof(arg("s", "--ba"), arg("i", "--bb"), required=True), flag("-f"), id="A")))
    t.append(Tree("four", mode(oneof(arg("i", "--aa"), arg("s", "--bb"), flag("--cc", "-c"), marg("v<u>", "--dd", cnt=(2, 2)), default=Val("1", "var0/i:1")), flag("-f"), id="A")))
    t.append(Tree("ali", mode(agroup(arg("i", "--aa", "-a"), arg("i", "--bb", sep="="), arg("i", "--cc"), default=V("i", 7)), flag("-f"),
                              agroup(arg("s", "--da"), arg("s", "--db"), required=True), id="A")))
    t.append(Tree("cnt", mode(agroup(count("--aa", "-a"), count("--bb", "-b"), default=V("i", 5)), flag("-f"), id="A")))
    t.append(Tree("lst", mode(flag("-f"), agroup(marg("v<i>", "--aa", cnt=(2, 2)), marg("v<i>", "--bb", cnt=(3, 3)), default=V("v<i>", [9])), pos("v<s>", "rest"), id="A")))
    t.append(Tree("mix", mode(agroup(arg("i", "--aa"), arg("i", "--bb"), default=V("i", 1)), oneof(arg("i", "--cc"), flag("--dd"), default=Val("2", "var0/i:2")),
                              flag("--xc", alias=["--dd"]), arg("i", "--xa", alias=["--aa"]), id="A")))
    t.append(Tree("mod", mode("one", oneof(flag("--aa"), arg("i", "--bb"), default=Val("1", "var1/i:1")), id="O"),
                  mode("two", oneof(flag("--aa"), arg("i", "--bb"), required=True), id="T"),
                  mode(oneof(flag("--aa"), arg("i", "--bb"), default=Val("3", "var1/i:3")), id="A")))
    t.append(Tree("en", mode(oneof(flag("--aa", en=0), arg("i", "--bb", en=1), default=Val("6", "var1/i:6")), flag("-f"), id="A")))
    t.append(Tree("dep", mode(oneof(flag("--aa"), arg("i", "--bb", dep=["-f"]), default=Val("6", "var1/i:6")), flag("-f"), flag("-g", dep=["--aa"]), id="A")))
    t.append(Tree("disp", mode(oneof(flag("--aa"), arg("i", "--bb"), default=Val("6", "var1/i:6"), disp="Choose: "),
                               agroup(arg("i", "--cc"), arg("i", "--dd"), default=V("i", 1), disp="Either: "),
                               oneof(flag("--ee"), arg("i", "--ff"), default=Val("6", "var1/i:6"), disp="EE"), id="A")))
    # one group used through equal types
    t.append(Tree("same", mode(oneof(count("--aa") if False else arg("u", "--aa"), arg("i", "--bb"), arg("i64", "--cc"), default=Val("6", "var1/i:6")), flag("-f"), id="A")))
    return t


def main():
    d = 1 if TIER == "thorough" else 0
    al = ["--fl", "--num 3", "-n 4", "--str=x", "-s=y", "--aa", "--bb 5", "-v", "r", "--num z"]
    p = []
    for tr in ("d0", "d1", "d2", "r0", "r1", "r2"):
        p += seq(tr, al, 4 + d)
        p += seq(tr, ["--fl", "--num 3", "--str=x", "-a", "-v", "-b 1", "r"], 7, minlen=4, distinct=True)
    als = {"two": ["--aa", "-a", "--ab 1", "--ba x", "--bb 2", "-f"], "four": ["--aa 1", "--bb x", "-c", "--cc", "--dd 1 2", "-f"],
           "ali": ["--aa 1", "-a 2", "--bb=3", "--cc 4", "-f", "--da x", "--db y"], "cnt": ["--aa", "-a", "-b", "--bb", "-f", "-ab", "-aa"],
           "lst": ["-f", "--aa 1 2", "--bb 1 2 3", "x"], "mix": ["--aa 1", "--bb 2", "--cc 3", "--dd", "--xc", "--xa 4"],
           "mod": ["one", "two", "--aa", "--bb 2"], "en": ["--aa", "--bb 2", "-f"], "dep": ["--aa", "--bb 2", "-f", "-g"],
           "disp": ["--aa", "--bb 1", "--cc 2", "--dd 3", "--ee", "--ff 4"], "same": ["--aa 1", "--bb 2", "--cc 3", "-f", "--aa x"]}
    for tr, a in als.items():
        for cfg in range(4) if tr == "en" else (0,):
            p += seq(tr, a, 5 + d, cfg=cfg)
            h = [""] + a + ["%s %s" % (x, y) for x in a[:4] for y in a[:4]]
            p += seq(tr, h, 3 if len(h) < 25 else 2 + d, cfg=cfg, kind="hist")
    for tr in ("d0", "r1"):
        p += seq(tr, ["", "--fl", "--num 3", "--str=x", "--fl --num 3", "-a", "--num 3 -a", "-n z"], 4, kind="hist")
    return simple("C09", trees(), p)
