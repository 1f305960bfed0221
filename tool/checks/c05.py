"""Value separators split a token at the first separator only."""
import itertools
from core import *
from dsl import *

NOTE = ("Every token of up to 5 (quick) or 6 (thorough) fragments over names, the separator, other names, spaces and values, alone, after "
        "and before other tokens, for eight separators (ASCII, '-', two- to four-byte) on options with long, short and both names, at root "
        "level, in groups and next to plain options; every outcome equals the model's, which splits at the first separator. Only these "
        "trees and alphabets.")


def trees(seps):
    t = []
    for i, s in enumerate(seps):
        t.append(Tree("s%d" % i, flag("--ver", id="V"), arg("s", "--rot", "-r", sep=s, id="R"),
                      mode(arg("s", "--foo", "-f", sep=s, default=V("s", "none")), arg("i", "--num", sep=s, default=V("i", -1)),
                           arg("s", "-s", sep=s), arg("s", "--plain", "-p"), flag("--bar", "-b"), pos("v<s>", "rest"), id="A")))
    t.append(Tree("two", mode(arg("s", "--foo", sep="="), arg("s", "--fo", "-f", sep=":"), arg("s", "--f:o", sep="="),
                              arg("s", "--bar", "-b"), id="A")))
    t.append(Tree("grp", mode(oneof(arg("s", "--foo", sep="="), arg("i", "--num", sep=":"), flag("--off"), default=Val("9", "var1/i:9")),
                              agroup(arg("s", "--ga", "-g", sep="="), arg("s", "--gb"), default=V("s", "gd")), arg("s", "--req", sep="=", required=True), id="A")))
    t.append(Tree("dash", mode(arg("s", "--foo", "-f", sep="-"), arg("s", "--foo-bar"), flag("-b"), id="A")))
    t.append(Tree("ali", mode(arg("s", "--foo", "-f", sep="="), arg("s", "--bar"), arg("s", "--all", "-a", sep=":", alias=["--foo", "--bar"]),
                              arg("s", "--one", alias=["--foo"]), id="A")))
    return t


def cat(frags, n, minlen=1):
    out = []
    for k in range(minlen, n + 1):
        for c in itertools.product(frags, repeat=k):
            out.append("".join(c))
    return list(dict.fromkeys(out))


def main():
    deep = TIER == "thorough"
    seps = ["=", ":", "é", "→", "🙂", "@", ",", "."]
    p = []
    n = 5 if deep else 4
    for i, s in enumerate(seps):
        frags = ["--foo", "-f", "-s", "--num", s, "x", " ", "7", "--bar"]
        if len(s.encode()) > 1:
            frags.append(s.encode()[:1].decode("latin1") if False else "ÿ")
        toks = cat(frags, n)
        tr = "s%d" % i
        p += lines(tr, [[a] for a in toks])
        p += lines(tr, [["--bar", a] for a in toks] + [[a, "--bar"] for a in toks] + [[a, "v"] for a in toks] + [["--plain", a] for a in toks])
        p += lines(tr, [["--rot" + a] for a in cat([s, "x", "--rot", "=", " "], n)] + [["-r" + a] for a in cat([s, "x", "--rot", " "], n)])
        two = cat(["--foo", "-f", "--num", s, "7"], 3)
        p += lines(tr, [[a, b] for a in two for b in two])
        p += seq(tr, ["--foo%sa" % s, "-fb%sc" % s, "-f%s%s" % (s, s), "--num%s5" % s, "-s%s--bar" % s, "--plain %s" % s, "-b", "x%sy" % s, s],
                 5 if deep else 4)
        # long values
        for k in range(0, 300, 1 if deep else 13):
            p += lines(tr, [["--foo" + s + "v" * k + s], ["-s" + s + s * k + "e"]])
    fr = ["--foo", "--fo", "--f", "-f", "o", "=", ":", "x"]
    p += lines("two", [[a] for a in cat(fr, n)])
    p += seq("two", ["--foo=a:b", "--fo:a=b", "-f:=", "--f:o=x", "--bar =", "-b :", "--fo=x", "--foo:x", "--f:o"], 5 if deep else 4)
    p += seq("grp", ["--foo=a", "--foo", "--num:4", "--num=4", "--num:x", "--off", "--ga=x", "-g=y", "--gb z", "--ga z", "--req=r", "--req r", "v"], 5 if deep else 4)
    p += lines("dash", [[a] for a in cat(["--foo", "-f", "-", "--", "bar", "b", "x"], n + 1)])
    p += seq("dash", ["--foo-x", "--foo-bar x", "--foo-bar", "-f-b", "-f--", "-b", "--foo"], 5)
    p += seq("ali", ["--foo=a", "-f=b", "--bar c", "--all:d=e", "-a:f:g", "--all=x", "--one h=i", "--all"], 5 if deep else 4)
    return simple("C05", trees(seps), p)
