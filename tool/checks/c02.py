"""Routers receive exactly the typed values given, in declaration order."""

NOTE = ("All sequences of argument groups up to 4 groups (5-6 for some trees), all presence subsets, and length axes up to 300 elements, "
        "on 19 trees covering every value-carrying node kind, 14 value types and 5 declaration orders; every one is run on the compiled "
        "tree and compared with the model's typed router call. Values outside the alphabets and other trees are not covered.")
from core import *
from dsl import *


def trees():
    t = []
    # one of everything
    t.append(Tree("mix", help_("--help", "-h", id="H"),
                  mode(flag("--foo", "-f"), count("--bar", "-b"), arg("i", "--num", "-n", default=V("i", 7)),
                       arg("s", "--str", default=V("s", "dflt")), marg("v<i>", "--many", cnt=(2, 2)),
                       pos("s", "P", cnt=(1, 1), default=V("s", "pd")), pos("v<u>", "Q", cnt=(0, 2)), id="A")))
    # every scalar type, with defaults and without
    scal = ["b", "i", "u", "i16", "u16", "i64", "u64", "f", "d", "c", "s", "sv", "o<i>", "o<d>"]
    t.append(Tree("types", mode(*[arg(x, "--t%d" % i) for i, x in enumerate(scal)], id="A")))
    dv = {"b": True, "i": -5, "u": 6, "i16": -7, "u16": 8, "i64": -2**40, "u64": 2**63, "f": 0.5, "d": -2.25, "c": "q",
          "s": "a default string longer than any small buffer", "sv": "view", "o<i>": 9, "o<d>": None}
    t.append(Tree("typesd", mode(*[arg(x, "--t%d" % i, default=V(x, dv[x])) for i, x in enumerate(scal)], id="A")))
    t.append(Tree("custom", mode(arg("en", "--col", custom=True), arg("en", "--cox", custom=True),
                                 arg("i", "--len", custom=True), arg("i", "--num"), pos("en", "rest", cnt=(1, 1), custom=True), id="A")))
    # the same kinds in different declaration orders
    kids = {"f": lambda: flag("--foo", "-f"), "c": lambda: count("--cnt", "-c"), "a": lambda: arg("i", "--num", "-n", default=V("i", -1)),
            "g": lambda: arg("s", "--str", "-s"), "m": lambda: marg("v<s>", "--list", cnt=(3, 3))}
    for j, o in enumerate(["fcagm", "mgacf", "gfmca", "camfg", "afgmc"]):
        t.append(Tree("ord%d" % j, mode(*[kids[k]() for k in o], pos("s", "one", cnt=(1, 1)), pos("v<s>", "rest"), id="A")))
    # list types
    t.append(Tree("lists", mode(marg("v<i64>", "--la", cnt=(2, 2)), marg("v<s>", "--lb", cnt=(3, 3)), marg("v<d>", "--lc", cnt=(2, 2)),
                                marg("v<u16>", "--ld", cnt=(2, 2)), pos("v<sv>", "rest"), id="A")))
    t.append(Tree("listu", mode(flag("-x"), marg("v<s>", "--all"), id="A")))
    t.append(Tree("listdef", mode(marg("v<i>", "--la", cnt=(2, 2), default=V("v<i>", [1, 2, 3])),
                                  pos("v<s>", "rest", default=V("v<s>", ["p", "q"])), id="A")))
    t.append(Tree("fwd", mode(flag("--foo", "-f"), arg("i", "--num"), fwd("--"), id="A")))
    # root level nodes with their own routers, and named modes with the same option names
    t.append(Tree("roots", flag("--ver", id="V"), arg("s", "--exec", "-e", id="E"), arg("u16", "--seq", id="S"),
                  arg("d", "--fac", sep="=", id="F"),
                  mode("one", flag("--foo"), arg("i", "--num", default=V("i", 1)), id="M1"),
                  mode("two", arg("s", "--num", default=V("s", "two")), flag("--foo"), id="M2"),
                  mode(arg("d", "--num", default=V("d", 0.25)), id="A")))
    # many children: the position of each value in the tuple
    t.append(Tree("wide", mode(*[arg("i" if i % 3 == 0 else "s" if i % 3 == 1 else "u64", "--w%d" % i,
                                     default=V("i", i) if i % 3 == 0 else V("s", "w%d" % i) if i % 3 == 1 else V("u64", 10**15 + i))
                                 for i in range(14)], id="A")))
    t.append(Tree("flags", mode(*[flag("--f%d" % i, "-" + "abcdefgh"[i]) for i in range(8)], id="A")))
    t.append(Tree("counts", mode(count("--ci", "-i", type="i"), count("--cu", "-u", type="u"), count("--cl", "-l", type="i64"),
                                 count("--cs", "-s", type="u16"), id="A")))
    t.append(Tree("poss", mode(pos("i", "a", cnt=(1, 1)), pos("v<s>", "b", cnt=(2, 2)), pos("s", "c", cnt=(1, 1)), pos("v<i>", "d"), id="A")))
    t.append(Tree("groups", mode(oneof(flag("--of"), arg("i", "--oi"), arg("s", "--os"), default=Val("42", "var1/i:42")),
                                 agroup(arg("i", "--ga"), arg("i", "--gb"), default=V("i", 5)),
                                 oneof(arg("u", "--pa"), arg("i64", "--pb", "-p"), required=True), flag("--end"), id="A")))
    return t


def plan(deep=0):
    p = []
    A = seq
    p += A("mix", ["--foo", "-f", "-b", "-fb", "--num 5", "-n x", "--str s", "--many 1 2", "7", "a"], 4 + deep)
    vals = {"b": "true", "i": "-12", "u": "13", "i16": "-14", "u16": "15", "i64": "-1600000000000", "u64": "1700000000000",
            "f": "1.5", "d": "2.5e3", "c": "z", "s": "a string that does not fit a small buffer", "sv": "--foo?", "o<i>": "22", "o<d>": "4.5"}
    scal = ["b", "i", "u", "i16", "u16", "i64", "u64", "f", "d", "c", "s", "sv", "o<i>", "o<d>"]
    groups = [["--t%d" % i, vals[x]] for i, x in enumerate(scal)]
    for tr in ("types", "typesd"):
        p += A(tr, groups, 3 + deep, distinct=True)
        p += lines(tr, [sum(groups, []), sum(groups[::-1], [])])
        p += A(tr, groups[:1], 1, prefix=sum(groups[1:], []))
        # all but one
        p += lines(tr, [sum(groups[:i] + groups[i + 1:], []) for i in range(len(groups))])
    p += A("custom", ["--col red", "--col teal", "--cox green", "--len abcd", "--num 4", "red", "blue"], 4 + deep)
    for j in range(5):
        p += A("ord%d" % j, ["-f", "-c", "--num 3", "--str u", "--list a b c", "x", "-fc"], 4 + deep)
        p += A("ord%d" % j, ["--foo", "--cnt", "-n 3", "-s u", "--list c b a", "x y z"], 6, minlen=5, distinct=True)
    p += A("lists", ["--la 1 2", "--la -3 4", "--lb x y z", "--lc 1 0.5", "--ld 1 65535", "p", "q"], 4 + deep)
    p += A("listu", ["-x", "--all", "a", "-1", "--foo"], 5 + deep)
    p += A("listdef", ["--la 4 5", "r", "s"], 4)
    p += A("fwd", ["--foo", "--num 2", "--", "-f", "x"], 5)
    p += A("roots", ["--ver", "--exec x", "-e --foo", "--seq 12", "--fac=2.5", "one", "two", "--foo", "--num 3"], 3 + deep)
    p += A("wide", [["--w%d" % i, str(100 + i)] for i in range(14)], 3, distinct=True)
    p += lines("wide", [sum([["--w%d" % i, str(200 + i)] for i in o], []) for o in
                        ([*range(14)], [*range(13, -1, -1)], [*range(0, 14, 2), *range(1, 14, 2)])])
    p += A("flags", ["-" + x for x in "abcdefgh"], 4 + deep, distinct=True)
    p += lines("flags", [["--f%d" % i for i in range(8) if m >> i & 1] for m in range(256)])
    p += lines("flags", [["-" + "".join("abcdefgh"[i] for i in range(8) if m >> i & 1)] for m in range(1, 256)])
    p += A("counts", ["-i", "-u", "-l", "-s", "--ci", "-iu"], 5 + deep)
    p += lines("counts", [["-i"] * n + ["--cs"] * (n % 7) for n in range(0, 140)])
    p += A("poss", ["1", "x", "2", "-3"], 6)
    p += A("groups", ["--of", "--oi 3", "--os t", "--ga 1", "--gb 2", "--pa 8", "-p 9", "--end"], 4 + deep)
    # empty tokens and repeated elements are elements like any others
    p += A("mix", ["-f", ["--str", ""], ["--many", "3", "3"], [""], "0", "0 0"], 5)
    p += A("listu", ["-x", "--all", [""], "a", "a a"], 6)
    p += A("lists", [["--lb", "", "", ""], ["--lb", "x", "", "x"], ["--lb", "", "x", "y"], "--la 5 5", "--lc 0 0", [""], "p"], 4 + deep)
    p += A("listdef", ["--la 0 0", [""], "r"], 5)
    p += A("ord0", [["--list", "", "b", ""], ["--str", ""], [""], "x"], 4)
    p += A("fwd", ["--foo", "--", [""], "x"], 5)
    p += A("poss", ["1", [""], "0"], 6)
    p += A("roots", [["--exec", ""], "--fac=", "--num 0", "one", [""]], 3)
    # length axes: long lists and long strings keep every element
    for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300]:
        els = [str(i * 7 % 101) for i in range(n)]
        p += lines("listu", [["--all"] + els, ["-x", "--all"] + els, ["--all"] + ["v" * (i % 40) + str(i) for i in range(n)]])
        p += lines("poss", [["5", "l", "r", "s"] + els])
        p += lines("fwd", [["--foo", "--"] + els + ["--num", "3"]])
        p += lines("ord0", [["-f"] + els, els + ["-f"], els])
        p += lines("mix", [["--str", "y" * n], ["--num", "0" * n + "5"] if n else []])
        p += lines("groups", [["--pa", "1", "--os", "w" * n]])
        p += lines("typesd", [["--t10", "s" * n, "--t11", "v" * n, "--t5", "1" + "0" * (n % 20)]])
    return p


def main():
    return simple("C02", trees(), plan(0 if TIER != "thorough" else 1))
