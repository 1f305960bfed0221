"""A runtime-disabled node is as if it were absent."""

NOTE = ("Every assignment of up to 6 runtime switches on 10 trees that attach them to flags, counting flags, options, separators, lists, positionals, "
        "group members, aliases and their targets, sub-modes, the anonymous mode and root options; for each assignment all command lines of up to 4-5 "
        "groups, suggestions and the help output (plain, for a path, two widths). All-enabled assignments are also compared with the same tree "
        "compiled without switches.")
from core import *
from dsl import *


def E(on, i):
    return dict(en=i) if on else {}


def fam(on):
    """the same trees with and without switches"""
    s = "" if on else "_n"
    e = lambda i: E(on, i)
    t = []
    t.append(Tree("kinds" + s, mode(flag("--foo", "-f", **e(0)), count("--cnt", "-c", default=V("i", 0), **e(1)), arg("i", "--num", "-n", default=V("i", 7), **e(2)),
                                    arg("s", "--str", "-s", sep="=", default=V("s", "dd"), **e(3)), marg("v<i>", "--list", cnt=(2, 2), default=V("v<i>", [9]), **e(4)),
                                    arg("d", "--plain", **e(5)), flag("-g"), id="A")))
    t.append(Tree("pos" + s, mode(flag("--foo", "-f"), pos("i", "PP", cnt=(1, 1), default=V("i", 3), **e(0)), pos("s", "QQ", cnt=(1, 1), **e(1)), pos("v<s>", "RR", default=V("v<s>", ["z"]), **e(2)), id="A")))
    t.append(Tree("fwd" + s, mode(flag("--foo", "-f"), fwd("--", default=Val("std::vector<std::string_view>{\"q\"}", "v<sv>:[sv:q;]"), **e(0)), id="A")))
    t.append(Tree("grp" + s, mode(oneof(flag("--of", "-o", **e(0)), arg("i", "--oi", **e(1)), arg("s", "--os", sep="="), default=Val("4", "var1/i:4")),
                                  agroup(arg("i", "--ga", **e(2)), arg("i", "--gb", "-b", sep="=", **e(3)), arg("i", "--gc", **e(4)), default=V("i", 5)), flag("--end"), id="A")))
    t.append(Tree("ali" + s, mode(arg("i", "--aa", default=V("i", 1), **e(0)), arg("i", "--bb", "-b", default=V("i", 2), **e(1)), arg("i", "--cc", "-c", alias=["--aa", "--bb"], **e(2)),
                                  flag("-x", alias=["-y", "-z"], **e(3)), flag("-y"), count("-z", **e(4)), id="A")))
    t.append(Tree("dep" + s, mode(arg("i", "--aa"), arg("i", "--bb", dep=["--aa"], default=V("i", 2), **e(0)), flag("-c", dep=["--aa"], **e(1)), flag("-d"), id="A")))
    t.append(Tree("modes" + s, help_("--help", "-h", id="H"), flag("--ver", "-V", id="V", **e(0)), arg("i", "--root", id="R", sep="=", **e(1)),
                  mode("one", flag("--foo", "-f"), arg("i", "--num", **e(2)), id="O", **e(3)),
                  mode("two", mode("sub", flag("--foo", "-f", **e(2)), id="S", **e(4)), mode("alt", flag("-f"), id="L"), **e(3) if False else {}),
                  mode(arg("s", "--foo", default=V("s", "df")), flag("-g", **e(2)), id="A", **e(5))))
    t.append(Tree("help" + s, help_("--help", "-h", id="H", desc="Help output"), flag("--ver", id="V", desc="Version", **e(0)),
                  mode("mode", flag("--foo", "-f", desc="A flag with a text", **e(1)), arg("i", "--number", desc="A number", **e(2)), oneof(flag("--aa", desc="Alternative a"), arg("i", "--bb", desc="Alternative b", **e(3)), default=Val("4", "var1/i:4")),
                       mode("inner", flag("-q", desc="Quiet"), id="I", desc="An inner mode", **e(4)), id="M", desc="A mode", **e(5)),
                  mode(arg("s", "--very-long-name-for-the-column", desc="Sets the column", **e(1)), pos("v<s>", "rest", desc="Others", **e(2)), id="A")))
    t.append(Tree("flat" + s, help_("--help", id="H", flatten=True), mode("mode", flag("--foo", "-f", desc="A flag", **e(0)), mode("inner", flag("-q", desc="Quiet", **e(1)), mode("deep", flag("-r", **e(2)), id="D", **e(3)), id="I", **e(4)), id="M"),
                  mode(oneof(flag("--aa"), arg("i", "--bb", **e(1)), default=Val("4", "var1/i:4")), agroup(arg("i", "--ca", **e(0)), arg("i", "--cb", **e(2)), default=V("i", 1)), id="A", **e(5))))
    return t


def trees():
    t = fam(True) + fam(False)
    t.append(Tree("req", mode(arg("i", "--aa", "-a", en=0, en_req=True), arg("s", "--bb", sep="=", en=1, en_req=V("s", "zz")), marg("v<i>", "--cc", cnt=(2, 2), en=2, en_req=V("v<i>", [4, 5])),
                              pos("i", "PP", cnt=(1, 1), en=3, en_req=V("i", 8)), id="A")))
    return t


SP = {"kinds": (6, ["--foo", "-f", "-c", "-fc", "-cg", "--num 3", "-n x", "--str=a", "-s=b", "--str", "--list 1 2", "--list 1", "--plain 2", "-g"], 3),
      "pos": (3, ["--foo", "-f", "1", "x", "2"], 5),
      "fwd": (1, ["--foo", "-f", "--", "x", "-fg"], 5),
      "grp": (5, ["--of", "-o", "--oi 3", "--os=x", "--ga 1", "--gb=2", "-b=3", "-b", "--gc 6", "--end"], 3),
      "ali": (5, ["--aa 3", "--bb 4", "-b 5", "--cc 6", "-c x", "-x", "-y", "-z", "-xy", "-c"], 3),
      "dep": (2, ["--aa 1", "--bb 2", "-c", "-d", "-dc", "--bb x"], 4),
      "modes": (6, ["--ver", "-V", "--root=1", "--root", "one", "two", "sub", "alt", "--foo", "-f", "--num 3", "-g", "--help"], 3),
      "help": (6, ["--help", "-h", "--ver", "mode", "inner", "--foo", "-f", "--number", "--aa", "--bb", "-q", "--very-long-name-for-the-column", "x"], 3),
      "flat": (6, ["--help", "mode", "inner", "deep", "--foo", "-f", "-q", "-r", "--aa", "--bb", "--ca 1", "--cb"], 3)}


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    for tr, (n, al, L) in SP.items():
        for cfg in range(2**n):
            full = cfg == 2**n - 1
            p += seq(tr, al, L + (1 if full else d) , cfg=cfg)
            if tr in ("modes", "help", "flat"):
                for cols in (0, 60, 80):
                    p += helps(tr, cfg=cfg, cols=cols)
                p += seq(tr, ["mode", "inner", "deep", "--foo", "--ver", "one", "two", "sub", "--num", "-q"], 3, prefix=["--help"], cfg=cfg, cols=60)
            # close to each name: never suggested when disabled
            names = [g.split(" ")[0].split("=")[0] for g in al]
            p += lines(tr, [[x + "z"] for x in names] + [["-g" if tr != "pos" else "-f", x + "q"] for x in names] + [[x[:-1]] for x in names if len(x) > 3] +
                       ([["one", x + "z"] for x in names] + [["two", x + "z"] for x in names] + [["two", "sub", x + "z"] for x in names] if tr == "modes" else []) +
                       ([["mode", x + "z"] for x in names] + [["mode", "inner", x + "z"] for x in names] if tr in ("help", "flat") else []), cfg=cfg)
        # switched on completely: as the tree without switches
        p += seq(tr + "_n", al, L + 1, cfg=2**n - 1)
        if tr in ("modes", "help", "flat"):
            p += helps(tr + "_n", cols=60)
    for cfg in range(16):
        p += seq("req", ["--aa 1", "-a 2", "--bb=3", "--cc 1 2", "--cc 1", "4", "x", "--bb"], 4 + d, cfg=cfg)
        p += seq("req", ["--aa 1", "--bb=3", "--cc 1 2", "4"], 4, cfg=cfg, distinct=True)
    return simple("C11", trees(), p)
