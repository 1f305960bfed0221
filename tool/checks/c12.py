"""The named mode on the command line alone decides which options apply."""

NOTE = ("12 trees with up to 4 mode levels, siblings that reuse each other's mode and option names with different types, grouping-only modes at every "
        "depth, with and without an anonymous mode, and positionals that would take a mode name; all command lines of up to 5-6 tokens over mode "
        "names, options, values that equal mode names, and near misses are compared with the model. Nodes that are the target of an alias or "
        "dependency keep names unique within their mode (the library does not compile otherwise).")
from core import *
from dsl import *


def trees():
    t = []
    t.append(Tree("sib", mode("one", flag("--foo", "-f"), arg("i", "--num", default=V("i", 1)), id="O"), mode("two", arg("s", "--foo", default=V("s", "x")), flag("--num", "-f"), id="T"),
                  mode("three", count("-f"), marg("v<i>", "--num", cnt=(2, 2)), id="U"), mode(arg("d", "--foo"), arg("u", "-f"), id="A")))
    t.append(Tree("noan", flag("--ver", id="V"), mode("one", flag("--foo"), id="O"), mode("two", mode("sub", flag("--foo"), id="S"), mode("sup", arg("i", "--foo"), id="P"))))
    t.append(Tree("deep", mode("aa", mode("bb", mode("cc", flag("-y"), mode("dd", flag("-x"), id="D"), id="C"))),
                  mode("bb", flag("-z"), mode("aa", flag("-w"), id="BA"), id="B"), mode(flag("-v"), id="A")))
    t.append(Tree("git", help_("--help", "-h", id="H"), flag("--version", "-v", id="V"),
                  mode("remote", flag("-v"), mode("add", arg("s", "-t"), pos("s", "name", cnt=(1, 1)), id="RA"), mode("rm", flag("-f"), id="RR"), id="R"),
                  mode("branch", mode("add", flag("-f"), id="BA"), mode("add-all", flag("-f"), id="BX")), mode("add", flag("-f"), pos("v<s>", "files"), id="AD"),
                  mode(arg("s", "--exec"), pos("v<s>", "rest"), id="A")))
    t.append(Tree("pref", mode("ab", flag("-a"), id="X"), mode("abcd", flag("-b"), mode("cd", flag("-c"), id="YB"), id="Y"), mode("abc", flag("-d"), id="Z"), mode("foo", flag("--foo"), id="F"), mode(flag("--ab"), arg("s", "--foo"), id="A")))
    t.append(Tree("uni", mode("gr\u00fc\u00df", flag("-\u00e9"), mode("\u65e5\u672c", flag("-f"), id="J"), id="G"), mode("gru", flag("-f"), id="U"), mode("e\u0301x", flag("-f"), id="E"), mode(flag("-f"), id="A")))
    t.append(Tree("pos", mode("run", pos("s", "P", cnt=(1, 1)), pos("v<s>", "Q"), id="R"), mode("get", marg("v<s>", "--list", "-l"), id="G"), mode("fwd", flag("-f"), fwd("--"), id="F"),
                  mode(flag("-f"), pos("v<s>", "rest"), id="A")))
    t.append(Tree("req", mode("one", arg("i", "--foo", required=True), mode("two", arg("i", "--bar", required=True), id="T"), id="O"), mode("x1", arg("i", "--foo", sep="=", required=True), id="X"), mode(arg("i", "--bar", required=True), id="A")))
    t.append(Tree("rel", mode("one", arg("i", "--aa"), arg("i", "--bb", dep=["--aa"]), arg("i", "--cc", alias=["--aa"]), id="O"), mode("two", arg("s", "--aa"), flag("-b"), arg("s", "--cc", alias=["--aa"]), flag("--bb", alias=["-b"]), id="T"),
                  mode("three", oneof(flag("--aa"), arg("i", "--bb"), default=Val("1", "var1/i:1")), agroup(arg("i", "--cc"), arg("i", "--dd"), default=V("i", 4)), id="U"),
                  mode(flag("--aa"), arg("i", "--bb", dep=["--aa"]), id="A")))
    t.append(Tree("rooto", arg("i", "--foo", "-f", id="RF"), flag("--bar", id="RB"), mode("one", arg("i", "--foo", "-f"), flag("--bar"), id="O"), mode(flag("--baz"), id="A")))
    t.append(Tree("group", mode("g1", mode("g2", mode("g3", mode("leaf", flag("-f"), id="L")))), mode("h1", mode("leaf", flag("-f"), id="M"), mode("h2", flag("-f"), id="N"))))
    t.append(Tree("en", mode("one", flag("-f"), mode("sub", flag("-g"), id="S", en=1), id="O", en=0), mode("two", mode("sub", flag("-h"), id="T", en=2)), mode(flag("-f"), pos("v<s>", "rest"), id="A", en=3)))
    return t


AL = {"sib": ["one", "two", "three", "--foo", "-f", "--num", "3", "on", "--one"],
      "noan": ["one", "two", "sub", "sup", "--foo", "--ver", "3", "subx"],
      "deep": ["aa", "bb", "cc", "dd", "-x", "-y", "-z", "-w", "-v"],
      "git": ["remote", "branch", "add", "add-all", "rm", "-f", "-v", "-t", "--exec", "--version", "x"],
      "pref": ["abcd", "cd", "ab", "abc", "foo", "--foo", "--ab", "-a", "-b", "-c", "-d"],
      "uni": ["gr\u00fc\u00df", "gru", "\u65e5\u672c", "e\u0301x", "\u00e9x", "-f", "-\u00e9", "gr\u00fc", "gru\u0308\u00df"],
      "pos": ["run", "get", "fwd", "-f", "--list", "-l", "--", "x"],
      "req": ["one", "two", "x1", "--foo", "--bar", "3", "--foo=4", "--bar=4"],
      "rel": ["one", "two", "three", "--aa", "--bb", "--cc", "--dd", "-b", "5"],
      "rooto": ["one", "--foo", "-f", "--bar", "--baz", "3", ""],
      "group": ["g1", "g2", "g3", "leaf", "h1", "h2", "-f", "g"],
      "en": ["one", "sub", "two", "-f", "-g", "-h"]}


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    for tr, al in AL.items():
        for cfg in (range(16) if tr == "en" else (0,)):
            p += seq(tr, [[a] for a in al], (5 if len(al) > 9 else 6 if len(al) > 6 else 7) - (tr == "en") + d, cfg=cfg)
    # mode names as values, after options, in every spelling
    p += seq("git", ["remote", "add", "add-all", "branch", "rm", "--exec add", "--exec remote", "-t add", "-t rm", "x", "-f", "-vf"], 4 + d)
    p += seq("sib", ["one", "two", "--foo one", "--num 3", "--num 1 2", "-f", "-ff", "--foo", "three", "-f 7"], 5)
    p += seq("rel", ["one", "two", "three", "--aa 1", "--bb 2", "--cc 3", "--aa", "--bb", "-b", "--dd 6"], 5)
    p += seq("req", ["one", "two", "x1", "--foo 1", "--bar 2", "--foo=3"], 6)
    for tr, names in (("git", ["remote", "branch", "add", "add-all", "rm"]), ("deep", ["aa", "bb", "cc", "dd"]), ("group", ["g1", "g2", "g3", "leaf", "h1", "h2"]), ("uni", ["gr\u00fc\u00df", "\u65e5\u672c", "e\u0301x"])):
        near = [n + x for n in names for x in ("", "x", " ", "=")] + [n[:-1] for n in names] + ["-" + n for n in names] + ["--" + n for n in names] + [n.upper() for n in names] + [x + n for n in names for x in ("x", " ")]
        near = [x for x in dict.fromkeys(near) if x]
        p += seq(tr, [[x] for x in near], 3 if len(near) < 45 else 2)
    return simple("C12", trees(), p)
