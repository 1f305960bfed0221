"""Help for a path describes exactly the node at that path."""

NOTE = ("All help paths of up to 4-5 tokens over every name of 8 trees (long and short spellings, both prefixes swapped, near misses, values, empty and "
        "malformed tokens), runtime switches included, with and without flattening and at two widths; output and errors are compared with the model's "
        "rendering of the addressed node. Members of unnamed groups have no path of their own.")
from core import *
from dsl import *


def trees():
    t = []
    def body(s=""):
        return [flag("--foo", "-f", desc="Foo flag"), arg("i", "--num", "-n", desc="A number", minv=V("i", 1), maxv=V("i", 9), default=V("i", 2)), arg("s", "--str", sep="=", desc="A string" + s),
                marg("v<i>", "--list", cnt=(2, 2), desc="Some numbers"), count("-v", desc="Verbosity")]
    for nm, fl in (("plain", False), ("flat", True)):
        t.append(Tree(nm, help_("--help", "-h", id="H", desc="Help", flatten=fl, pname="prog", pver="1.2", pintro="An intro", padd="The end"), flag("--version", id="V", desc="Version"),
                      mode("one", *body(), id="O", desc="First mode"),
                      mode("two", flag("--foo", desc="Another foo"), mode("sub", *body(" here"), mode("deep", flag("--foo", "-x", desc="Deep foo"), id="E", desc="Deepest"), id="S", desc="Sub mode"),
                           mode("one", arg("d", "--num", desc="Double"), id="N", desc="Reused name"), id="T", desc="Second mode"),
                      mode(flag("--foo", "-f", desc="Anonymous foo"), pos("v<s>", "rest", desc="Others"), id="A")))
    t.append(Tree("root", help_("--help", id="H"), flag("--foo", "-f", id="F", desc="F"), arg("i", "--num", id="N", desc="N"), count("-c", id="C") if False else flag("-c", id="C", desc="C")))
    t.append(Tree("grp", help_("--help", "-h", id="H", flatten=True), mode("mm", oneof(flag("--aa", desc="A"), arg("i", "--bb", desc="B"), default=Val("1", "var1/i:1")),
                              agroup(arg("i", "--cc", "-c"), arg("i", "--dd", sep="="), default=V("i", 1), disp="Either"), flag("--ee"), id="M", desc="Groups"),
                  mode(oneof(flag("--aa", desc="A"), arg("i", "--bb", desc="B"), default=Val("1", "var1/i:1")), flag("--aaa"), id="A")))
    t.append(Tree("en", help_("--help", id="H", flatten=True), flag("--ver", id="V", en=0), mode("one", flag("--foo", en=1, desc="Foo"), arg("i", "--num"), mode("sub", flag("-q", en=2), flag("-r"), id="S", en=3), id="O", en=4, desc="One"),
                  mode("two", flag("--foo"), id="T")))
    t.append(Tree("uni", help_("--help", "-\u00fc", id="H"), mode("gr\u00fc\u00df", flag("--\u65e5\u672c", "-\u00e9", desc="\u65e5\u672c text"), id="G", desc="Mode gr\u00fc\u00df"), mode("gruss", flag("-f"), id="R")))
    t.append(Tree("inm", mode("aa", flag("--foo", desc="F"), id="X"), mode("bb", help_("--help", id="HH") if False else flag("--bar", desc="B"), id="Y"), help_("--help", id="H")) if False else
             Tree("fwd", help_("--help", id="H"), mode("run", flag("--foo", desc="F"), fwd("--", desc="Forwarded"), id="X"), mode("ali", arg("i", "--aa", desc="A"), arg("i", "--al", alias=["--aa"], desc="Alias"), flag("--dp", dep=["--aa"], desc="Dep"), id="Y"),
                  mode(fwd("rest", desc="R"), id="A")))
    return t


AL = {"plain": ["one", "two", "sub", "deep", "--foo", "-f", "--num", "-n", "--str", "-v", "--version", "foo", "--help"],
      "root": ["--foo", "-f", "--num", "-c", "--help", "--c", "-foo", "foo", "-h"],
      "grp": ["mm", "--aa", "--bb", "--cc", "-c", "--dd", "--ee", "--aaa", "Either", "--dd=1"],
      "en": ["--ver", "one", "sub", "two", "--foo", "--num", "-q", "-r"],
      "uni": ["gr\u00fc\u00df", "gruss", "--\u65e5\u672c", "-\u00e9", "-f", "gru\u0308\u00df", "-e\u0301"],
      "fwd": ["run", "ali", "--foo", "--", "rest", "--aa", "--al", "--dp"]}
AL["flat"] = AL["plain"]


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    for tr, al in AL.items():
        for cfg in (range(32) if tr == "en" else (0,)):
            for pre in (["--help"], ["-h"], ["-\u00fc"], ["-hv"], ["--help="])[: 5 if tr != "en" else 1]:
                for cols in ((0, 50) if pre == ["--help"] else (0,)):
                    p += seq(tr, [[a] for a in al], (3 if tr == "en" or cols or pre != ["--help"] else 4) + d, prefix=pre, cfg=cfg, cols=cols)
            p += helps(tr, cfg=cfg)
            p += helps(tr, cfg=cfg, cols=70)
        # swapped prefixes, near misses, values, malformed text
        base = [a.lstrip("-") for a in al]
        odd = list(dict.fromkeys([q + b for b in base for q in ("", "-", "--", "---")] + [b[:-1] for b in al if len(b) > 1] + [b + "x" for b in al] + [b + "=1" for b in al] + ["", "-", "--", "=", "3", " "]))
        odd += [b"\xc3", b"--\xe2\x82", b"-\xff"]
        p += seq(tr, [[a] for a in odd], 2, prefix=["--help"])
        p += seq(tr, [[a] for a in al[:3]] + [[x] for x in odd[::2]], 2, prefix=["--help", al[0]])
        # not a help request: something else comes first
        p += lines(tr, [[a, "--help", b] for a in al for b in al] + [[a, b, "-h"] for a in al for b in al])
    return simple("C16", trees(), p)
