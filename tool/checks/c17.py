"""An unknown argument is reported with the nearest available name."""

NOTE = ("Every unknown token of up to 6-7 characters over 3-5 letter alphabets (long, short and bare form), every single and double edit of every declared name, "
        "multi-code-point characters (combining marks, joiner sequences, flags), in every mode of 9 trees and under every runtime switch, and with 12 different "
        "command-line contexts before and after it; the reported token, the suggested path and tie-breaking are compared with a direct distance computation.")
import itertools
from core import *
from dsl import *


def trees():
    t = []
    t.append(Tree("flat", mode(flag("--abc", "-a"), flag("--abd", "-b"), arg("i", "--acb"), arg("s", "--cab", sep="="), marg("v<i>", "--aabb", cnt=(2, 2)), flag("--bb"), id="A")))
    t.append(Tree("ties", mode(flag("--aaa"), flag("--bbb"), flag("--aab"), flag("--bba"), flag("--abab"), flag("--baba"), flag("--aa"), flag("--bb"), flag("-a"), flag("-b"), id="A")))
    t.append(Tree("modes", help_("--help", "-h", id="H"), flag("--abc", id="V"), mode("ab", flag("--abc"), flag("-a"), id="M1"), mode("abb", mode("aab", flag("--acc"), id="S1"), mode("bab", arg("i", "--abcc"), flag("--caa", "-c"), id="S2")),
                  mode(flag("--bbc", "-b"), arg("i", "--aac"), id="A")))
    t.append(Tree("noan", flag("--abc", id="V"), mode("ab", flag("--bc"), mode("abc", flag("--cc"), id="N"), id="M1"), mode("ba", flag("--abca"), id="M2")))
    t.append(Tree("uni", mode(flag("--e\u0301a", "-\u00e9"), flag("--\u00e9a"), flag("--\u65e5\u672c", "-\u65e5"), flag("--\U0001F468\u200d\U0001F469x", "-\U0001F1E9\U0001F1EA"), arg("i", "--\U0001F44D\U0001F3FDy"), flag("--ea"), id="A")))
    t.append(Tree("en", flag("--abc", id="V", en=0), mode("ab", flag("--abc", en=1), flag("--acc"), id="M1", en=2), mode("bb", mode("ab", flag("--abb", en=3), id="S"), flag("--bca", en=1), id="T"), mode(flag("--cba", en=3), arg("i", "--aaa", en=0), id="A", en=2)))
    t.append(Tree("grp", mode(oneof(flag("--abc"), arg("i", "--acc"), default=Val("1", "var1/i:1")), agroup(arg("i", "--bca", "-b"), arg("i", "--bcc"), default=V("i", 1), disp="Group"), arg("i", "--al", "-l", alias=["--tt"]), arg("i", "--tt"),
                              flag("--dd", dep=["--tt"]), id="A")))
    t.append(Tree("pos", mode("run", flag("--abc"), arg("i", "--aac"), pos("i", "P", cnt=(1, 1)), id="R"), mode(flag("--abc"), flag("--bcd", "-b"), fwd("--"), id="A")))
    # no short names: the nearest to an empty name is the one of fewest characters, not bytes
    t.append(Tree("wide", flag("--\u65e5\u672c", id="V"), flag("--abc", id="W"), flag("--\u00e9\u00e8\u00ea\u00eb", id="U"), flag("--abcde", id="X"), mode("\u65e5\u672c\u8a9e", flag("--\u65e5\u672c\u8a9e\u6587", en=0), flag("--abcdef"), flag("--\u65e5\u672c\u8a9e", en=1), id="M")))
    return t


NAMES = {"flat": ["--abc", "-a", "--abd", "-b", "--acb", "--cab", "--aabb", "--bb"], "ties": ["--aaa", "--bbb", "--aab", "--bba", "--abab", "--baba"],
         "modes": ["--help", "--abc", "ab", "abb", "aab", "bab", "--acc", "--abcc", "--caa", "--bbc", "--aac"], "noan": ["--abc", "ab", "abc", "ba", "--bc", "--cc", "--abca"],
         "uni": ["--e\u0301a", "--\u00e9a", "--\u65e5\u672c", "--\U0001F468\u200d\U0001F469x", "--\U0001F44D\U0001F3FDy"], "en": ["--abc", "ab", "--acc", "bb", "--abb", "--bca", "--cba", "--aaa"],
         "grp": ["--abc", "--acc", "--bca", "--bcc", "--al", "--tt", "--dd"], "pos": ["run", "--abc", "--aac", "--bcd"]}


def edits(s, al):
    out = set()
    for i in range(len(s) + 1):
        for c in al:
            out.add(s[:i] + c + s[i:])
        if i < len(s):
            out.add(s[:i] + s[i + 1:])
            for c in al:
                out.add(s[:i] + c + s[i + 1:])
        if i + 1 < len(s):
            out.add(s[:i] + s[i + 1] + s[i] + s[i + 2:])
    return out


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    ctx = {"flat": ([], ["--abc"], ["-ab"], ["--acb", "3"]), "ties": ([], ["--aaa"], ["-ab"]), "modes": ([], ["ab"], ["abb"], ["abb", "bab"], ["abb", "aab"], ["--bbc"]), "noan": ([], ["ab"], ["ab", "abc"], ["ba"]),
           "uni": ([], ["-\u00e9"]), "en": ([], ["ab"], ["bb"], ["bb", "ab"]), "grp": ([], ["--acc", "1"], ["--bcc", "2"], ["--tt", "3"]), "pos": ([], ["run"], ["run", "--abc"], ["--bcd"])}
    for tr, cs in ctx.items():
        for cfg in (range(16) if tr == "en" else (0,)):
            for c in cs:
                for stem in ("", "-", "--"):
                    al = ["a", "b", "c"] if tr != "uni" else ["e", "\u0301", "\u00e9", "a", "\u65e5", "\U0001F468", "\u200d", "\U0001F469", "\U0001F1E9", "\U0001F3FD", "x", "\U0001F44D"]
                    p += cats(tr, al, (4 if tr == "en" else 6 if tr != "uni" else 4) + (d if tr != "uni" else 0), stem=stem, prefix=c, cfg=cfg)
                e1 = set()
                for n in NAMES[tr]:
                    e1 |= edits(n, "abx-" if tr != "uni" else "a\u0301\u00e9\u200d\U0001F1E9")
                e2 = set()
                for n in sorted(e1)[:: 1 if d else 3]:
                    e2 |= edits(n, "bz" if tr != "uni" else "\u0301b")
                if tr == "en" and not d:
                    e2 = set()
                p += lines(tr, [c + [x] for x in sorted(e1 | e2)], cfg=cfg)
        # the same unknown token whatever surrounds it
        toks = sorted({x for n in NAMES[tr] for x in (n + "z", "-" + n, n[:-1] + "q", n.lstrip("-") + "w")})
        around = [[], ["3"], ["-b"], ["--bbb", "--aaa"], ["x", "y", "z"], ["--abc", "--abc"], [""], [toks[0]], [toks[-1]]]
        for c in cs:
            for a in around:
                p += lines(tr, [c + [x] + a for x in toks])
    for cfg in range(4):
        for x in ("", "-", "--"):
            p += cats("wide", ["\u65e5", "\u672c", "\u00e9", "a", "b"], 3 + d, stem=x, cfg=cfg) + cats("wide", ["\u65e5", "\u672c", "\u00e9", "a", "b"], 3 + d, stem=x, prefix=["\u65e5\u672c\u8a9e"], cfg=cfg)
    for n in list(range(1, 70)) + [100, 127, 128, 129, 200, 255, 256, 300]:
        p += lines("flat", [["--" + "a" * n], ["--" + "abc" * n], ["x" * n], ["--" + "b" * n + "abd"]])
        p += lines("uni", [["--" + "\u0301" * n], ["--" + "\U0001F1E9" * n], ["--" + "\u65e5" * n + "\u672c"]])
    return simple("C17", trees(), p)
