"""Collapsed short options equal the separate short options."""
import itertools
from core import *
from dsl import *

NOTE = ("Every group of up to 5 (7 thorough) short names, alone and between other tokens, is run collapsed, separate and in every split into "
        "tokens, and the outcomes compared with each other and with the model, on trees with ASCII to four-byte and combining names, counting "
        "flags, value options, long names sharing letters, modes and root-level flags; counts up to 300. Only these names and trees. A "
        "positional receiving an undeclared remainder without its prefix is the recorded known finding.")

A = ["a", "b", "c"]
MB = ["é", "漢", "🙂", "e\u0301", "x"]


def trees():
    t = []
    t.append(Tree("asc", mode(flag("--all", "-a"), flag("-b"), count("--count", "-c"), arg("s", "--num", "-n"), flag("--abc"), flag("--ab"),
                              arg("s", "--val", "-s", sep="="), marg("v<s>", "--list", "-l", cnt=(2, 2)), id="A")))
    t.append(Tree("mb", mode(flag("--eacute", "-é"), flag("-漢"), count("-🙂", "--smile"), flag("-e\u0301"), count("--ex", "-x"), arg("s", "-ü"), id="A")))
    t.append(Tree("pos", mode(flag("--all", "-a"), flag("-b"), count("--count", "-c"), arg("s", "-n"), pos("v<s>", "rest"), id="A")))
    t.append(Tree("root", flag("--ver", "-v", id="V"), flag("--quit", "-q", id="Q"), arg("i", "-n", id="N"), help_("--help", "-h", id="H"),
                  mode("run", flag("-a"), flag("-b"), count("-c"), flag("-v"), id="M"), mode(flag("-a"), count("-c"), flag("-b"), id="AN")))
    t.append(Tree("cnt", mode(*[count("--c%s%s" % (x, x), "-" + x, type=ty) for x, ty in (("i", "i"), ("u", "u"), ("l", "i64"), ("s", "u16"))], id="A")))
    t.append(Tree("cnt2", mode(*[count("--c%s%s" % (x, x), "-" + x, type=ty, default=df) for x, ty, df in (("e", "en", V("en", 0)), ("b", "i8", V("i8", 0)), ("d", "d", V("d", 0.0)), ("n", "u8", None))],
                              agroup(count("-v", type="en", desc="Verbosity"), arg("en", "--verbose", sep="=", custom=True), default=V("en", 1), minv=V("en", 0), maxv=V("en", 2)), id="A")))
    t.append(Tree("alias", mode(flag("--all", "-a"), flag("-b"), count("--count", "-c"), flag("--both", "-x", alias=["--all", "-b"]),
                                flag("-y", alias=["-c"]), id="A")))
    t.append(Tree("grp", mode(flag("-a"), oneof(flag("-b"), arg("i", "-n"), default=Val("false", "var0/b:0")),
                              agroup(count("-c"), count("-d"), default=V("i", 0)), id="A")))
    t.append(Tree("en", mode(flag("-a", en=0), flag("-b"), count("-c", en=1), id="A")))
    return t


def splits(chars):
    """every way of cutting a group into tokens"""
    n = len(chars)
    for m in range(2 ** (n - 1)):
        out, cur = [], chars[0]
        for i in range(1, n):
            if m >> (i - 1) & 1:
                out.append("-" + cur)
                cur = chars[i]
            else:
                cur += chars[i]
        yield out + ["-" + cur]


def main():
    deep = TIER == "thorough"
    n = 6 if deep else 5
    p = []
    for tr, al, ctx in (("asc", A, [([], []), (["--num", "v"], []), ([], ["--num", "v"]), (["-n", "v"], ["-s=w"]), (["--list", "p", "q"], ["--count"])]),
                        ("mb", MB, [([], []), (["-ü", "v"], []), ([], ["--smile"])]),
                        ("pos", A, [([], []), ([], ["v", "w"])]),
                        ("root", A, [([], []), (["run"], []), (["run"], ["-v"])]),
                        ("alias", ["a", "b", "c", "x", "y"], [([], []), (["--count"], [])]),
                        ("grp", ["a", "b", "c", "d"], [([], []), ([], ["-n", "1"])])):
        for k in range(1, n + 1):
            if k > 4 and len(al) > 4 and not deep:
                continue
            ps = []
            for g in itertools.product(al, repeat=k):
                sep = ["-" + c for c in g]
                cuts = splits(g)
                for pre, suf in ctx:
                    cuts = list(splits(g)) if k <= 4 else [["-" + "".join(g)], ["-" + "".join(g[:2]), "-" + "".join(g[2:])]]
                    for cut in cuts:
                        ps.append((pre + cut + suf, pre + sep + suf))
            p += pairs(tr, ps, mode="kind")
    # with a character no option declares: rejected alike; and everything against the model
    ps = []
    for k in range(2, 5):
        for g in itertools.product(A + ["z"], repeat=k):
            ps.append((["-" + "".join(g)], ["-" + c for c in g]))
    p += pairs("asc", ps, mode="class")
    p += pairs("alias", [x for x in ps], mode="class")
    p += cats("asc", ["a", "b", "c", "n", "s", "=", "z", "é", "-"], n + 1, stem="-")
    p += cats("asc", ["a", "b", "c", "n", "z"], n, stem="-", suffix=["v"])
    p += cats("asc", ["a", "b", "c", "n", "z"], n, stem="-", prefix=["--num", "v", "-c"])
    p += cats("mb", MB + ["ü", "\u0301", "-"], n, stem="-")
    p += cats("pos", ["a", "b", "c", "n", "z", "-"], n, stem="-", suffix=["v", "-a"])
    p += cats("pos", ["a", "b", "c", "n", "z"], n, stem="-", prefix=["-b"])
    for pre in ([], ["run"]):
        p += cats("root", ["v", "q", "a", "b", "c", "n", "h"], n, stem="-", prefix=pre)
    p += cats("alias", ["a", "b", "c", "x", "y", "z"], n + 1, stem="-")
    p += cats("grp", ["a", "b", "c", "d", "n", "z"], n + 1, stem="-")
    p += cats("grp", ["a", "b", "c", "d", "n"], n, stem="-", suffix=["5"])
    for cfg in range(4):
        p += cats("en", ["a", "b", "c"], n, stem="-", cfg=cfg)
        p += cats("en", ["a", "b", "c"], n, stem="-", cfg=cfg, suffix=["-c", "-b"])
    p += seq("asc", ["-a", "-ab", "-cc", "-ccb", "--count", "--abc", "-n", "-an", "v", "-s=v"], 6 if deep else 5)
    p += seq("pos", ["-a", "-ab", "-cc", "-c", "--count", "-cn", "v"], 6 if deep else 5)
    p += seq("cnt2", ["-e", "-bd", "-nn", "-v", "-vv", "--verbose=green", "--verbose=x", "--cee", "-evb", "-vvv"], 4)
    p += cats("cnt2", ["e", "b", "d", "n", "v"], n, stem="-")
    p += lines("cnt2", [["-" + c * k] for c in "edbn" for k in (3, 64, 100, 126, 127)])
    p += seq("cnt", ["-i", "-iu", "-ss", "--cii", "--cll", "-lusi"], 7 if deep else 6)
    # counts along a length axis, over all spellings
    for k in [*range(1, 70), 100, 127, 128, 129, 200, 255, 256, 257, 300]:
        p += lines("asc", [["-" + "c" * k], ["-a" + "c" * k + "b"], ["--count"] * k, ["-c"] * k, ["--count", "-" + "c" * k, "-c"]])
        p += lines("mb", [["-" + "🙂" * k], ["-" + "x🙂" * k], ["-é" + "x" * k]])
        p += lines("cnt", [["-" + "iuls" * k], ["-s"] * k + ["-" + "u" * k]])
    # known finding: an undeclared remainder reaches a positional without its prefix
    p += pairs("pos", [(["-az"], ["-a", "-z"])])
    return simple("C04", trees(), p)
