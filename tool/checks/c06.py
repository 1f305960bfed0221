"""Value tokens are partitioned over options and positionals by their counts."""
from core import *
from dsl import *

NOTE = ("Every command line of up to 6-7 tokens (8-9 thorough) over values, markers and option names, on a family of trees holding every "
        "combination of counts 0..3 for fixed and variable lists, with and without end markers, for multi-value options, positionals and "
        "forwarding arguments, plus lists of up to 300 values; outcomes equal the model's partition, including the error and the consumer it "
        "names. Counts above 3 are covered on the length axes only.")


def trees(deep):
    t = []
    plans = []
    d = 1 if deep else 0
    # one multi-value option: every count window, with and without marker, followed by positionals
    for lo in (1, 2, 3):
        for hi in (1, 2, 3, 4, NMAX):
            if hi < lo or (lo == 1 and hi == 1):
                continue
            nm = "m%d%s" % (lo, "n" if hi == NMAX else hi)
            if lo == hi:
                t.append(Tree(nm, mode(flag("--foo", "-f"), marg("v<s>", "--many", "-m", cnt=(lo, hi)), pos("s", "one", cnt=(1, 1)),
                                       pos("v<s>", "rest"), id="A")))
            else:
                t.append(Tree(nm, mode(flag("--foo", "-f"), marg("v<s>", "--many", "-m", cnt=(lo, hi)), id="A")))
                t.append(Tree(nm + "e", mode(flag("--foo", "-f"), marg("v<s>", "--many", "-m", cnt=(lo, hi), endm="::"),
                                             pos("s", "one", cnt=(1, 1)), pos("v<s>", "rest"), id="A")))
                plans += seq(nm + "e", ["--many", "-m", "a", "b", "::", "--foo"], 6 + d)
            plans += seq(nm, ["--many", "-m", "a", "b", "--foo"], 6 + d)
    # positional chains: fixed counts then a final window
    for i, (a, b) in enumerate([(1, None), (2, None), (1, 1), (1, 2), (2, 1), (3, 1)]):
        for j, (lo, hi) in enumerate([(0, NMAX), (0, 1), (0, 2), (1, 2), (2, 3), (2, 2), (1, NMAX), (3, NMAX)]):
            if not deep and (i + j) % 2 and i not in (0, 3):
                continue
            ch = [flag("--foo", "-f"), pos("s" if a == 1 else "v<s>", "first", cnt=(a, a))]
            if b:
                ch.append(pos("i" if b == 1 else "v<i>", "second", cnt=(b, b)))
            ch.append(pos("v<sv>", "third", cnt=(lo, hi)))
            nm = "p%d%d" % (i, j)
            t.append(Tree(nm, mode(*ch, id="A")))
            plans += seq(nm, ["--foo", "1", "x", "2"], 7 + d)
    # several markers, markers that look like names, values equal to other lists' markers
    t.append(Tree("mk2", mode(flag("--foo", "-f"), marg("v<s>", "--aa", endm="end"), marg("v<s>", "--bb", cnt=(1, 2), endm="--foo"),
                              pos("v<s>", "pp", cnt=(1, 3), endm=";"), pos("v<s>", "qq", endm="."), pos("v<s>", "rr"), id="A")))
    plans += seq("mk2", ["--aa", "--bb", "v", "end", "--foo", ";", "."], 6 + d)
    plans += seq("mk2", [";", ".", "v", "w", "--foo"], 8 + d)
    plans += seq("mk2", ["--aa", "v", "end", "--bb", "v", "--foo"], 9, minlen=6, distinct=True)
    t.append(Tree("fw", mode(flag("--foo", "-f"), arg("i", "--num"), fwd("--"), id="A")))
    t.append(Tree("fwc", mode(flag("--foo", "-f"), marg("v<s>", "--mm", cnt=(2, 2)), fwd("::", cnt=(2, 2)), arg("i", "--num"), id="A")))
    t.append(Tree("fwe", mode(flag("--foo", "-f"), fwd("::", cnt=(1, 3), endm="end"), marg("v<s>", "--mm"), id="A")))
    t.append(Tree("fwx", mode(flag("--foo", "-f"), fwd("xargs", endm="--"), pos("v<s>", "rest", cnt=(1, 2)), id="A")))
    plans += seq("fw", ["--foo", "--num", "3", "--", "x"], 6 + d)
    plans += seq("fwc", ["--foo", "--mm", "a", "::", "--num", "1"], 6 + d)
    plans += seq("fwe", ["--foo", "::", "end", "a", "--mm"], 7 + d)
    plans += seq("fwx", ["-f", "xargs", "--", "a", "--foo"], 7 + d)
    # single values never swallow more, options as values
    t.append(Tree("arg", mode(arg("s", "--aa", "-a"), arg("s", "--bb", "-b"), marg("v<s>", "--cc", "-c", cnt=(2, 2)), flag("--dd", "-d"), id="A")))
    plans += seq("arg", ["--aa", "-b", "-c", "--dd", "v"], 7 + d)
    # named modes partition separately; positionals in the anonymous mode
    t.append(Tree("mod", mode("one", flag("--foo"), pos("s", "pp", cnt=(1, 1)), pos("v<s>", "qq", cnt=(0, 1)), id="M"),
                  mode("two", marg("v<s>", "--ll", cnt=(1, 2)), id="N"), mode(pos("v<s>", "rest", cnt=(1, 2)), id="A")))
    plans += seq("mod", ["one", "two", "--foo", "--ll", "x"], 6 + d)
    # required and default lists
    t.append(Tree("req", mode(flag("--foo"), marg("v<i>", "--aa", cnt=(1, 2), endm=";", required=True), pos("v<i>", "pp", cnt=(1, 2), required=True), id="A")))
    t.append(Tree("dfl", mode(flag("--foo"), marg("v<i>", "--aa", cnt=(1, 2), endm=";", default=V("v<i>", [1, 2, 3])),
                              pos("v<i>", "pp", cnt=(0, 2), default=V("v<i>", [7])), id="A")))
    for x in ("req", "dfl"):
        plans += seq(x, ["--foo", "--aa", "1", ";", "2"], 7 + d)
    # length axes
    for n in sorted(set([*range(0, 34), *range(60, 68), *range(126, 131), 200, 255, 256, 257, 300])):
        v = ["%d" % i for i in range(n)]
        plans += lines("m1ne", [["--many"] + v + ["::"] + v, v + ["--many"] + v, ["-f"] + v])
        plans += lines("m2n", [["--many"] + v, ["-f", "--many"] + v + ["-f"]])
        plans += lines("fw", [["--foo", "--"] + v + ["--"] + v])
        plans += lines("p30", [v])
        plans += lines("mk2", [["--aa"] + v + ["end", "--bb"] + v, v + [";"] + v + ["."] + v])
    return t, plans


def main():
    t, p = trees(TIER == "thorough")
    return simple("C06", t, p)
