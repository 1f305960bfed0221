"""An alias behaves as the options it stands for."""
import itertools
from core import *
from dsl import *

NOTE = ("Every command line of up to 4-5 (5-6 thorough) groups with alias occurrences is run next to its expansion and both are compared with "
        "each other and with the model, on trees with aliased flags, counting flags, single values, fixed-count lists, chained aliases, "
        "aliases with separators, into groups, and in named modes. Expansion is compared up to the error's wording, since errors quote "
        "the token typed.")


def trees():
    t = []
    t.append(Tree("flags", mode(flag("--foo", "-f"), flag("--bar", "-b"), count("--vv", "-v"), flag("--both", "-B", alias=["--foo", "--bar"]),
                                flag("--one", alias=["-f"]), flag("--loud", "-l", alias=["-v"]), flag("--mix", "-m", alias=["--vv", "--bar"]), id="A")))
    t.append(Tree("vals", mode(arg("i", "--aa", "-a"), arg("s", "--bb", "-b", default=V("s", "B")), arg("i", "--cc", "-c", minv=V("i", 0), maxv=V("i", 9)),
                               arg("i", "--ab", alias=["--aa", "--bb"]), arg("i", "--all", "-x", alias=["-a", "-b", "-c"]), arg("i", "--ca", alias=["--cc"]),
                               flag("--ff"), pos("v<s>", "rest"), id="A")))
    t.append(Tree("chain", mode(flag("--aa", "-a"), flag("--bb", "-b"), flag("--cc", "-c"), count("--vv", "-v"),
                                flag("--x1", alias=["--aa"]), flag("--x2", alias=["--x1", "--bb"]), flag("--x3", alias=["--x2", "--cc"]),
                                flag("--x4", alias=["--vv"]), flag("--x5", alias=["--x4", "--aa"]), id="A")))
    t.append(Tree("lists", mode(marg("v<s>", "--aa", "-a", cnt=(2, 2)), marg("v<i>", "--bb", cnt=(2, 2)), marg("v<s>", "--ab", "-x", cnt=(2, 2), alias=["--aa", "--bb"]),
                                marg("v<s>", "--a2", cnt=(2, 2), alias=["--aa"]), flag("-f"), pos("v<s>", "rest", cnt=(0, 3)), id="A")))
    t.append(Tree("seps", mode(arg("s", "--aa", "-a", sep="="), arg("s", "--bb"), arg("s", "--ab", sep=":", alias=["--aa", "--bb"]),
                               arg("s", "--ac", alias=["--aa"]), flag("-f"), id="A")))
    t.append(Tree("grp", mode(oneof(flag("--oa"), arg("i", "--ob"), default=Val("4", "var1/i:4")), agroup(arg("i", "--ga"), arg("i", "--gb"), default=V("i", 0)),
                              flag("--xo", alias=["--oa"]), arg("i", "--xb", alias=["--ob"]), arg("i", "--xg", alias=["--ga"]),
                              arg("i", "--xh", alias=["--ob", "--gb"]), flag("-f"), id="A")))
    t.append(Tree("modes", mode("one", flag("--foo", "-f"), arg("i", "--num"), flag("--al", alias=["--foo"]), arg("i", "--an", alias=["--num"]), id="O"),
                  mode("two", flag("--foo", "-f"), count("--num"), flag("--al", alias=["--num"]), id="T"),
                  mode(flag("--foo"), flag("--al", alias=["--foo"]), id="A")))
    t.append(Tree("req", mode(arg("i", "--aa", required=True), arg("i", "--bb", required=True), arg("i", "--ab", alias=["--aa", "--bb"]),
                              flag("--ff"), flag("--gg", dep=["--aa"]), flag("--hh", alias=["--ff"], dep=["--bb"]), id="A")))
    # aliases declared before their targets; the order of sub-targets
    t.append(Tree("before", mode(arg("i", "--ba", alias=["--bb", "--aa"]), flag("-x", alias=["-f"]), arg("i", "--aa"), arg("i", "--bb"), count("-f"), id="A")))
    return t


# tree -> groups: text -> expansion
GROUPS = {
    "flags": {"--foo": None, "-b": None, "-v": None, "--both": "--foo --bar", "-B": "-f -b", "--one": "-f", "-l": "-v", "--mix": "--vv --bar",
              "-lv": "-v -v", "-lB": "-v -f -b", "-vl": "-v -v", "-vv": None},
    "vals": {"--aa 1": None, "-b x": None, "--cc 4": None, "--ab 2": "--aa 2 --bb 2", "--ab x": "--aa x --bb x", "-x 3": "-a 3 -b 3 -c 3",
             "--all 12": "--aa 12 --bb 12 --cc 12", "--ca 5": "--cc 5", "--ff": None, "r": None},
    "chain": {"--aa": None, "-b": None, "-c": None, "-v": None, "--x1": "--aa", "--x2": "--aa --bb", "--x3": "--aa --bb --cc", "--x4": "--vv",
              "--x5": "--vv --aa"},
    "lists": {"--aa p q": None, "--bb 1 2": None, "--ab 3 4": "--aa 3 4 --bb 3 4", "-x 5 y": "--aa 5 y --bb 5 y", "--a2 r s": "--aa r s", "-f": None, "z": None},
    "seps": {"--aa=1": None, "--bb 2": None, "--ab:3": "--aa=3 --bb 3", "--ab:x:=y": "--aa=x:=y --bb x:=y", "--ac 4": "--aa=4", "-f": None},
    "grp": {"--oa": None, "--ob 1": None, "--ga 2": None, "--gb 3": None, "--xo": "--oa", "--xb 5": "--ob 5", "--xg 6": "--ga 6", "--xh 7": "--ob 7 --gb 7", "-f": None},
    "modes": {"one": None, "two": None, "--foo": None, "--num 1": None, "--an 2": None},
    "req": {"--aa 1": None, "--bb 2": None, "--ab 3": "--aa 3 --bb 3", "--ff": None, "--gg": None, "--hh": None},
    "before": {"--ba 1": "--aa 1 --bb 1", "-x": "-f", "--aa 2": None, "--bb 3": None, "-f": None, "-fx": "-f -f"},
}


SAME = {"--loud": "l", "-l": "l", "--both": "B", "-B": "B", "--mix": "m", "--all": "x", "-x": "x", "--ab": "x"}


def repeats(c, g):
    """an alias that is itself a single-use option may be given only once"""
    seen = set()
    for x in c:
        w = x.split("=")[0].split(":")[0].split()[0]
        ns = ["--" + w[2:]] if w.startswith("--") else ["-" + ch for ch in w[1:]]
        for nme in ns:
            nme = SAME.get(nme, nme)
            if nme in seen:
                return True
            if g[x] and nme not in ("-v", "-b", "-f", "-c"):
                seen.add(nme)
    return False


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    for tr, g in GROUPS.items():
        al = list(g)
        p += seq(tr, al + (["--al"] if tr == "modes" else []), (4 if len(al) > 7 else 5) + d)
        n = 4 + d if len(al) <= 7 else 3 + d
        ps = []
        for k in range(1, n + 1):
            for c in itertools.product(al, repeat=k):
                if repeats(c, g):
                    continue
                if any(x in ("r", "z") for x in c[:-1]):
                    continue  # an open-ended positional takes everything after it verbatim
                if any(g[x] for x in c):
                    ps.append(([w for x in c for w in x.split()], [w for x in c for w in (g[x] or x).split()]))
        p += pairs(tr, ps, mode="class")
    for pre, ex in ((["one"], ["--foo"]), (["two"], ["--num"]), ([], ["--foo"])):
        ps = []
        al = [["--al"], ["--foo"], ["--num"], ["1"]]
        for k in range(1, 5):
            for c in itertools.product(al, repeat=k):
                if c.count(["--al"]) == 1:
                    ps.append((pre + sum(c, []), pre + sum((ex if x == ["--al"] else x for x in c), [])))
        p += pairs("modes", ps, mode="class")
    # bad and missing values
    p += seq("vals", ["--ab", "--all", "--ca", "1", "10", "-1", "x", "--ff"], 5 + d)
    p += seq("lists", ["--ab", "-x", "--a2", "1", "2", "-f"], 7 + d)
    for k in range(1, 66):
        p += lines("flags", [["-l"] * k, ["-" + "l" * k], ["-v", "-l"] * k, ["--loud"] * k + ["--mix"]])
        p += lines("chain", [["--x4"] * k, ["--x4", "-v"] * k + ["--x5"]])
    return simple("C08", trees(), p)
