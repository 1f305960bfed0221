"""Required arguments must appear and single arguments appear at most once."""
from core import *
from dsl import *

NOTE = ("Every command line of up to 5 (6-7 thorough) option occurrences over long, short, collapsed, separator and alias spellings, for every "
        "required/optional assignment of three or four options plus positionals and groups; the outcome, the option named and the router call "
        "equal the model's. Longer repeats only on the axis up to 64.")


MASKS = range(16) if TIER == "thorough" else (0, 1, 2, 4, 8, 15, 5, 10, 14)


def trees():
    t = []
    for m in MASKS:
        r = lambda i: bool(m >> i & 1)
        kw = lambda i, d: dict(required=True) if r(i) else dict(default=d) if (m + i) % 3 else {}
        t.append(Tree("r%d" % m, mode(arg("i", "--aa", "-a", **kw(0, V("i", 1))), flag("--ff", "-f"),
                                      arg("s", "--bb", "-b", sep="=", **kw(1, V("s", "B"))), count("--vv", "-v"),
                                      marg("v<i>", "--cc", "-c", cnt=(2, 2), **kw(2, V("v<i>", [4]))),
                                      arg("i", "--al", "-l", alias=["--aa"]), flag("-g"),
                                      pos("s", "PP", cnt=(1, 1) if r(3) else (0, 1) if False else (1, 1), **kw(3, V("s", "P"))), id="A")))
    t.append(Tree("grp", mode(oneof(flag("--of"), arg("i", "--oi"), required=True), agroup(arg("i", "--ga"), arg("i", "--gb", "-g"), required=True),
                              arg("i", "--aa", required=True), id="A")))
    t.append(Tree("grq", mode(oneof(flag("--of"), arg("i", "--oi"), default=Val("3", "var1/i:3")), agroup(count("--ga"), count("--gb", "-g"), default=V("i", 0)),
                              arg("i", "--aa", required=True), marg("v<s>", "--ll", required=True), id="A")))
    t.append(Tree("en", mode(arg("i", "--aa", "-a", en=0, en_req=True), arg("i", "--bb", en=1, en_req=V("i", 5)), arg("i", "--cc", en=2, default=V("i", 6)),
                             arg("i", "--dd", en=3, default=V("i", 8)), flag("-f", en=4), id="A")))
    t.append(Tree("mod", mode("one", arg("i", "--aa", required=True), mode("sub", arg("i", "--aa", required=True), flag("-f"), id="S"), id="O"),
                  mode("two", arg("i", "--aa"), id="T"), mode(arg("i", "--aa", required=True), arg("i", "--bb", required=True), id="A")))
    t.append(Tree("posr", mode(pos("i", "PP", cnt=(1, 1), required=True), pos("v<i>", "QQ", cnt=(2, 2), required=True), pos("v<i>", "RR", cnt=(1, 3), required=True), id="A")))
    t.append(Tree("fwd", mode(arg("i", "--aa", required=True), fwd("--", required=True), id="A")))
    t.append(Tree("order", mode(*[arg("i", "--" + x + x, required=True) for x in "dbaec"], id="A")))
    return t


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    al = ["--aa 1", "-a 2", "--ff", "-f", "-fg", "--bb=x", "-b=y", "-v", "--cc 1 2", "-c 3 4", "--al 1", "P"]
    for m in MASKS:
        p += seq("r%d" % m, al, 4 + d)
        p += seq("r%d" % m, ["--aa 1", "--ff", "--bb=x", "--cc 1 2", "-l 9", "-v", "P"], 7, minlen=5, distinct=True)
        p += seq("r%d" % m, ["-a 1", "-f", "-gf", "-b=x", "--cc 1 2", "P"], 5 + d)
    # the same value given again, by every spelling and through the alias
    for m in (0, 1, 8):
        p += seq("r%d" % m, ["--aa 4", "-a 4", "--al 4", "-l 4", "-l 5", "--bb=4", "-b=4", "--cc 4 4", "P"], 4 + d)
    p += seq("grp", ["--of", "--oi 3", "--ga 1", "--gb 2", "-g 4", "--aa 5"], 6 + d)
    p += seq("grq", ["--of", "--oi 3", "--ga", "--gb", "-g", "--aa 5", "--ll x"], 6 + d)
    for cfg in range(32):
        p += seq("en", ["--aa 1", "-a 2", "--bb 3", "--cc 4", "--dd 5", "-f"], 4 + d, cfg=cfg)
    p += seq("mod", ["one", "sub", "two", "--aa 1", "--aa 2", "--bb 3", "-f"], 6 + d)
    p += seq("posr", ["1", "2", "x"], 9 + d)
    p += seq("fwd", ["--aa 1", "--", "x"], 7 + d)
    p += seq("order", ["--%s%s %d" % (x, x, i) for i, x in enumerate("abcde")], 5 + d)
    for k in range(1, 65):
        p += lines("r0", [["--ff"] * k, ["-f"] * k, ["--aa", "1"] * k, ["-v"] * k + ["--ff"], ["--ff"] + ["-v"] * k + ["-f"],
                          ["--al", "1"] * k, ["--bb=1"] * k])
    return simple("C07", trees(), p)
