"""Scalars are parsed exactly or rejected."""

NOTE = ("Every string up to 5-6 characters over an alphabet of digits, signs, points, exponents, spaces and letters for each of 8 integer and 2 "
        "floating types, every decimal text within 40 of each type's limits with sign, zero and junk decorations, every single byte and pair of "
        "bytes for characters, all concatenations of boolean words, and all lists of 4 such tokens, each compared with an independent "
        "arbitrary-precision/strtod oracle. Longer texts only along selected axes.")
from core import *
from dsl import *

INTS = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i": (-2**31, 2**31 - 1),
        "u": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
SCAL = list(INTS) + ["f", "d", "b", "c", "s", "sv", "gp"]


def trees():
    t = []
    t.append(Tree("ints", mode(*[arg(x, "--" + x * 2) for x in INTS], id="A")))
    t.append(Tree("oths", mode(*[arg(x, "--" + x * 2) for x in SCAL if x not in INTS], id="A")))
    t.append(Tree("opts", mode(*[arg("o<%s>" % x, "--" + x * 2) for x in ("i8", "u", "i64", "d", "b", "c", "s", "gp")], id="A")))
    for i, ts in enumerate((("i8", "u8", "i16", "u"), ("i64", "f", "d", "b"), ("c", "s", "sv", "gp"))):
        t.append(Tree("list%d" % i, mode(*[marg("v<%s>" % x, "--" + x * 2, cnt=(2, 2)) for x in ts[:3]], pos("v<%s>" % ts[3], "rest"), id="A")))
    t.append(Tree("lopt", mode(marg("v<o<i>>", "--aa", cnt=(2, 2)), pos("v<o<s>>", "rest"), id="A")))
    t.append(Tree("poss", mode(pos("u8", "a", cnt=(1, 1)), pos("d", "b", cnt=(1, 1)), pos("b", "c", cnt=(1, 1)), id="A")))
    t.append(Tree("sep", mode(arg("i", "--ii", sep="="), arg("u", "--uu", sep=":"), arg("d", "--dd", sep="="), arg("c", "--cc", sep="="), arg("b", "--bb", sep="="), id="A")))
    t.append(Tree("root", arg("i16", "--ii", id="I"), arg("b", "--bb", id="B"), pos("u", "num", cnt=(1, 1), id="N")) if False else
             Tree("root", arg("i16", "--ii", id="I"), arg("b", "--bb", id="B"), arg("f", "--ff", id="F"), arg("gp", "--gg", id="G")))
    t.append(Tree("cust", mode(arg("i", "--len", custom=True), arg("en", "--col", custom=True), pos("en", "rest", cnt=(1, 1), custom=True), id="A")))
    t.append(Tree("grp", mode(oneof(arg("i8", "--aa"), arg("d", "--bb"), arg("s", "--cc"), default=Val("std::int8_t(1)", "var0/i8:1")),
                              agroup(arg("u16", "--dd"), arg("u16", "--ee", sep="="), default=V("u16", 1)), id="A")))
    t.append(Tree("ali", mode(arg("i", "--aa"), arg("u", "--bb"), arg("b", "--cc"), arg("s", "--al", alias=["--aa", "--bb", "--cc"]), id="A")))
    t.append(Tree("more", mode("xx", arg("en", "--col", custom=True, default=V("en", 1)), marg("v<fp>", "--ps", "-p", cnt=(3, 3), default=V("v<fp>", ["a/b"])), marg("ls<s>", "--ls"), id="X"),
                  mode(marg("dq<i8>", "--aa", cnt=(2, 2)), marg("ls<o<u>>", "--bb", cnt=(2, 2)), arg("fp", "--path", sep="="), arg("o<fp>", "--op"), pos("dq<fp>", "rest"), id="A")))
    t.append(Tree("prefer", mode(arg("gp", "--gg"), arg("gp", "--cc", custom=True), marg("v<gp>", "--mm", cnt=(2, 2)), pos("gp", "PP", cnt=(1, 1), custom=True), id="A")))
    return t


def near(lo, hi, d):
    out = set()
    for b in (lo, hi, 0, 10**(len(str(hi)) - 1), hi + 1, 2 * hi + 2, lo * 10, hi * 10, 2**64, 2**65, 10**19, 10**25):
        for k in range(-20 - 20 * d, 21 + 20 * d):
            out.add(b + k)
    if hi < 70000:
        out |= set(range(-min(70000, -4 * lo + 300), min(70000, hi * 4) + 1, 1 if hi < 300 else 1 if d else 7))
    return sorted(out)


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    for ty, (lo, hi) in INTS.items():
        o = "--" + ty * 2
        p += cats("ints", ["0", "1", "9", "2", "-", "+", " ", "x", "."], 5 + d, prefix=[o])
        ls = []
        for v in near(lo, hi, d):
            s = str(v)
            ls.append([o, s])
            if len(ls) < 4000 or abs(v - hi) < 22 or abs(v - lo) < 22:
                neg = s.startswith("-")
                body = s.lstrip("-")
                for x in ("+" + s, "-" + s, "00" + s, s + " ", " " + s, s + ".0", s + "e0", s + "u", "0x" + body, s[:-1], s + "0",
                          ("-" if neg else "") + "000000000000000000000000000000" + body, ("-" if neg else "+") + "0" + body,
                          body[:-3] + "," + body[-3:], s + "\t", s + "L"):
                    ls.append([o, x])
        p += lines("ints", ls)
        p += lines("ints", [[o, "0" * k + str(hi)] for k in range(0, 80)] + [[o, "1" * k] for k in range(0, 80)] + [[o, "-" + "0" * k] for k in range(0, 40)])
        p += lines("ints", [[o, bytes([b])] for b in range(1, 256)] + [[o, b"1" + bytes([b])] for b in range(1, 256)] + [[o, bytes([b]) + b"1"] for b in range(1, 256)])
    fl = ["0", "1", ".", "-", "+", "e", "5", "x", " "]
    for ty in ("f", "d"):
        o = "--" + ty * 2
        p += cats("oths", fl, 6 if not d else 7, prefix=[o])
        p += cats("oths", ["i", "n", "f", "a", "I", "N", "-", "+", "t", "y", "("], 4 + d, prefix=[o])
        p += cats("oths", ["inf", "infinity", "nan", "NaN", "INF", "Infinity", "-", "+", " ", "1", "(", ")", "x"], 3 + d, prefix=[o])
        p += cats("oths", ["0x", "0X", "1", "a", "p", ".", "-", "8"], 5, prefix=[o])
        ls = []
        for m in ("1", "9.9999999999999999", "1.7976931348623157", "1.7976931348623159", "3.4028234", "3.4028236", "3.40282356", "4.9", "2.4", "1.1754944", "0.1", "123456789.123456789", "0"):
            for e in list(range(-330, -300)) + list(range(-50, -35)) + list(range(-4, 5)) + list(range(34, 42)) + list(range(300, 312)) + [400, 999, 9999, -9999]:
                for s in ("", "-", "+"):
                    for E in ("e", "E"):
                        ls.append([o, "%s%s%s%d" % (s, m, E, e)])
            ls.append([o, m])
        for k in range(1, 60):
            ls += [[o, "1" * k], [o, "." + "3" * k], [o, "0" * k + ".5"], [o, "1." + "0" * k + "1"], [o, "1e" + "0" * k + "5"]]
        p += lines("oths", ls)
    bw = ["true", "false", "yes", "no", "on", "off", "enable", "disable", "y", "n", "1", "0", "t", "T", "e", " ", "d", "True", "ON", "s"]
    p += cats("oths", bw, 3 + d, prefix=["--bb"])
    p += cats("oths", list("trueysonfabldi10"), 4 + d, prefix=["--bb"])
    by = [bytes([b]) for b in range(1, 256)]
    p += lines("oths", [["--cc", a] for a in by] + [["--cc", a + b] for a in by[::3 if not d else 1] for b in by[::5 if not d else 1]] + [["--cc", ""]])
    weird = ["", "a", " ", "-", "--", "=", "\u00e9", "\U0001F600", "e\u0301", b"\xff", b"\xc3", "\t", "0", "\\", "\"", "--ss", "%"]
    for o in ("--ss", "--svsv", "--gpgp"):
        p += cats("oths", [w for w in weird if w] + ["!"], 3 + d, prefix=[o])
        p += lines("oths", [[o, "x" * k] for k in list(range(0, 70)) + [127, 128, 255, 256, 1000, 4095, 4096, 5000]])
    ov = {"i8": ["127", "128", "-", "", "x", "-128"], "u": ["4294967295", "4294967296", "-1", "-0", " 1"], "i64": [str(-2**63), str(2**63), "1.0"],
          "d": ["1.5", "1e999", "e", "inf"], "b": ["yes", "YES", "10"], "c": ["x", "xy", "\u00e9"], "s": ["", "a b", "none"], "gp": ["a", "!", ""]}
    p += seq("opts", [["--" + k * 2, v] for k, vs in ov.items() for v in vs], 2 + d)
    toks = {"list0": ["0", "-1", "127", "128", "255", "256", "65536", "4294967296", "x", "", "1 "], "list1": ["1", "-1", "0.5", "1e39", "1e999", "true", "x", str(2**63), ""],
            "list2": ["a", "", "!", "ab", "\u00e9", "--", "0"]}
    for tr, ts in toks.items():
        names = {"list0": ["--i8i8", "--u8u8", "--i16i16"], "list1": ["--i64i64", "--ff", "--dd"], "list2": ["--cc", "--ss", "--svsv"]}[tr]
        for n in names:
            p += seq(tr, [[x] for x in ts], 4, prefix=[n])
        p += seq(tr, [[x] for x in ts], 4 + d)
    p += seq("lopt", ["--aa", "1", "x", "-5", [""], "99999999999"], 6 + d)
    p += seq("poss", ["1", "256", "-1", "0.5", "x", "1e400", "on", [""], "On"], 4 + d)
    for o in ("--ii=", "--uu:", "--dd=", "--cc=", "--bb="):
        p += cats("sep", ["0", "1", "9", "-", "+", " ", ".", "e", "=", "y", "x", ":"], 4 + d, stem=o)
    for o in ("--ii", "--bb", "--ff", "--gg"):
        p += cats("root", ["0", "1", "9", "-", "3276", ".", "e", "on", "!", " "], 4 + d, prefix=[o])
    p += cats("cust", ["red", "green", "a", "\u00e9", " ", "-"], 4 + d, prefix=["--len"])
    p += cats("cust", ["red", "green", "a", "blue", " "], 3, prefix=["--col"])
    p += cats("cust", ["red", "green", "a", "blue", " "], 3)
    p += seq("grp", ["--aa 127", "--aa 128", "--bb .5", "--bb x", "--cc 300", "--dd 65535", "--dd 65536", "--ee=-1", "--ee=7"], 3 + d)
    p += cats("ali", ["0", "1", "-", "+", "4294967295", " "], 3 + d, prefix=["--al"])
    p += seq("more", ["xx", "--aa 1 127", "--aa 1 128", "--bb 1", "--bb 2 3", "--bb 2 -3", "--bb x x", "--ls a b", "--path=a/b", "--path=.", ["--path="], "--op a//b/", "../c", "/", "--col red blue", "--col x", "--ps a b/ c", "-p c"], 3 + d)
    for n in ("--gg", "--cc", "--mm"):
        p += cats("prefer", ["a", "!", "?", " ", "\u00e9"], 4 + d, prefix=[n])
    p += cats("prefer", ["a", "!", "?", " ", "\u00e9"], 4 + d)
    return simple("C14", trees(), p)
