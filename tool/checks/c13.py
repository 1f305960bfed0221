"""Value bounds are inclusive and enforced on every value and default."""

NOTE = ("For every integer type, enums, counting flags, doubles, strings, custom orderings, and bounds of another type than the value or held in variables, compile-time and run-time bounds, one- and "
        "two-sided: every value of a window around each bound, the type's own extremes, all counts up to the maximum + 3 in every spelling "
        "mix, and all sequences of bounded options up to 4; defaults at, inside and outside the bounds. Bounds on multi-element lists are "
        "not covered.")
from core import *
from dsl import *

R = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i": (-2**31, 2**31 - 1),
     "u": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
BIG = (2**31 - 3, 2**31 + 3)


def bounds(t):
    lo, hi = R[t]
    s = lo < 0
    out = [(2, 9, 5), (3, None, 4), (None, 7, 0), (4, 4, 4), (lo, hi, 0), (None, hi, 1), (hi, None, hi), (None, lo, lo)]
    if s:
        out += [(-9, -3, -4), (-5, None, 0), (None, -2, -2), (-1, 1, 0), (lo, lo + 2, lo)]
    if t in ("u", "i64", "u64"):
        out += [(*BIG, BIG[0])]
    if t in ("i64", "u64"):
        out += [(2**32 + 1, 2**53 + 1, 2**33), (2**62, None, 2**62)]
    return out


ORD = [("aa", "i", 3, 8, "rev"), ("bb", "i", None, 8, "rev"), ("cc", "d", 0, 2, "rev"), ("dd", "s", "c", "m", "rev"), ("ee", "s", "ab", "abcd", "len"),
       ("ff", "s", "ab", "b", None), ("gg", "s", "k", None, None), ("hh", "s", None, "k", None), ("ii", "d", 0.5, 1.5, None),
       ("jj", "d", None, -0.25, None), ("kk", "f", 0.1, None, None)]


# option, value type, bound type, bounds, default
MIXED = [("m0", "i", "u", 1, 3, 2), ("m1", "i", "u", 1, None, 1), ("m2", "i", "u", None, 2**32 - 1, 0), ("m3", "i", "u64", 2, 2**63, 5), ("m4", "i64", "u", 0, 4, 0), ("m5", "u", "i", -1, 4, 0),
         ("m6", "u", "i", -5, None, 0), ("m7", "u64", "i8", -1, 5, 3), ("m8", "u8", "i", -3, 300, 1), ("m9", "i8", "i", -200, 100, 1), ("n0", "i", "i64", -2**40, 4, 0), ("n1", "i", "i8", -3, 3, 0), ("n2", "u16", "u64", 2, 2**40, 2),
         ("n3", "d", "i", 0, 3, 1.0), ("n4", "d", "u", 1, 3, 1.0), ("n5", "f", "i", -2, 2, 1.0), ("n6", "i", "d", 0.5, 3.5, 2), ("n7", "u", "d", -0.5, 2.5, 2), ("n8", "i64", "d", -1.5, 1.5, 0), ("n9", "d", "f", 0.5, 1.5, 1.0)]


def trees():
    t = []
    for ty in R:
        for ct in (True, False):
            ns = []
            for i, (lo, hi, d) in enumerate(bounds(ty)):
                ns.append(arg(ty, "--x%d" % i, minv=None if lo is None else V(ty, lo), maxv=None if hi is None else V(ty, hi), default=V(ty, d), ct=ct))
            t.append(Tree("%s_%s" % (ty, "ct" if ct else "rt"), mode(*ns, id="A")))
    ns = []
    for n, ty, lo, hi, c in ORD:
        if c == "rev":
            lo, hi = (hi, lo) if (lo is not None and hi is not None) else (lo, hi)
        d = {"aa": 5, "bb": 9, "cc": 1.0, "dd": "f", "ee": "xyz", "ff": "ac", "gg": "k", "hh": "a", "ii": 1.0, "jj": -1.0, "kk": 1.0}[n]
        ns.append(arg(ty, "--" + n, minv=None if lo is None else V(ty, lo), maxv=None if hi is None else V(ty, hi), default=V(ty, d), ct=False, cmp=c))
    t.append(Tree("ord", mode(*ns, id="A")))
    # values without or with a bad default, required ones
    t.append(Tree("dflt", mode(arg("i", "--aa", minv=V("i", -3), maxv=V("i", 3)), arg("i", "--bb", minv=V("i", 2), maxv=V("i", 9)),
                               arg("i", "--cc", maxv=V("i", 4), default=V("i", 5)), arg("d", "--dd", minv=V("d", 0.5), ct=False, default=V("d", 0.25)), id="A")))
    t.append(Tree("req", mode(arg("i", "--aa", "-a", minv=V("i", 2), maxv=V("i", 6), required=True), arg("u", "--bb", maxv=V("u", 3), sep="="),
                              pos("i", "PP", cnt=(1, 1), minv=V("i", -1), maxv=V("i", 5), required=True), id="A")))
    t.append(Tree("posd", mode(arg("i", "--aa", minv=V("i", 0), err="AAA"), pos("i", "PP", cnt=(1, 1), minv=V("i", 2), maxv=V("i", 5), default=V("i", 2), ct=False), id="A")))
    # counting flags
    for j, (lo, hi) in enumerate(((None, 3), (2, None), (1, 4), (2, 2), (None, 0), (0, 2))):
        for ct in (True, False):
            k = dict(minv=None if lo is None else V("i", lo), maxv=None if hi is None else V("i", hi), ct=ct)
            t.append(Tree("cnt%d%s" % (j, "c" if ct else "r"), mode(count("--vv", "-v", default=V("i", lo if lo is not None else 0), **k), flag("-f"), id="A")))
    t.append(Tree("cnte", mode(count("--vv", "-v", type="en", maxv=V("en", 3), default=V("en", 1)), count("-w", type="u16", minv=V("u16", 2), maxv=V("u16", 5), default=V("u16", 3)),
                               count("-x", minv=V("i", 2), err="XX"), flag("-f"), id="A")))
    t.append(Tree("cntd", mode(count("-v", minv=V("i", 2)), count("-w", maxv=V("i", 3), default=V("i", 4)), id="A")))
    # groups
    t.append(Tree("grp", mode(agroup(arg("i", "--aa", "-a"), arg("i", "--bb", sep="="), minv=V("i", 2), maxv=V("i", 5), default=V("i", 3)),
                              agroup(count("-v", "--vv"), count("-w"), maxv=V("i", 3), default=V("i", 1)), flag("-f"), id="A")))
    t.append(Tree("readme", mode(agroup(count("-v", type="en"), arg("en", "--verbose", sep="=", custom=True), maxv=V("en", 3), default=V("en", 1)), flag("-f"), id="A")))
    t.append(Tree("grpd", mode(agroup(arg("i", "--aa"), arg("i", "--bb"), maxv=V("i", 5), default=V("i", 9)), flag("-f"), id="A")))
    t.append(Tree("inner", mode(agroup(arg("i", "--aa", maxv=V("i", 4)), arg("i", "--bb", minv=V("i", 2)), default=V("i", 7)),
                                oneof(arg("i", "--cc", minv=V("i", 3)), arg("s", "--dd", minv=V("s", "b"), ct=False), default=Val("1", "var0/i:1")), id="A")))
    # through an alias, at the root, in named modes, conditionally present, custom parsed
    t.append(Tree("ali", mode(arg("i", "--aa", minv=V("i", 2), maxv=V("i", 6), default=V("i", 3)), arg("i64", "--bb", maxv=V("i64", 5), ct=False),
                              arg("s", "--al", "-l", alias=["--aa", "--bb"]), id="A")))
    t.append(Tree("roots", arg("i", "--aa", minv=V("i", 2), id="RA"), arg("d", "--bb", maxv=V("d", 0.5), ct=False, id="RB"),
                  mode("one", arg("i", "--cc", minv=V("i", 2), maxv=V("i", 4), default=V("i", 2)), id="O"), mode(arg("i", "--cc", maxv=V("i", 9)), id="A")))
    t.append(Tree("en", mode(arg("i", "--aa", minv=V("i", 2), maxv=V("i", 5), en=0, default=V("i", 3)), arg("i", "--bb", minv=V("i", 2), maxv=V("i", 5), en=1, en_req=V("i", 4)),
                             arg("i", "--cc", maxv=V("i", 5), en=2, en_req=V("i", 8)), id="A")))
    t.append(Tree("cust", mode(arg("en", "--col", custom=True, minv=V("en", 2), maxv=V("en", 3), default=V("en", 2)),
                               arg("i", "--len", custom=True, minv=V("i", 2), maxv=V("i", 4), default=V("i", 2)), id="A")))
    # bounds of another type than the value, and given as variables
    for ct in (True, False):
        ns = [arg(ty, "--" + n, minv=None if lo is None else V(bt, lo), maxv=None if hi is None else V(bt, hi), default=V(ty, d), ct=ct and bt not in "df")
              for n, ty, bt, lo, hi, d in MIXED if not ct or bt not in "df"]
        t.append(Tree("mix" + "rc"[ct], mode(*ns, count("-v", type="u8", maxv=V("i", 3), ct=ct, default=V("u8", 0)), count("-w", type="i", minv=V("u", 2), ct=ct, default=V("i", 2)), id="A")))
    t.append(Tree("vars", mode(arg("i", "--aa", minv=Val("lo", "i:2"), maxv=Val("hi", "i:6"), ct=False, default=V("i", 3)), arg("i", "--bb", minv=Val("lo", "i:2"), maxv=Val("5", "i:5"), ct=False, default=V("i", 3)),
                               arg("s", "--cc", minv=Val("slo", "s:b"), ct=False, default=V("s", "c")), arg("d", "--dd", maxv=Val("hi", "i:6"), ct=False, default=V("d", 1.0)),
                               arg("s", "--ee", extra=["arp::max_value(slo, by_size)"], maxv=None, default=V("s", "x")), id="A"),
                  pre="static int lo = 2; static const int hi = 6; static const std::string slo = \"b\"; static const auto by_size = [](const std::string&, const std::string&) { return false; };"))
    t.append(Tree("opt", mode(arg("o<i>", "--aa", minv=V("i", 2), maxv=V("i", 6), default=V("o<i>", 3)), id="A")))
    return t


def window(ty, d):
    lo, hi = R[ty]
    s = set()
    for b in bounds(ty):
        for x in b[:2]:
            if x is not None:
                s |= {x + k for k in range(-3 - 2 * d, 4 + 2 * d)}
    s |= {0, 1, -1, 12, -12, lo, lo + 1, hi, hi - 1, lo - 1, hi + 1}
    if ty in ("i8", "u8", "i16"):
        s |= set(range(max(lo, -300), min(hi, 300) + 1))
    if d:
        s |= set(range(max(lo, -2000), min(hi, 2000) + 1))
    return sorted(s)


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    for ty in R:
        w = window(ty, d)
        for k in ("ct", "rt"):
            tr = "%s_%s" % (ty, k)
            n = len(bounds(ty))
            for i in range(n):
                p += lines(tr, [["--x%d" % i, str(v)] for v in w])
            for i in range(n):
                p += lines(tr, [["--x%d" % i, str(a), "--x%d" % j, str(b)] for j in range(n) if j != i for a in (1, 4, 10) for b in (1, 4, 10)])
    txt = ["", "a", "b", "c", "d", "j", "k", "l", "m", "n", "ab", "abc", "abcd", "abcde", "aa", "ac", "ba", "z", "ka", "k0", "K", "\u00e9", "ab\u00e9"]
    dbl = ["0", "1", "2", "0.5", "1.5", "0.49999999999999994", "0.50000000000000011", "0.5000000001", "1.5000000001", "1.4999999", "-0.25", "-0.2499999", "-0.2500001", "-1e300", "1e300",
           "2.0000000000000004", "0.1", "0.09999999", "0.10000001", "-0", "-1", "3", "1e-320"]
    ints = [str(i) for i in range(-2, 13)]
    for n, ty, *_ in ORD:
        p += lines("ord", [["--" + n, v] for v in (ints if ty == "i" else dbl if ty in "df" else txt)])
    p += seq("ord", ["--aa 3", "--aa 9", "--bb 7", "--bb 8", "--cc 2", "--cc 3", "--dd b", "--dd c", "--ee a", "--ee ab", "--ff b", "--ff ba"], 4 + d)
    p += seq("dflt", ["--aa -3", "--aa 4", "--bb 2", "--bb 1", "--cc 4", "--cc 5", "--dd 0.5", "--dd 0.4"], 5 + d)
    p += seq("req", ["--aa 2", "-a 1", "-a 7", "--bb=3", "--bb=4", "-1", "5", "6", "0"], 4 + d)
    p += seq("posd", ["--aa 0", "--aa -1", "1", "2", "5", "6"], 4 + d)
    for j in range(6):
        for c in "cr":
            p += seq("cnt%d%s" % (j, c), ["-v", "--vv", "-vv", "-fv", "-f"], 6 + d)
    p += seq("cnte", ["-v", "--vv", "-w", "-x", "-vwx", "-f"], 7 + d)
    p += seq("cntd", ["-v", "-w", "-vw"], 8)
    p += seq("grp", ["--aa 1", "--aa 2", "-a 5", "--bb=6", "--bb=5", "-v", "-w", "-vv", "-f"], 5 + d)
    p += seq("readme", ["-v", "-vv", "-fv", "--verbose=red", "--verbose=blue", "--verbose=other", "-f"], 5 + d)
    p += seq("grpd", ["--aa 5", "--aa 6", "--bb 5", "--bb 6", "-f"], 4)
    p += seq("inner", ["--aa 4", "--aa 5", "--bb 1", "--bb 2", "--cc 2", "--cc 3", "--dd a", "--dd b"], 4 + d)
    p += seq("ali", ["--aa 2", "--aa 1", "--bb 5", "--bb 6", "--al 5", "--al 6", "-l 1", "-l 2", "-l 7"], 4 + d)
    p += seq("roots", ["--aa 1", "--aa 2", "--bb 0.5", "--bb 0.6", "one", "--cc 1", "--cc 2", "--cc 4", "--cc 5", "--cc 9", "--cc 10"], 4 + d)
    for cfg in range(8):
        p += seq("en", ["--aa 1", "--aa 2", "--aa 5", "--bb 6", "--bb 2", "--cc 5", "--cc 6"], 4 + d, cfg=cfg)
    p += seq("cust", ["--col red", "--col green", "--col blue", "--col other", "--len a", "--len ab", "--len abcd", "--len abcde"], 4 + d)
    p += lines("opt", [["--aa", str(i)] for i in range(-3, 12)] + [[]])
    num = sorted({b + k for b in (0, 2, 4, 100, 127, 255, 300, -128, 2**15, 2**16, 2**31, 2**32, 2**40, 2**63, -2**31, -2**40, -2**63) for k in range(-6, 7)})
    frac = ["-2.1", "-2", "-1.9", "-1", "-0.9", "-0.5", "-0.25", "-0", "0.4", "0.5", "0.9", "1", "1.5", "1.6", "1.9", "2.1", "2.5", "2.9", "3", "3.0000001", "3.5", "3.9", "4", "1e30", "-1e30"]
    for tr in ("mixc", "mixr"):
        for n, ty, bt, *_ in MIXED:
            if tr == "mixr" or bt not in "df":
                p += lines(tr, [["--" + n, v] for v in ([str(x) for x in num] if ty not in "df" else []) + frac])
        p += seq(tr, ["-v", "-w", "-vw", "-vvv", "--m0 -1", "--m0 1", "--m6 5", "--n1 3"], 4 + d)
    p += seq("vars", ["--aa 1", "--aa 2", "--aa 6", "--aa 7", "--bb 1", "--bb 5", "--bb 6", "--cc a", "--cc b", "--dd 6", "--dd 6.5", "--ee abc"], 3 + d)
    return simple("C13", trees(), p)
