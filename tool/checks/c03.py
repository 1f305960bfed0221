"""Order of named arguments does not change the result."""

NOTE = ("For every set of up to 5-6 named argument groups (9-13 available per tree, repeats and errors included) all permutations are run on the real "
        "code and compared with the first one, with and without positional tokens between them; all orders of 2-5 policies on 9 node kinds and "
        "13 (thorough: 120) declaration orders are compiled and compared with the model.")
import itertools
from core import *
from dsl import *


def perms(xs):
    return list(itertools.permutations(xs))


def kid(k):
    return {"f": lambda: flag("--foo", "-f"), "c": lambda: count("--cnt", "-c"), "a": lambda: arg("i", "--num", "-n", default=V("i", -1), minv=V("i", -5)),
            "g": lambda: arg("s", "--str", "-s", sep="="), "m": lambda: marg("v<s>", "--list", cnt=(2, 2)),
            "o": lambda: oneof(flag("--of"), arg("i", "--oi"), default=Val("2", "var1/i:2"))}[k]()


def ordered(perm):
    return lambda ps: [ps[i] for i in perm]


def trees(d):
    t = []
    t.append(Tree("big", mode(flag("--foo", "-f"), flag("-g"), count("--cnt", "-c"), arg("i", "--num", "-n", default=V("i", 7), minv=V("i", 0)), arg("s", "--str", "-s", sep="="),
                              marg("v<s>", "--list", cnt=(2, 2)), oneof(flag("--of"), arg("i", "--oi"), default=Val("1", "var1/i:1")), agroup(arg("u", "--ga"), arg("u", "--gb"), default=V("u", 2)),
                              arg("i", "--al", alias=["--am"]), arg("i", "--am"), arg("d", "--req", required=True), pos("s", "P", cnt=(1, 1)), pos("i", "Q", cnt=(1, 1)), id="A")))
    t.append(Tree("tail", mode(flag("--foo", "-f"), count("-c"), arg("i", "--num"), pos("v<s>", "rest"), id="A")))
    t.append(Tree("named", mode("run", flag("--foo", "-f"), count("-c"), arg("i", "--num"), arg("s", "--st", sep=":"), id="R", ) , mode(flag("--foo", "-f"), arg("s", "--num"), count("-c"), id="A")))
    t.append(Tree("fwd", mode(flag("--foo", "-f"), arg("i", "--num"), count("-c"), fwd("--"), id="A")))
    # declaration order
    sets = perms("fcagm") if d else perms("fcag")[::2] + [tuple("gacf")]
    for i, o in enumerate(sets):
        t.append(Tree("decl%d" % i, mode(*[kid(k) for k in o], pos("s", "P", cnt=(1, 1)), id="A")))
    # policy order: one node per permutation
    ns = []
    for i, pm in enumerate(perms(range(4))):
        ns.append(arg("i", "--a%d" % i, desc="text", default=V("i", i), minv=V("i", -1), order=ordered(pm)))
    t.append(Tree("pola", mode(*ns, id="A")))
    ns = []
    for i, pm in enumerate(perms(range(4))):
        ns.append(arg("s", "--s%d" % i, "-" + chr(97 + i), sep="=", required=True, order=ordered(pm)))
    t.append(Tree("pols", mode(*ns, id="A")))
    ns = []
    for i, pm in enumerate(perms(range(3))):
        ns += [flag("--f%d" % i, "-" + chr(97 + i), desc="text", order=ordered(pm)), count("--c%d" % i, "-" + chr(103 + i), maxv=V("i", 3), order=ordered(pm)),
               marg("v<i>", "--m%d" % i, cnt=(2, 2), default=V("v<i>", [i]), order=ordered(pm))]
    for i, pm in enumerate(perms(range(3))):
        ns.append(pos("i", "P%d" % i, cnt=(1, 1), default=V("i", i), order=ordered(pm)))
    t.append(Tree("polf", mode(*ns, id="A")))
    ns = [arg("i", "--tt"), flag("-t")]
    for i, pm in enumerate(perms(range(3))):
        ns += [arg("i", "--x%d" % i, "-" + chr(97 + i), alias=["--y%d" % i], order=ordered(pm)), arg("i", "--y%d" % i, dep=["--tt"], default=V("i", i), order=ordered(pm))]
    t.append(Tree("pold", mode(*ns, id="A")))
    # value separator + alias + dependency + runtime switch on one node
    ns = [arg("i", "--tt"), arg("i", "--uu")]
    for i, pm in enumerate(perms(range(4))[:: 1 if d else 2]):
        ns.append(arg("i", "--e%d" % i, sep="=", dep=["--tt"], en=0, order=ordered(pm)))
    t.append(Tree("pole", mode(*ns, id="A")))
    # lists with marker, counts, requirement, names
    for j, pm in enumerate(perms(range(4))[::5] if not d else perms(range(4))):
        t.append(Tree("polm%d" % j, mode(flag("-f"), marg("v<s>", "--list", "-l", cnt=(1, 2), endm=";", order=ordered(pm)), pos("v<s>", "rest", endm="--", cnt=(1, 2), required=True, order=ordered(pm)), id="A")))
    keep = [x for x in perms(range(4)) if x.index(2) < x.index(3)]
    # groups and modes: policies before, between and after the children, routers first and last
    for j, pm in enumerate(keep[::3] if not d else keep):
        t.append(Tree("polg%d" % j, help_("--help", "-h", id="H", order=ordered(perms(range(3))[j % 6])),
                      mode("run", agroup(arg("i", "--aa"), arg("i", "--bb"), disp="Group", default=V("i", 1), order_all=ordered(pm)), order_all=lambda ps, j=j: ps[j % 3:] + ps[:j % 3], id="R"),
                      mode(oneof(arg("i", "--cc"), flag("--dd"), disp="Other", required=True, order_all=ordered(pm)), flag("-f"), order_all=lambda ps, j=j: ps[1:1 + j % 3] + ps[:1] + ps[1 + j % 3:], id="A")))
    return t


def permuted(tr, groups, lo, hi, tail=((),), front=(), mix=False, cfg=0):
    ps = []
    gs = [g.split(" ") if isinstance(g, str) else g for g in groups]
    for k in range(lo, hi + 1):
        for c in itertools.combinations_with_replacement(range(len(gs)), k):
            if any(c.count(x) > 2 for x in set(c)):
                continue
            alls = sorted(set(perms(c)))
            for tl in tail:
                base = list(front) + sum([gs[i] for i in alls[0]], []) + list(tl)
                for o in alls[1:]:
                    ps.append((list(front) + sum([gs[i] for i in o], []) + list(tl), base))
                    if mix and tl:
                        # positional tokens at other places
                        for cut in range(len(o)):
                            ps.append((list(front) + sum([gs[i] for i in o[:cut]], []) + list(tl)[:1] + sum([gs[i] for i in o[cut:]], []) + list(tl)[1:], base))
    return pairs(tr, ps, mode="class", cfg=cfg)


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    g = ["--foo", "-f", "-gc", "-c", "--num 3", "-n 4", "--str=a", "--list x y", "--of", "--oi 5", "--ga 6", "--gb 7", "--al 8", "--req 1.5"]
    p += permuted("big", g, 2, 3 + d, tail=((), ("p", "2")), mix=True)
    p += permuted("big", ["--foo", "-gc", "--num 3", "--str=a", "--list x y", "--oi 5", "--gb 7", "--al 8", "--req 1.5"], 4, 5 + d)
    p += permuted("big", ["-c", "--cnt", "-gc", "-fc", "-cc", "--req 1"], 4, 6)
    p += permuted("big", ["--num -1", "--num x", "--zz", "--req y", "--list x y", "--am 2", "--al 3", "-f", "-fz", "--req 2"], 3, 4)
    p += permuted("tail", ["--foo", "-f", "-c", "-cf", "--num 3", "--num y"], 2, 5, tail=((), ("a",), ("a", "--foo"), ("a", "b", "c")))
    p += permuted("named", ["--foo", "-f", "-c", "-cf", "--num 3", "--num y", "--st:v"], 2, 4 + d, front=("run",))
    p += permuted("named", ["--foo", "-f", "-c", "-cf", "--num 3", "--num y"], 2, 4 + d)
    p += permuted("fwd", ["--foo", "-f", "-c", "-cf", "--num 3", "--num 4"], 2, 5, tail=((), ("--",), ("--", "--foo", "x"), ("--", "-c")))
    n = 120 if d else 13
    for i in range(n):
        p += seq("decl%d" % i, ["--foo", "-f", "-c", "--num 3", "-n -9", "--str=u", "-s=", "P", "-fc"] + (["--list x y"] if d else []), 4)
    p += seq("pola", [["--a%d" % i, str(v)] for i in range(24) for v in (-1, -2, 5)], 2)
    full = ["--s%d=v%d" % (i, i) for i in range(24)]
    p += lines("pols", [full, full[::-1], ["-%s=%d" % (chr(97 + i), i) for i in range(24)]] + [full[:i] + full[i + 1:] for i in range(24)] +
               [full[:i] + ["--s%d" % i, "x"] + full[i + 1:] for i in range(24)] + [full[:i] + ["-%s=" % chr(97 + i)] + full[i + 1:] for i in range(24)])
    p += seq("polf", ["--f%d" % i for i in range(6)] + ["-" + chr(97 + i) for i in range(6)] + ["--c%d" % i for i in range(6)] + ["-" + chr(103 + i) for i in range(6)] +
             ["--m%d 1 2" % i for i in range(6)] + ["--m%d 1" % i for i in range(6)] + ["7", "x"], 2 + d)
    p += lines("polf", [["--c%d" % i] * k for i in range(6) for k in range(6)] + [["1", "2", "3", "4", "5", "6", "7"][:k] for k in range(8)])
    p += seq("pold", ["--tt 1"] + ["--x%d 5" % i for i in range(6)] + ["-%s 5" % chr(97 + i) for i in range(6)] + ["--y%d 6" % i for i in range(6)], 3)
    for cfg in (0, 1):
        p += seq("pole", ["--tt 1"] + ["--e%d%s" % (i, x) for x in ("=5", "", "=x") for i in range(24 if d else 12)], 2, cfg=cfg)
    for j in range(24 if d else 5):
        p += seq("polm%d" % j, ["-f", "--list", "-l", "a", ";", "--", "b"], 5 + d)
    for j in range(12 if d else 4):
        p += seq("polg%d" % j, ["run", "--aa 1", "--bb 2", "--cc 3", "--dd", "-f", "--help", "-h"], 4)
    return simple("C03", trees(d), p)
