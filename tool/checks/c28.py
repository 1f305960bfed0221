"""Configured prefixes replace the default ones everywhere."""
from core import *
import dsl
from dsl import *

TECHNIQUE = "explicit enumeration of bounded command-line sequences under every prefix pair of a set, each prediction of a model in which the prefixes are parameters replayed on the compiled tree"
NOTE = ("Per prefix pair (quick: equal one-character, disjoint, two multi-byte ones with common first bytes, nested multi-byte; thorough: nine pairs, among them the default, equal and nested "
        "multi-code-point ones): all command lines of up to 3 (4) argument groups on five trees with every named node kind, separators, aliases, dependencies, groups, modes, messages and bounds, "
        "every token of up to 4 (5) fragments of both prefixes, their bytes, the default prefixes and names, and all help forms. With equal prefixes short options are not collapsed. "
        "Pairs where the short prefix begins with the long one are excluded, and so are separators that occur in a prefix. Not permitted pairs must be rejected by the compiler.")

# name -> (long, short)
PAIRS = {"equal": ("/", "/"), "disjoint": ("--", "+"), "bytes": ("\u2014", "\u2013"), "nested": ("-\u00fc", "-"), "mbequal": ("\u00e9", "\u00e9"),
         "default": ("--", "-"), "colons": ("::", ":"), "cluster": ("e\u0301", "e"), "family": ("\U0001F468\u200d\U0001F469\u200d\U0001F467>", "\U0001F468\u200d\U0001F469"), "three": ("---", "-")}
NOT_PERMITTED = [("--", "--"), ("", "-"), ("--", ""), ("", ""), ("--", "-+"), ("\u00e9", "e\u0301-")]


def trees():
    t = []
    t.append(Tree("mix", help_("--help", "-h", id="H", desc="Help"), flag("--ver", "-V", id="V"), arg("s", "--rot", sep="=", id="R"),
                  mode("one", flag("--foo", "-f", desc="A flag"), flag("-a"), count("--cnt", "-c", maxv=V("i", 3), default=V("i", 0)), arg("i", "--num", "-n", default=V("i", 7), minv=V("i", -3), desc="A number"), id="O"),
                  mode("two", mode("sub", flag("--foo", "-f"), marg("v<i>", "--ll", "-l", cnt=(2, 3)), id="S")),
                  mode(arg("s", "--foo", "-f", sep="=", default=V("s", "d")), flag("-g"), flag("-\u00e9"), arg("i", "-n", default=V("i", 1)), pos("v<s>", "REST", cnt=(0, 4)), id="A")))
    t.append(Tree("rel", mode(arg("i", "--aa", "-a", default=V("i", 1)), arg("i", "--bb", dep=["--aa"], default=V("i", 2)), arg("i", "--al", "-l", alias=["--aa", "-c"]), arg("i", "-c", default=V("i", 3)),
                              flag("-d", dep=["-c", "--bb"]), oneof(flag("--oa", "-o"), arg("i", "--ob"), default=Val("2", "var1/i:2")), agroup(arg("i", "--ga", sep="="), arg("i", "-y"), default=V("i", 4)),
                              flag("-q", alias=["-r", "-s"]), flag("-r"), flag("-s"), id="A")))
    t.append(with_messages(Tree("msg", mode(arg("s", "--long", "-e", required=True), marg("v<s>", "--list", "-t", endm=";"), arg("u", "--sep", sep="=", maxv=V("u", 9), default=V("u", 1)), arg("u", "-u", sep="=", default=V("u", 1)), flag("-x"), id="A")),
                           [(0, "nope {}"), (1, "too many {, }"), (2, "twice {}"), (101, "need {}"), (3, "bad {}! {}"), (9, "hm {} -> {/}"), (108, "sep {}")]))
    t.append(Tree("fw", help_("--help", id="H", flatten=True), mode("mm", flag("--ff", "-f"), count("--gg", "-g", maxv=V("i", 5), default=V("i", 0)), fwd("--", cnt=(0, 3)), id="M"), mode(flag("--ff", "-f"), flag("-g"), pos("v<s>", "PP", endm="--", cnt=(0, 2)), pos("v<i>", "QQ"), id="A")))
    t.append(Tree("en", help_("-?", id="H"), mode(flag("--foo", "-f", en=0), flag("-g", en=1), arg("s", "--str", sep="=", default=V("s", "d"), en=1), arg("i", "-i", en=0, en_req=V("i", 9)), id="A")))
    return t


AL = {"mix": ["--help", "-h", "-V", "--rot=x", "one", "two sub", "--foo", "-f", "-fa", "-acf", "-a", "-cc", "--num -2", "-n 9", "--ll 1 2", "-l 1 2 3", "--foo=x", "-f=y=z", "-g", "-\u00e9", "-g\u00e9", "-x", "--fo", "x"],
      "rel": ["--aa 1", "-a 2", "--bb 3", "--al 4", "-l 5", "-c 6", "-d", "--oa", "-o", "--ob 7", "--ga=8", "-y 9", "-q", "-rs", "-s", "--zz", "-z"],
      "msg": ["--long x", "-e y", "--list a b", "-t c", ";", "--sep=3", "--sep=10", "--sep", "-u=4", "-u", "-x", "-xx", "-xz", "1", "--lonh", "-w"],
      "fw": ["mm", "--ff", "-f", "-fg", "-ggg", "--gg", "\0--", "-g", "x", "3", "-3", "--help", "--help mm", "--help --gg", "\0-3"],
      "en": ["--foo", "-f", "-fg", "-g", "--str=x", "--str", "-i 3", "-?", "-? --str", "-? -g", "--fo", "-j"]}


def rename(tok, pair):
    """a token written with the default prefixes; \\0 in front keeps it"""
    if tok.startswith("\0"):
        return tok[1:]
    if tok.startswith("--"):
        return pair[0] + tok[2:]
    if tok.startswith("-") and len(tok) > 1 and not tok[1].isdigit():
        return pair[1] + tok[1:]
    return tok


def near(x):
    """texts that share all but the last byte with a prefix, all but the first, and the prefix cut short"""
    b = x.encode()
    return [b[:-1] + bytes([b[-1] ^ 1]), bytes([b[0] ^ 1]) + b[1:], b[:-1] or b + b, b[:1] + "\u00e9".encode()[1:]]


def plan_for(pair, d):
    p = []
    lp, sp = pair
    for tr, al in AL.items():
        al = [" ".join(rename(x, pair) for x in a.split(" ")) for a in al]
        if pair != ("--", "-"):
            al += ["--foo", "-f"] if tr != "fw" else ["--ff", "-f"]
        al = list(dict.fromkeys(al + [lp, sp]))
        for cfg in range(4) if tr == "en" else (0,):
            for cols in (0, 50):
                p += helps(tr, cfg=cfg, cols=cols)
            p += seq(tr, al, 3 + d, cfg=cfg)
    frags = list(dict.fromkeys([lp, sp, "-", "f", "foo", "g", "=", "x"]))
    p += cats("mix", frags, 4 + d)
    p += cats("mix", frags, 3 + d, suffix=["x"])
    odd = list(dict.fromkeys(near(lp) + near(sp)))
    p += cats("mix", odd + [lp, sp, "f", "foo", "=", "g"], 3 + d)
    p += cats("fw", odd + [lp, sp, "f", "ff"], 3 + d)
    p += cats("mix", [x for x in frags if x != "x"] + ["num", "c", "a"], 3 + d, prefix=["one"])
    p += cats("rel", list(dict.fromkeys([lp, sp, "-", "aa", "a", "c", "ga", "=", "d"])), 4, suffix=["1"])
    p += cats("fw", list(dict.fromkeys([lp, sp, "-", "ff", "f", "g", "gg", " "])), 4 + d, prefix=["mm"])
    p += cats("fw", list(dict.fromkeys([lp, sp, "-", "ff", "f", "g", "gg", " "])), 4)
    p += cats("fw", list(dict.fromkeys([lp, sp, "-", "gg", "g", "help", "mm"])), 4, prefix=[lp + "help"])
    return p


def main():
    c = Check("C28")
    d = 0 if c.quick else 1
    jobs = []
    for nm, pair in PAIRS.items():
        if not d and nm not in ("equal", "disjoint", "bytes", "nested"):
            continue
        defs = ['AR_LONG_PREFIX="%s"' % pair[0], 'AR_SHORT_PREFIX="%s"' % pair[1]]
        jobs.append((Build(c, nm, trees(), defines=defs), plan_for(pair, d)))
    # pairs the documentation does not permit
    with pool() as ex:
        f = []
        for i, pair in enumerate(list(PAIRS.values()) + NOT_PERMITTED):
            src = os.path.join(c.dir, "p%d.cpp" % i)
            with open(src, "w") as o:
                o.write("#include <arg_router/config.hpp>\n")
            f.append((ex.submit(sh, [CXX, "-std=c++20"] + BASE + ['-DAR_LONG_PREFIX="%s"' % pair[0], '-DAR_SHORT_PREFIX="%s"' % pair[1], "-fsyntax-only", src]), pair, i < len(PAIRS)))
        for r, pair, good in f:
            r = r.result()
            c.traces += 1
            c.states += 1
            c.transitions += 1
            if (r.returncode == 0) != good:
                c.violation("pair/%s/%s" % pair, "the prefixes '%s' and '%s' are %s: %s" % (pair[0], pair[1], "refused" if good else "accepted", errors_of(r.stderr) if good else ""))
    for (b, p), ok in zip(jobs, build_all(jobs)):
        if ok:
            b.run(p)
    return c.finish()
