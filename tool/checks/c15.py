"""Help lists every node once, correctly labelled, aligned and wrapped."""

TECHNIQUE = ("exhaustive enumeration of (tree, terminal width, run-time switches, way of asking) over a family of trees, on the real library with a controlled "
             "terminal, every output compared with a reference renderer")
NOTE = ("About 30 trees holding every node kind in every name form, bounds, count notations, groups, nested modes flattened and not, wide, combining and long texts, "
        "all formatter parameters and the coloured form; every terminal width from 0 to beyond the longest line, compile-time and run-time rendering "
        "(the same tree with a node that can be switched off), help() and the stream form and a help argument. Mandatory line breaks inside descriptions are left to C21.")
from core import *
from dsl import *

LONG = ("The quick brown fox jumps over the lazy dog while an unreasonably-hyphenated compound-word and antidisestablishmentarianism_without_breaks "
        "push the text well beyond any terminal, (see note 4.5), 100% of the time.")


def D(i):
    """a description of its own for each node, of varying shape"""
    w = ["short", "with a few words in it", "x", "hyphenated-word and more of them", "number %d of many, which is a longer text than all the others here" % i,
         "supercalifragilisticexpialidocious word", "a b c d e f g h i j k l m n o p q r s t u v w x y z", "two  spaces   three"]
    return "%d %s" % (i, w[i % len(w)])


def leaves():
    """every leaf kind in every name form"""
    i = itertools.count()
    def d():
        return D(next(i))
    var = [marg("v<i>", "-m", cnt=(1, 3), desc=d()), marg("v<s>", "--unb", "-U", desc=d()), marg("v<s>", "--min2", cnt=(2, NMAX), desc=d())]
    out = [flag("--flag", "-f", desc=d()), flag("--long-only", desc=d()), flag("-s", desc=d()), flag("--no-desc"), flag("-z"),
           count("--verbose", "-v", desc=d()), count("-q", maxv=V("i", 5), desc=d()), count("--level", minv=V("i", 1), maxv=V("i", 3), default=V("i", 1), desc=d()), count("-w", minv=V("i", 0), desc=d()),
           arg("i", "--num", "-n", desc=d()), arg("s", "--str", desc=d()), arg("s", "-t", desc=d()), arg("s", "--sep", sep="=", desc=d()), arg("s", "-e", sep=":", desc=d()),
           arg("s", "--both", "-b", sep="=", desc=d()),
           arg("i", "--min", minv=V("i", -3), desc=d(), default=V("i", 0)), arg("i", "--max", maxv=V("i", 100500), desc=d()), arg("u", "--umax", "-u", maxv=V("u", 7), desc=d()), arg("i", "--range", "-r", minv=V("i", -10), maxv=V("i", 10), sep="=", desc=d()),
           arg("i", "--rt-range", minv=V("i", -10), maxv=V("i", 10), ct=False, desc=d()), arg("u8", "--u8", minv=V("u8", 1), maxv=V("u8", 200), desc=d(), default=V("u8", 1)), arg("i64", "--big", minv=V("i64", -2**63), maxv=V("i64", 2**63 - 1), desc=d()),
           arg("i8", "--lo", "-l", minv=V("i8", -128), desc=d(), default=V("i8", 0)), arg("en", "--enum", maxv=V("en", 2), minv=V("en", 0), custom=True, desc=d()), arg("i", "--def", default=V("i", 42), desc=d()), arg("o<i>", "--opt", desc=d()),
           marg("v<i>", "--pair", cnt=(2, 2), desc=d()), marg("v<s>", "--endm", endm=";", desc=d())]
    k = -(-len(out) // len(var))
    return [out[j * k:j * k + k] + [var[j]] for j in range(len(var))]


def tails():
    return [[pos("i", "one", cnt=(1, 1), desc=D(101)), pos("s", "two words", cnt=(1, 1), desc=D(102)), pos("v<i>", "rest", desc=D(103))],
            [pos("v<s>", "exact", cnt=(3, 3), desc=D(104)), pos("v<i>", "some", cnt=(0, 4), desc=D(105))],
            [pos("v<s>", "least", cnt=(2, NMAX), desc=D(106))], [pos("v<s>", "span", cnt=(1, 10))],
            [fwd("--", desc=D(107))], [fwd("--", cnt=(2, 2), desc=D(108))], [fwd("-x", cnt=(1, NMAX))], [fwd("rest", cnt=(0, 3), desc=D(109))]]


def rt(nodes):
    """the same with a node whose presence is decided at run time, which sends help down the run-time path"""
    return [flag("--switch", en=0, desc="Switched")] + nodes


def groups():
    return [oneof(flag("--aa", "-a", desc=D(1)), arg("i", "--bb", desc=D(2), minv=V("i", 1), maxv=V("i", 2)), arg("s", "--cc", sep="=", desc=D(3)), default=Val("1", "var1/i:1")),
            oneof(flag("--dd", desc=D(4)), arg("d", "--ee"), required=True, disp="Chosen"),
            agroup(arg("i", "--ff"), arg("i", "--gg", desc=D(5)), minv=V("i", 1), maxv=V("i", 9), default=V("i", 1), disp="Bounded"),
            agroup(arg("s", "--hh", "-h", desc=D(6)), arg("s", "--ii"), arg("s", "-j", desc=D(7)), required=True),
            agroup(count("--kk", "-k", desc=D(8)), count("-l"), arg("i", "--mm"), default=V("i", 0)),
            oneof(flag("--nn", desc=D(9)), required=True) if False else flag("--nn", desc=D(9))]


def nested(sw):
    e = dict(en=1) if sw else {}
    return [flag("--top", desc=D(0)),
            mode("run", flag("--foo", "-f", desc=D(1)), arg("i", "--num", minv=V("i", 1), default=V("i", 1), desc=D(2), id="") if False else arg("i", "--num", desc=D(2)),
                 mode("sub", flag("--a-rather-long-name-in-a-nested-mode", desc=D(3)), mode("deep", marg("v<i>", "--list", "-l", desc=D(4)), id="D", desc=D(5)), id="S", desc=D(6), **e),
                 mode("other", flag("-o"), oneof(flag("--xx", desc=D(7)), arg("i", "--yy"), required=True), id="O"), id="R", desc=D(8)),
            mode("bare", flag("--only"), id="B"),
            mode("stop", flag("--now", desc=D(9), **(dict(en=2) if sw else {})), id="T", desc=D(10), **(dict(en=3) if sw else {})),
            mode(flag("--any", "-y", desc=D(11)), count("-v", desc=D(12)), pos("v<s>", "files", desc=D(13)), id="A")]


def wide():
    return [flag("--\u65e5\u672c\u8a9e", "-\u65e5", desc="\u65e5\u672c\u8a9e\u306e\u8aac\u660e\u6587 with \u6df7\u305c\u305f words \u5168\u89d2\u6587\u5b57"),
            flag("--e\u0301t\u00e9", "-e\u0301", desc="le\u0301gende combine\u0301e d'un e\u0301le\u0301ment assez long"),
            arg("s", "--\U0001f600\U0001f600", desc="grin \U0001f600\U0001f600\U0001f600 faces \U0001f468\u200d\U0001f469\u200d\U0001f467 family"),
            arg("i", "--gr\u00f6\u00dfe", sep="=", minv=V("i", 1), maxv=V("i", 9), default=V("i", 1), desc="Gr\u00f6\u00dfe in Pixeln\u2014mit Gedankenstrich"),
            count("-\u00fc", desc="no\u00a0break\u00a0spaces here"), pos("v<s>", "\u6a94\u6848", desc="\u6a94\u6848 files")]


# (indent, least description columns, coloured)
FORMATS = [(4, None, True), (1, 1, False), (2, 8, False), (8, 4, False), (3, 20, False), (2, None, False), (1, 1, True), (2, 5, True), (7, 30, False)]

FMT = """namespace fc = arp::help_formatter_component;
struct pre { template <typename H> void format(std::ostream& s) { s << "%s\\n\\n"; } };
struct add { template <typename H> void format(std::ostream& s) { s << "\\n%s\\n"; } };
"""


def rooted(nodes, **hk):
    """nodes in an unnamed mode next to a help node"""
    top = [n for n in nodes if n.k == "mode"]
    if top:
        for n in nodes:
            if n.k != "mode":
                n.id = n.id or "X" + (n.lng or n.sht)
    return [help_("--help", "-H", id="HELP", **hk)] + (nodes if top else [mode(*nodes, id="M")])


def trees():
    t, switched = [], {}

    def T(name, nodes, bits=(), **hk):
        pre = hk.pop("pre", "")
        t.append(Tree(name, *rooted(nodes, **hk), pre=pre))
        switched[name] = 1 << len(bits)

    deep = TIER == "thorough"
    docs = dict(desc="Shows this help and exits", pname="prog", pver="v1.2", pintro="An introduction which is never wrapped, however narrow the terminal is.", padd="The end.\nReally.")
    for i, (x, y) in enumerate(zip(leaves(), leaves())):
        if i != 1 or deep:
            T("leaf%d" % i, x, desc="Help")
        if i == 1 or deep:
            T("leafr%d" % i, rt(y), bits=(0,), flatten=i == 0)
    for i, x in enumerate(tails()):
        if i in (0, 1, 4, 7) or deep:
            T("tail%d" % i, [flag("--foo", desc=D(3))] + x, **(docs if i == 0 else {}))
        if i in (0, 2, 3, 5, 6) or deep:
            T("tailr%d" % i, rt([flag("--foo", desc=D(3))] + x), bits=(0,), pname="only-a-name")
    g = groups()
    T("grp", g[0::2], padd="Only an addendum")
    T("grpr", rt(g[1::2]), bits=(0,), pver="1.0", pname="pp")
    if deep:
        T("grpx", groups())
        T("grpxr", rt(groups()), bits=(0,))
    for fl in (False, True):
        if deep or not fl:
            T("nest%d" % fl, nested(False), flatten=fl, desc=D(77))
        if deep or fl:
            T("nestr%d" % fl, nested(True), bits=(1, 2, 3, 0), flatten=fl, desc=D(77))
    T("wide", wide(), pname="\u65e5\u672c", pver="\u7248\u4e00")
    T("wider", rt(wide()), bits=(0,))
    T("widec", wide()[0::2] + [flag("--longer-than-these", desc=LONG)], colour=True)
    T("widerc", rt(wide()[0::2] + wide()[1:2] + [flag("--longer-than-these", desc=LONG)]), bits=(0,), colour=True)
    # labels that decide the description column in turn, with and without a description
    T("cols", [flag("--ab", desc=LONG), flag("--the-longest-label-of-all"), mode("mm", flag("-x", desc=LONG), id="C")], flatten=True)
    # the deepest label decides the column
    def chain(n):
        return [mode("m%d" % n, flag("--%s" % ("x" * 3 * n), desc=D(n)), *(chain(n + 1) if n < 5 else []), id="C%d" % n)] if n < 5 else [mode("m5", flag("-z"), flag("--%s" % ("y" * 20), desc=LONG), id="C5")]
    T("deep", chain(1), flatten=True)
    T("deepr", rt(chain(2)), bits=(0,), flatten=True)
    T("long", [flag("--ab", desc=LONG), arg("s", "--bb", "-b", desc=LONG + " " + LONG), pos("v<s>", "p", desc="y" * 60)], **docs)
    T("longr", rt([flag("--ab", desc=LONG), arg("s", "--bb", "-b", desc=LONG + " " + LONG), pos("v<s>", "p", desc="y" * 60)]), bits=(0,), **docs)
    body = lambda: [flag("--foo", "-f", desc=D(4)), arg("i", "--num", "-n", desc=D(6)), oneof(flag("--xx", desc=D(1)), arg("i", "--yyy", desc=D(4)), required=True)]
    for k, (ind, off, col) in enumerate(FORMATS):
        if not deep and k in (5, 8):
            continue
        run = k % 2 == 1
        if col and not deep:
            run = ind == 1
        T("fmt%d" % k, rt(body()) if run else body(), bits=(0,) if run else (), indent=ind, off=off, colour=col, flatten=k % 3 == 0, **(docs if k % 3 == 1 else {}))
        if deep:
            T("fmtx%d" % k, nested(True), bits=(1, 2, 3, 0), indent=ind, off=off, colour=col, flatten=k % 3 != 0, **docs)
    T("colr", rt(body()), bits=(0,), colour=True)
    K = "ar::traits::integral_constant<std::size_t{%d}>"
    T("own", body(), indent=2, off=6, fmt=("arp::default_help_formatter_t<%s, %s, fc::default_line_formatter<2>, pre, add>{}" % (K % 2, K % 6), "PRE", "ADD"), pre=FMT % ("PRE", "ADD"))
    T("ownr", rt(body()), bits=(0,), indent=3, off=6, fmt=("arp::colour_help_formatter_t<%s, %s, pre, add>{}" % (K % 3, K % 6), "Vor", "Nach"), pre=FMT % ("Vor", "Nach"))
    return t, switched


def main():
    deep = TIER == "thorough"
    t, sw = trees()
    p = []
    for tr in t:
        n = tr.id
        ws = list(range(0, 131)) + [150, 181, 200, 250, 300, 400, 1000] if not deep else list(range(0, 420)) + [1000, 10000]
        cfgs = range(16) if n.startswith(("nestr", "fmtx")) else range(2) if sw[n] > 1 else (0,)
        for cfg in cfgs:
            for cols in ws if cfg in (0, 1) or deep else ws[::7]:
                p += helps(n, cfg=cfg, cols=cols)
            paths = [["--help"], ["-H"]]
            if n.startswith(("nest", "fmtx")):
                paths += [["--help"] + x for x in (["run"], ["run", "sub"], ["run", "sub", "deep"], ["stop"], ["bare"], ["run", "other"], ["--top"], ["run", "--foo"], ["run", "sub", "deep", "--list"])]
            for cols in (0, 40, 61, 80, 120) if not deep else ws[::5]:
                p += lines(n, paths, cfg=cfg, cols=cols)
    return simple("C15", t, p)
