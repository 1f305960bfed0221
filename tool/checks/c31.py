"""A list of nodes behaves as its children written in its place, wherever and however often it is used."""

TECHNIQUE = "exhaustive enumeration of command lines and help requests over trees holding lists (shared, wrapped, empty, at every position) against the reference model of the flattened tree"
NOTE = ("Each tree holds ar::list nodes: namespace-scope constexpr lists and local const lists copied into several modes, at the front, middle and end of a mode, between policies, a list that holds nothing but a list, "
        "empty, of one child, directly under root, and holding every kind of node (flags, options, list options, positionals, forwarding, groups, aliases and dependencies with targets inside and outside "
        "the list, modes, help) and run-time state (defaults, bounds, enables, custom parsers). The model is given the children in place of each list; every command line up to the bound and every help "
        "output must agree with it. One family puts every way of cutting five children into consecutive lists (thorough: six, with wrapped and empty lists) next to the flat tree.")
from core import *
from dsl import *


def common():
    return [flag("--force", "-f", desc="Force"), arg("s", "--level", "-l", default=V("s", "low"), desc="Level")]


COMMON = "ar::list{%s}" % ", ".join(cpp(c) for c in [flag("--force", "-f", desc="Force"), pos("s", "DST", desc="Destination", required=True, cnt=(1, 1))])


def cuts(items, nested):
    """every way of grouping consecutive items into lists (single items may also stand alone)"""
    n = len(items)
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        heads = [[lst(*items[:k])]]
        if k == 1:
            heads.append([items[0]])
        if nested:
            heads.append([lst(lst(*items[:k])), lst()])
        for h in heads:
            for rest in cuts(items[k:], nested):
                yield h + rest


def trees(deep):
    t = []
    dst = [flag("--force", "-f", desc="Force"), pos("s", "DST", desc="Destination", required=True, cnt=(1, 1))]
    # the documentation's example
    t.append(Tree("doc", help_("--help", "-h", id="H", flatten=True, desc="Help"),
                  mode("copy", ref("common", *dst), pos("v<s>", "SRC", required=True, cnt=(1, NMAX)), id="C", desc="Copy"),
                  mode("move", ref("common", *dst), pos("s", "SRC", required=True, cnt=(1, 1)), id="M", desc="Move"), pre="constexpr auto common = %s;" % COMMON))
    # position among the other children and policies, with run-time state in the list
    st = [arg("i", "--num", "-n", default=V("i", 7), minv=V("i", 0), maxv=V("i", 9), ct=False, err="NUM"), arg("s", "--str", "-s", default=V("s", "text"), desc="S"), arg("en", "--col", custom=True, default=V("en", 1))]
    state = "static const auto state = ar::list{%s};" % ", ".join(cpp(c) for c in st)
    t.append(Tree("place", mode("front", ref("state", *st), flag("-x"), arg("u", "--own", default=V("u", 1)), id="F"),
                  mode("mid", flag("-x"), ref("state", *st), arg("u", "--own", default=V("u", 1)), id="M", order_all=lambda p: p[2:4] + p[:2] + p[4:]),
                  mode("end", flag("-x"), arg("u", "--own", default=V("u", 1)), ref("state", *st), id="E"),
                  mode(flag("-x"), ref("state", *st), pos("v<s>", "REST"), id="A"), pre=state))
    # under root, wrapped, empty and single
    inn = [flag("--in", "-i"), arg("i", "--jn", "-j", default=V("i", 1))]
    t.append(Tree("root", lst(help_("--help", "-h", id="H"), flag("--ver", "-V", id="V")), lst(arg("i", "--num", id="N")), lst(lst(flag("-c", id="CC"))), lst(mode("one", lst(lst(lst(*inn))), id="O")), lst(),
                  mode("two", lst(), *[lst(x) for x in (flag("--in"), arg("s", "--jn", "-j", default=V("s", "d")))], id="T"), lst(mode(lst(flag("-a"), flag("-b")), flag("-d"), lst(flag("-e"), pos("v<s>", "P")), id="A"))))
    # aliases and dependencies across the list's edge, groups in and beside lists
    t.append(Tree("rel", mode("one", lst(arg("i", "--aa", "-a", default=V("i", 1)), arg("i", "--al", "-l", alias=["--aa", "--cc"])), arg("i", "--cc", default=V("i", 3)), lst(flag("-d", dep=["--cc"]), flag("-e", dep=["-a"])), id="O"),
                  mode("two", arg("i", "--al", alias=["--aa"]), lst(arg("i", "--aa", default=V("i", 1)), oneof(flag("--oa"), arg("i", "--ob"), default=Val("2", "var1/i:2"))), lst(agroup(arg("i", "--ga", sep=":"), arg("i", "--gb"), default=V("i", 4)), arg("i", "--dp", dep=["--gb"], default=V("i", 6))), id="T"),
                  mode(lst(flag("-x", alias=["-y"]), flag("-z", alias=["-y", "-w"])), lst(lst(flag("-y"))), lst(flag("-w"), flag("-v", dep=["-w"])), id="A")))
    # list options, end markers, forwarding, in lists
    t.append(Tree("vals", mode("one", lst(marg("v<i>", "--mm", "-m", endm=";", default=V("v<i>", [7])), flag("-f")), lst(pos("v<s>", "AA", endm="--", cnt=(0, 2)), pos("s", "BB", cnt=(1, 1))), lst(pos("v<i>", "CC", cnt=(0, 2))), id="O"),
                  mode("two", lst(flag("-f")), lst(arg("s", "--sep", sep="="), fwd("--")), id="T"),
                  mode(flag("-f"), lst(marg("v<s>", "--mm", cnt=(2, 2)), count("-c", "--cnt", default=V("i", 0), maxv=V("i", 3))), lst(pos("v<s>", "REST", cnt=(1, 3))), id="A")))
    # run-time enables: one list, made per tree, used twice
    en = [flag("--foo", "-f", en=0), arg("i", "--bar", "-b", en=1, en_req=V("i", 5)), arg("s", "--baz", default=V("s", "z"), en=2)]
    local = "template <class T> static auto opts(T cfg) { return ar::list{%s}; }" % ", ".join(cpp(c) for c in en)
    t.append(Tree("en", help_("--help", id="H", flatten=True), mode("one", ref("opts(cfg)", *en), flag("-x"), id="O"), mode(flag("-x", en=3), ref("opts(cfg)", *en), pos("v<s>", "P"), id="A"), pre=local))
    # every grouping of a mode's children
    def five():
        xs = [flag("--foo", "-f"), arg("i", "--num", "-n", default=V("i", 2), sep="="), count("-c", default=V("i", 0)), pos("s", "PP", cnt=(1, 1)), pos("v<i>", "QQ", cnt=(0, 2))]
        return xs[:1] + [flag("-x")] + xs[1:] if deep else xs
    for i, g in enumerate(cuts(five(), deep)):
        if not deep or i % 3 == 0:
            t.append(Tree("cut%d" % i, help_("--help", id="H", flatten=True), mode(*g, id="A")))
    return t


AL = {"doc": ["copy", "move", "--force", "-f", "a", "b", "--help", "--forc", "-l"],
      "place": ["front", "mid", "end", "--num 3", "-n 10", "--str a", "-s b", "--col red", "--col x", "-x", "--own 2", "z"],
      "root": ["one", "two", "--in", "-i", "--jn 2", "-j 3", "-ij 4", "-c", "--num 5", "--ver", "--help", "-ab", "-e", "-d", "z"],
      "rel": ["one", "two", "--aa 1", "-a 2", "--al 3", "-l 4", "--cc 5", "-d", "-e", "--oa", "--ob 6", "--ga:7", "--gb 8", "--dp 9", "-x", "-y", "-z", "-v", "-w"],
      "vals": ["one", "two", "--mm", "-m", ";", "1", "2", "-f", "--", "--sep=3", "-c", "--cnt"],
      "en": ["one", "--foo", "-f", "--bar 1", "-b 2", "--baz 3", "-x", "z", "--fo", "--help"]}


def main():
    c_deep = TIER == "thorough"
    d = 1 if c_deep else 0
    ts = trees(c_deep)
    p = []
    for tr, al in AL.items():
        for cfg in range(16) if tr == "en" else (0,):
            p += seq(tr, al, (3 if tr == "en" else 4) + d, cfg=cfg)
            p += helps(tr, cfg=cfg)
    for tr in ts:
        if tr.id.startswith("cut"):
            p += seq(tr.id, ["--foo", "-f", "--num=3", "-n=4", "-c", "-fc", "1", "2", "x"], 4)
            p += helps(tr.id)
    return simple("C31", ts, p)
