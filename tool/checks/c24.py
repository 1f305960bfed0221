"""A tree can be reused: a parse depends only on its own arguments."""

TECHNIQUE = "explicit enumeration of all bounded histories of parse, help, copy, move and re-create events on one compiled tree, against a history-free model"
NOTE = ("On 9 trees that together hold every node kind and stateful-looking policy: every history of up to 3 (thorough 4) events, an event being a command line "
        "(10-16 per tree, accepted, rejected at every stage, help), printing help, copying the tree, moving it, switching between copies, or making a new tree "
        "of the same type with other run-time switches; after each event the outcome must be the history-free model's, the tokens of all command lines lying in the same buffers. Every command line of up to 3 tokens is "
        "also given through all six entry points, and the caller's tokens compared with a copy afterwards. Longer histories only along the axis of one line "
        "repeated up to 64 times.")
from core import *
from dsl import *

H, C, M_, S_ = "\1h", "\1c", "\1m", "\1s"


def trees():
    t = []
    t.append(Tree("kinds", help_("--help", "-h", id="H"), flag("--ver", "-V", id="V"),
                  mode(flag("--foo", "-f", desc="A flag"), count("-v", maxv=V("i", 3), default=V("i", 0)), arg("i", "--num", "-n", default=V("i", 7), minv=V("i", 0)), arg("s", "--str", sep="=", required=True),
                       marg("v<i>", "--two", cnt=(2, 2)), pos("s", "P", cnt=(1, 1)), pos("v<s>", "Q", cnt=(0, 2)), id="A")))
    t.append(Tree("groups", mode(oneof(flag("--aa", "-a"), arg("i", "--ab"), arg("s", "--ac", sep="="), default=Val("42", "var1/i:42")),
                                 agroup(arg("i", "--ba"), arg("i", "--bb", sep=":"), default=V("i", 7)), oneof(flag("--ca"), arg("i", "--cb"), default=Val("2", "var1/i:2")), flag("-x"), id="A")))
    t.append(Tree("cnts", mode(agroup(count("--aa", "-a"), count("--bb", "-b"), default=V("i", 5)), count("-v"), flag("-x", alias=["-v", "-w"]), count("-w"), id="A")))
    t.append(Tree("rel", mode(arg("i", "--aa", "-a", default=V("i", 1)), arg("i", "--bb", dep=["--aa"], default=V("i", 2)), arg("i", "--al", alias=["--aa", "--cc"]), arg("i", "--cc", "-c", default=V("i", 3)),
                              flag("-d", dep=["-c", "--bb"]), id="A")))
    t.append(Tree("modes", help_("--help", "-h", id="H"), flag("--ver", id="V"), mode("one", flag("--foo", "-f"), oneof(flag("--aa"), arg("i", "--bb"), default=Val("1", "var1/i:1")), id="O"),
                  mode("two", mode("sub", flag("--foo", "-f"), oneof(flag("--aa"), arg("i", "--bb"), default=Val("2", "var1/i:2")), id="S")),
                  mode(arg("s", "--foo", "-f"), oneof(flag("--aa"), arg("i", "--bb"), required=True), id="A")))
    t.append(Tree("mark", mode(flag("-f"), marg("v<s>", "--list", "-l", endm=";"), pos("v<i>", "N", endm="--", cnt=(0, 3)), pos("v<s>", "rest"), id="A")))
    t.append(Tree("en", help_("--help", id="H"), mode(flag("--foo", "-f", en=0), arg("s", "--str", sep="=", default=V("s", "d"), en=1), oneof(flag("--aa", en=1), arg("i", "--bb", en=0), default=Val("1", "var1/i:1")),
                                 arg("i", "--rq", en=0, en_req=V("i", 9)), arg("i", "--rb", "-r", default=V("i", 3), minv=V("i", 1), ct=False), id="A")))
    t.append(Tree("types", mode(arg("o<i>", "--oo"), arg("d", "--dd"), arg("en", "--ee", custom=True), arg("gp", "--gp"), arg("sv", "--sv"), arg("c", "--cc"), marg("v<s>", "--ll"), id="A")))
    tr = Tree("msgs", mode(flag("-f"), arg("i", "--num", required=True), oneof(flag("--aa"), arg("i", "--bb"), default=Val("1", "var1/i:1")), pos("v<s>", "R", cnt=(0, 1)), id="A"))
    t.append(with_messages(tr, [(0, "nope {}"), (1, "too many {, }"), (2, "twice {}"), (101, "need {}"), (3, "bad {}!")]))
    return t


AL = {"kinds": ["", "--str=a p", "-f -v --str=b p q", "--num 3 --str=a p q r", "-vvv -n 1 --str=c p", "-vvvv --str=a p", "--two 1 2 --str=x p", "--two 1", "--str= p", "-f -f", "--zz", "--help", "-h --foo", "-V", "--num -1 --str=a p", "-fvV"],
      "groups": ["", "--aa", "-a -x", "--ab 3", "--ac=z", "--aa --ab 1", "--ab 1 --ac=z", "--ba 1", "--bb:2", "--ba 1 --bb:2", "--ca", "--cb 4", "--ca --cb 4", "--aa --ba 3 --cb 5", "--ab z", "-ax", "--ab 9 --zz"],
      "cnts": ["", "-a", "-aab", "--bb --bb", "-v -v", "-x", "-x -v", "-vvvvw", "-x -x", "-abvw", "--aa x", "-z"],
      "rel": ["", "--aa 1", "--aa 5 --bb 6", "--bb 6", "--al 7", "--al 8 --bb 9", "--cc 1 --bb 2", "-c 3 --aa 1 --bb 2 -d", "-d", "--al x", "--aa 1 --al 2", "-c 1 -d"],
      "modes": ["", "one", "one --foo", "one --bb 3", "one --aa --bb 3", "two", "two sub --aa", "two sub -f --bb 5", "--aa", "--foo x --bb 1", "--foo x", "--help", "--help one", "-h zz", "--ver", "one --zz", "--bb 1 --aa"],
      "mark": ["", "-f", "--list a b ;", "-l a ; 1 2 -- x", "--list a", "1 2 3 -- x y", "1 2 3 4", "1 x", "-l ;", "-- x", "-f -l a ; -- -f", "--zz"],
      "en": ["", "--foo", "-f --str=x", "--str", "--aa", "--bb 2", "--aa --bb 2", "--rq 4", "-r 0", "-r 5 --rq 1", "--help", "--help --foo", "--fo"],
      "types": ["", "--oo 3", "--dd 1.5", "--ee red", "--ee xxx", "--gp !x", "--gp abc", "--sv hello", "--cc x", "--cc xy", "--ll a b c", "--ll", "--sv hello --ll q", "--oo x"],
      "msgs": ["", "-f", "--num 1", "--num 1 --num 2", "--num x", "--num 3 a b", "--num 3 --aa", "--num 3 --bb 4", "--num 4 --aa --bb 5", "--zz", "--num 1 a", "-f -f"]}


def main():
    deep = TIER == "thorough"
    p = []
    for tr, al in AL.items():
        lines_ = [x.split(" ") if x else [] for x in al]
        ctl = [[H], [C], [M_], [S_]] + ([["\1n0"], ["\1n3"], ["\1n1"]] if tr == "en" else [])
        cfgs = (0, 3) if tr == "en" else (0,)
        for cfg in cfgs:
            p += seq_events(tr, ctl + lines_, 3, cfg=cfg)
            p += seq_events(tr, lines_, 4 if deep else 3, cfg=cfg, entry="015")
            few = lines_[1::2]
            p += seq_events(tr, few + [[C], [S_]], 5 if deep else 4, cfg=cfg, entry="0")
            # one line seen through different entry points
            ev = [["\1e%d" % e] + l for e in (0, 2, 3, 4) for l in lines_[:8 if deep else 5]]
            p += seq_events(tr, ev, 3 if deep else 2, cfg=cfg)
            # long repetitions
            p += ["item hist %s %d 0 len=64..64 distinct=0 prefix=@ suffix=@ mode=model entry=0" % (tr, cfg)] and sum((seq_events(tr, [l], 64, minlen=64, cfg=cfg, entry="0") for l in lines_), [])
            # every entry point gives the same
            toks = list(dict.fromkeys(t for l in lines_ for t in l)) + ["", "-", "--"]
            p += seq(tr, [[x] for x in toks], 3, cfg=cfg, entry="012345")
            p += lines(tr, lines_, cfg=cfg, entry="012345")
        for cfg in cfgs:
            for cols in (40, 80):
                p += seq_events(tr, [[H]] + lines_[:6] + [[C]], 3, cfg=cfg, cols=cols)
    return simple("C24", trees(), p, entries=True)


def seq_events(tr, evs, n, minlen=1, cfg=0, cols=0, entry="02"):
    out = ["item hist %s %d %d len=%d..%d distinct=0 prefix=@ suffix=@ mode=model entry=%s" % (tr, cfg, cols, minlen, n, entry)]
    return out + ["a " + enc_argv(e) for e in evs]


if __name__ == "__main__":
    main()
