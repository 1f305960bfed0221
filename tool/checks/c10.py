"""Dependent arguments are accepted only after what they depend on."""
from core import *
from dsl import *

NOTE = ("Every order of every subset, and every sequence of up to 5 (6-7 thorough) of the options of trees with single, multiple, chained, "
        "aliased, grouped, collapsed, conditional and cross-kind dependencies; outcomes and the dependency named equal the model's.")


def trees():
    t = []
    t.append(Tree("one", mode(flag("--aa", "-a"), flag("--bb", "-b", dep=["--aa"]), arg("i", "--cc", dep=["-a"]), flag("-f"), id="A")))
    t.append(Tree("multi", mode(flag("--aa", "-a"), arg("i", "--bb"), count("--cc", "-c"), flag("--dd", "-d", dep=["--aa", "--bb", "-c"]),
                                arg("s", "--ee", "-e", dep=["-c", "--aa"]), flag("-f"), id="A")))
    t.append(Tree("chain", mode(flag("--aa", "-a"), flag("--bb", "-b", dep=["--aa"]), flag("--cc", "-c", dep=["--bb"]), arg("i", "--dd", dep=["--cc"]),
                                marg("v<i>", "--ee", cnt=(2, 2), dep=["--dd"]), flag("-f"), id="A")))
    t.append(Tree("alias", mode(flag("--aa", "-a"), flag("--bb", "-b"), flag("--xx", "-x", alias=["--aa", "--bb"]), flag("--cc", dep=["--aa"]),
                                flag("--dd", dep=["--bb", "--aa"]), flag("--yy", alias=["--cc"]), flag("--zz", alias=["--bb"], dep=["--aa"]), id="A")))
    t.append(Tree("before", mode(flag("--bb", dep=["--aa"]), flag("--cc", dep=["--dd"]), flag("--aa"), arg("i", "--dd"), id="A")))
    t.append(Tree("grp", mode(oneof(flag("--aa"), arg("i", "--bb"), default=Val("1", "var1/i:1")), flag("--cc", dep=["--aa"]), flag("--dd", dep=["--bb"]),
                              agroup(arg("i", "--ga"), arg("i", "--gb", dep=["--cc"]), default=V("i", 3)), flag("--ee", dep=["--ga"]), id="A")))
    t.append(Tree("vals", mode(arg("s", "--aa", "-a", sep="="), marg("v<s>", "--ll", cnt=(2, 2)), arg("s", "--bb", sep="=", dep=["--aa"]),
                               marg("v<s>", "--mm", cnt=(2, 2), dep=["--ll", "--aa"]), pos("v<s>", "rest"), id="A")))
    t.append(Tree("mod", mode("one", flag("--da"), flag("--bb", dep=["--da"]), mode("sub", flag("--aa"), arg("i", "--bb"), flag("--cc", dep=["--bb", "--aa"]), id="S"), id="O"),
                  mode("two", flag("--bb"), flag("--aa", dep=["--bb"]), id="T"), mode(flag("--aa"), flag("--bb"), id="A")))
    t.append(Tree("en", mode(flag("--aa", en=0), flag("--bb", dep=["--aa"], en=1), flag("--cc", dep=["--bb"]), id="A")))
    t.append(Tree("err", mode(flag("--aa", err="first"), arg("i", "--bb"), flag("--cc", dep=["--bb", "--aa"]), count("--dd", "-d", dep=["--aa"]), id="A")))
    return t


def main():
    d = 1 if TIER == "thorough" else 0
    als = {"one": ["--aa", "-a", "--bb", "-b", "--cc 1", "-f", "-ab", "-ba", "-fab"],
           "multi": ["--aa", "-a", "--bb 2", "--cc", "-c", "--dd", "-d", "-e x", "-cad", "-f"],
           "chain": ["-a", "--bb", "-c", "--dd 1", "--ee 1 2", "-f", "-abc", "-acb"],
           "alias": ["--aa", "-b", "--xx", "--cc", "--dd", "--yy", "--zz", "-x"], "before": ["--bb", "--cc", "--aa", "--dd 1"],
           "grp": ["--aa", "--bb 1", "--cc", "--dd", "--ga 1", "--gb 2", "--ee"], "vals": ["-a=1", "--ll x y", "--bb=2", "--mm p q", "r", "--bb", "--mm p"],
           "mod": ["one", "sub", "two", "--aa", "--da", "--bb", "--cc", "1"], "err": ["--aa", "--bb 1", "--cc", "-d", "-dd"]}
    p = []
    for tr, a in als.items():
        p += seq(tr, a, (5 if len(a) > 7 else 6) + d)
        p += seq(tr, a, 8, minlen=6, distinct=True) if len(a) <= 8 else []
    for cfg in range(4):
        p += seq("en", ["--aa", "--bb", "--cc"], 6, cfg=cfg)
    return simple("C10", trees(), p)
