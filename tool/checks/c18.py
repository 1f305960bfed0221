"""Each failure is reported by its own translated message with its tokens."""

NOTE = ("24 message templates (no, one, several, greedy and surplus placeholders, brackets that are no placeholders, multi-byte text) rotated over the 16 "
        "error codes and a user-defined one, combined with default, custom, partial and absent fallbacks, on a tree that can raise every code with 0 to 40 "
        "tokens, including tokens that look like placeholders; every message is compared with an independent formatter.")
from core import *
from dsl import *

POOL = ["", "X", "{}", "a{}b", "{}{}", "one {} two {} three {}", "{, }", "<{/}>", "{}:{; }!", "{}{}{}{}x", "{ } tail \u00e9", "\u65e5{\u00e9}\u672c", "} {}", "{ unclosed", "closing } only", "x}y{z",
        "long text without any placeholder that is much longer than a small buffer would be", "{}{...}", "%s {} \\ \" '", "} } {, } {", "{} and {}", "{}\n{\n}", "{: }", "a {} b } c"]


def body():
    return [flag("--rf", "-r", id="RF"), arg("i", "--ra", maxv=V("i", 5), id="RA"), mode("gg", mode("sub", flag("--xx"), id="S")), mode("un", flag("-u"), id="U"), mode("rq", arg("i", "--need", "-n", required=True), arg("i", "--also", required=True, err="ALSO"), id="R"),
            mode("dd", flag("--off", en=0), id="D"),
            mode("mm", arg("i", "--num", minv=V("i", 1), maxv=V("i", 5), default=V("i", 2)), marg("v<i>", "--mul", cnt=(2, 2)), arg("i", "--al", alias=["--num"]), flag("--dp", "-d", dep=["--num"]),
                 oneof(flag("--oa"), arg("i", "--ob"), default=Val("1", "var1/i:1")), arg("s", "--sp", sep="="), arg("gp", "--gp"), pos("v<i>", "rest", endm=";", cnt=(0, 2)), id="M")]


def small():
    return body()[:4] + [mode("rq", arg("i", "--need", "-n", minv=V("i", 1), required=True), id="R")]


def trees():
    t = []
    cs = list(CODES)
    for k in range(len(POOL)):
        msgs = [(c, POOL[(k + 7 * i) % len(POOL)]) for i, c in enumerate(cs)] + [(1000, POOL[(k + 3) % len(POOL)])]
        if k % 4 == 1:
            msgs = msgs[::-1]
        t.append(with_messages(Tree("t%d" % k, *(body() if k % 6 == 0 else small())), msgs, ["default", "void", [], None][k % 4]))
    half = [(c, "own%d {}" % c) for c in cs[::2]]
    rest = [(c, "fb%d {; }" % c) for c in cs[1::3]]
    every = [(c, "both%d {}-{}" % c) for c in cs]
    for i, (m, f) in enumerate(((half, "default"), (half, "void"), (half, rest), (half, every), ([], rest), (None, rest), (None, "default"), (None, "void"), (None, None), ([], []), (every, rest),
                                ([(9, "only nine")], rest), ([(3, "first {}"), (3, "second {}")], "default"))):
        t.append(with_messages(Tree("f%d" % i, *(body() if i in (2, 7) else small())), m, f))
    t.append(Tree("dflt", *body()))
    return t


def argvs(d):
    odd = ["{}", "{, }", "-{}", "--{}", "}{", "{", "}", "", "\u00e9{}", b"\xff", "x"]
    a = [[], ["gg"], ["gg", "zz"], ["un", "-u", "x"], ["un", "-u"], ["rq"], ["rq", "--need", "1"], ["rq", "-n", "1", "--also", "2"], ["dd"], ["dd", "-z", "y"]]
    for n in list(range(0, 12)) + [20, 40]:
        a += [["un", "-u"] + ["t%d" % i for i in range(n)], ["un", "-u"] + odd[:n], ["gg", "sub", "--xx"] + ["-w"] * n, ["--rf"] + ["t%d" % i for i in range(n)], ["--ra", "3"] + odd[:n], ["-r"] + odd[:n], ["un", "-u", "-u"] + ["x"] * n]
    a += [["--ra"], ["--ra", "6"], ["--ra", "x", "y", "z"], ["--rf", "-r"], ["-rr", "x"], ["--ra", "1", "--ra", "2"], ["un", "--rf"], ["--rf", "un", "-u"]]
    for o in odd:
        a += [[o], ["mm", o], ["gg", "sub", o], ["dd", o], ["dd", o, "{}"], ["mm", "--num", o], ["mm", "--gp", o], ["mm", "--gp", "?" + (o if isinstance(o, str) else "")], ["un", o], ["un", "-u", o, o], ["rq", o], ["mm", o, ";"], ["mm", "--oa", o]]
    a += [["mm", "--num", v] for v in ("0", "6", "3", "x")] + [["mm", "--num", "1", "--num", "2"], ["mm", "--mul", "1"], ["mm", "--mul", "1", "x"], ["mm", "1", "2", "3", ";"], ["mm", "--al"], ["mm", "--al", "9"], ["mm", "--al", "1", "--num", "2"],
         ["mm", "--dp"], ["mm", "-d"], ["mm", "--num", "1", "-d"], ["mm", "--oa", "--ob", "1"], ["mm", "--ob", "1", "--oa"], ["mm", "--sp"], ["mm", "--sp="], ["mm", "--gp", "?q"], ["mm", "--gp", "!q"], ["mm", "-zd"], ["mm", "--gp", "ok"]]
    return a


def main():
    d = 1 if TIER == "thorough" else 0
    p = []
    a = argvs(d)
    for t in trees():
        p += lines(t.id, a, cfg=0)
        p += lines(t.id, [x for x in a if x and x[0] == "dd"], cfg=1)
        p += seq(t.id, ["mm", "gg", "un", "rq", "dd", "sub", "--num 9", "--mul 1", "--oa", "--ob 2", "-d", "--sp", "-u", "{}", "--need 1"], 2 + d)
    return simple("C18", trees(), p)
