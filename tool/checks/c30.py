"""Library containers come from the configured allocator and are returned."""

TECHNIQUE = ("exhaustive enumeration of fault sequences on the real code: every command line of a bounded set with the configured allocator failing at every one of its calls, once or for good, "
             "and with every router and conversion call failing; every allocation accounted for")
NOTE = ("Trees of every node kind with groups, aliases, dependencies, conversions, messages, languages and help; all command lines up to length 2-3 (3-4), help text at several widths, six entry points. "
        "A counting allocator is configured, operator new is replaced and std::allocator reports its uses: anything but the program's own value types is a violation. The storage of "
        "std::function targets and exceptions is checked for release only. Failure of operator new itself is not covered.")
from core import *
from dsl import *
import checks.c19 as c19


class Own(Tree):
    """A tree whose values use the configured allocator too"""

    def source(self):
        own = {"s": "ar::string"}
        old = dict(CPP)
        CPP.update(own)
        try:
            return super().source().replace("std::vector<", "ar::vector<").replace("std::string{", "ar::string{")
        finally:
            CPP.update(old)


def trees():
    msgs = [(c, "[%d] {} of { }" % c) for c in (0, 1, 2, 3, 7, 8, 9, 100, 101, 103, 104)]
    t = [Tree("mix", help_("--help", "-h", id="H", desc="Shows help"), flag("--version", id="V"),
              mode("run", flag("--foo", "-f", desc="Foo"), arg("i", "--num", "-n", minv=V("i", 1), maxv=V("i", 9), default=V("i", 3), desc="Number of the things that are counted"), count("-v", desc="Level"),
                   arg("i", "--cus", custom=True), marg("v<i>", "--list", cnt=(2, 2)), pos("v<sv>", "rest"), id="R", desc="Runs"),
              mode(oneof(flag("--aa"), arg("i", "--bb", custom=True), arg("sv", "--cc", sep="="), default=Val("true", "var0/b:1")), agroup(arg("i", "--dd"), arg("i", "--ee"), default=V("i", 1)), id="A")),
         Tree("rel", help_("--help", id="H", flatten=True, desc="Help"), mode(arg("i", "--pp", "-p"), arg("i", "--qq", "-q", default=V("i", 2)), arg("i", "--both", alias=["--pp", "-q"]), flag("--dep", dep=["--pp"]), flag("--on", en=0), flag("--off", en=1),
                                                                             arg("o<i>", "--opt"), arg("d", "--dbl"), arg("en", "--en", custom=True), id="M")),
         with_messages(Tree("msg", help_("--help", id="H"), mode(flag("--foo", "-f"), arg("i", "--num", required=True), pos("v<i>", "xs", cnt=(1, 2)), id="M")), msgs),
         Tree("str", mode("go", arg("s", "--name", "-n", default=V("s", "a default of some length")), arg("s", "--eq", sep="="), marg("v<s>", "--names", cnt=(2, 2)), pos("s", "one", cnt=(1, 1)), pos("v<s>", "more"), id="S"),
              mode("fw", flag("--foo"), fwd("--"), id="F")),
         Tree("lst", mode(marg("v<i>", "--list", "-l", cnt=(1, 9), endm=":"), count("--level", "-v"), flag("-a"), flag("-b"), flag("--both", alias=["-a", "-b"]),
                          pos("v<gp>", "files", cnt=(0, 5)), id="L"))]
    t[1].cfgs = 1
    t.append(Own("own", mode("go", arg("s", "--name", "-n", default=V("s", "a default that needs storage of its own")), marg("v<i>", "--nums", cnt=(2, 2), default=V("v<i>", [1, 2])), arg("s", "--must", required=True),
                             pos("s", "one", cnt=(1, 1)), pos("v<s>", "more"), id="S"),
                 mode(oneof(arg("s", "--aa"), arg("i", "--bb"), default=V("s", "another default that is long"), ), arg("s", "--cc", en=0), arg("s", "--dd", en=1, en_req=V("s", "yet another one that is long")), fwd("--"), id="M")))
    t.append(c19.Multi("ml", ["en_GB", "fr", "ja"], c19.copier, ["fr"], messages=c19.MSGS))
    return t


AL = {"mix": ["run", "--foo", "-f", "--num", "5", "x", "-fv", "--cus", "--list", "--aa", "--bb", "--cc=1", "--dd", "--version", "--help"],
      "rel": ["--pp", "-q", "1", "--both", "--dep", "--on", "--off", "--opt", "--dbl", "x", "--en", "red", "--help"],
      "msg": ["--foo", "-f", "--num", "4", "y", "--fo", "-z", "--help"],
      "str": ["go", "fw", "--name", "-n", "a value longer than fifteen bytes", "--eq=some other value as well", "--names", "v", "--", "--foo"],
      "own": ["go", "--name", "a value longer than fifteen bytes", "-n", "--must", "--nums", "1", "--aa", "--dd", "--", "--cc", "--bb"],
      "lst": ["--list", "-l", "1", ":", "x", "-v", "-ab", "-abv", "--both", "--level", "?", "--lits"],
      "ml_0": ["copier", "--forcer", "-f", "--travaux", "2", "a", "--aide", "--sortie", "--sortei", "0"]}
BASE_L = {"mix": [["run", "-fv", "--num", "5", "aa", "bb"], ["run", "--cus", "abc", "--list", "1", "2"], ["run", "--nmu", "5"], ["--aa", "--aa"], ["--bb", "xyz", "--dd", "4"], ["--aa", "--cc=1"], ["--help", "run"],
                  ["run", "--num", "12345"], ["run", "--help", "--num"], ["--help", "run", "--num"], ["run", "--num", "5"] + ["x%d" % i for i in range(40)]],
          "rel": [["--both", "7", "--dep"], ["--dep"], ["-p", "3", "--en", "blue", "--on"], ["--dbl", "2.5", "--opt", "3"], ["--off"], ["--dbl", "2.5x"]],
          "msg": [["--num", "3", "1", "2"], ["--num"], ["--foo", "--foo", "--num", "1"], ["--nm", "3"], ["--num", "1", "2", "3", "4"], ["--num", "1", "z"]],
          "str": [["go", "--name", "x" * 40, "--eq=" + "y" * 50, "one"], ["go", "--names", "a" * 20, "b" * 20, "d" * 20, "e", "f"], ["fw", "--foo", "--", "a", "b" * 60, "c"], ["go", "--eq", "a" * 30]],
          "own": [["go", "--must", "m" * 30, "one"], ["go", "--must", "m" * 30, "one", "more and more and more", "x" * 40], ["go", "--name", "a" * 20, "--nums", "3", "4", "--must", "q", "one"], ["--aa", "b" * 33, "--", "fw" * 20, "x"],
                  ["--bb", "3"], ["--cc", "z" * 20, "--dd", "y" * 30], ["go", "--must", "m" * 30], ["--aa", "v" * 20, "--bb", "4"]],
          "lst": [["-l", "1", "2", "3", "4", "5", ":", "7"], ["-l", "1", "2", "x"], ["-ab", "-vvv", "a" * 30], ["a", "b", "c", "d", "e", "f"], ["--both", "-a"], ["-vvvvvvvvvvvvvvvvvv"], ["?"]],
          "ml_0": [["copier", "--forcer", "--travaux", "3", "d", "s1", "s2"], ["copier", "d", "--travaux", "0"], ["--sortie", "x", "--forcer"], ["--aide", "copier"], ["--sortei", "x"]]}
HELP = ("mix", "rel", "msg", "ml_0")
EXEMPT = {"own": "", "mix": "int;std::basic_string_view<char>", "rel": "int", "msg": "int", "str": "char;std::__cxx11::basic_string<char>;int", "lst": "int;h::gp",
          "ml_0": "char;std::__cxx11::basic_string<char>;int"}


def main():
    deep = TIER == "thorough"
    c = Check("C30")
    d = os.path.join(c.dir, "main")
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    asan = ["-fsanitize=address", "-fno-omit-frame-pointer"]
    common = ["-std=c++20", "-I" + os.path.join(ENGINE, "faultshim")] + BASE + ["-include", os.path.join(ENGINE, "fault.hpp"), "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + asan
    ts = trees()
    cmds = []
    for t in ts:
        src = os.path.join(d, t.id + ".cpp")
        with open(src, "w") as f:
            f.write('#include "%s/harness.hpp"\n%s' % (ENGINE, t.source()))
        cmds.append((t.id, [CXX] + common + ["-O1", "-c", src, "-o", os.path.join(d, t.id + ".o")]))
    cmds.append(("guard", [CXX] + common + ["-O1", "-c", os.path.join(ENGINE, "guard.cpp"), "-o", os.path.join(d, "guard.o")]))
    cmds.append(("main", [CXX, "-std=c++20", "-w", "-O1", "-c", os.path.join(ENGINE, "c30.cpp"), "-o", os.path.join(d, "main.o")] + asan))
    with pool() as ex:
        rs = list(ex.map(lambda x: (x[0], sh(x[1], timeout=800)), cmds))
    good = True
    for name, r in rs:
        if r.returncode:
            if name == "main":
                raise RuntimeError("engine does not compile: " + r.stderr.decode()[:3000])
            c.violation("main/compile/" + name, "valid tree '%s' does not compile: %s" % (name, errors_of(r.stderr)))
            good = False
    c.extra["build_s"] = round(time.time() - t0, 1)
    if not good:
        return c.finish()
    binary = os.path.join(d, "explore")
    r = sh([CXX] + asan + [os.path.join(d, n + ".o") for n, _ in cmds] + ["-lutil", "-o", binary])
    if r.returncode:
        raise RuntimeError("link failed: " + r.stderr.decode()[:3000])
    plan = os.path.join(d, "plan")
    with open(plan, "w") as f:
        for t in ts:
            tid = t.id if isinstance(t, Tree) else t.sub(0)
            f.write("tree %s %d %s\n" % (tid, getattr(t, "cfgs", 0), EXEMPT[tid]))
            if tid in HELP:
                for cols in (0, 30, 60, 100) if not deep else [0] + list(range(8, 121, 4)):
                    for l in ["@HELP0", "@HELP1", enc_argv(["--help" if tid != "ml_0" else "--aide"])]:
                        f.write("f %s 0 %d\n" % (l, cols))
            seen = set()
            for l in BASE_L[tid] + [[]]:
                for e in range(6):
                    f.write("f %s %d 0\n" % (enc_argv(l), e))
            for k in range(1, 5 if deep else 4):
                for x in itertools.product(AL[tid], repeat=k):
                    for e in range(6) if k == 1 else (0,):
                        f.write("%s %s %d 0\n" % ("f" if k < (4 if deep else 3) else "b", enc_argv(list(x)), e))
    n = Native(c, "main", os.path.join(ENGINE, "c30.cpp"))
    n.bin = binary
    n.run(env=dict(C30_PLAN=plan), limit=60)
    return c.finish()
