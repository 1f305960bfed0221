"""Parses of one tree from several threads do not interfere."""

TECHNIQUE = ("stateless exploration of the real code under a controlled scheduler: every schedule of two parses up to a preemption bound, vector-clock race detection over every "
             "instrumented memory access (no conflict: all interleavings equivalent), every nested parse")
NOTE = ("Trees covering every node kind, groups, aliases, dependencies, conversions, messages and help. Scheduling points: each allocation and release, router and conversion call and "
        "synchronisation; two threads, two preemptions (thorough three for short lines, more lines). Races are decided per pair of command lines from the accesses of gcc's instrumentation, "
        "first parse of the process and later ones, both orders; accesses made inside the shared C and C++ libraries are not seen. Nested parses two deep.")
from core import *
from dsl import *


def trees():
    msgs = [(c, "[%d] {} of { }" % c) for c in (0, 1, 2, 3, 7, 8, 9, 100, 101, 103, 104)]
    t = [Tree("mix", help_("--help", "-h", id="H", desc="Shows help"), flag("--version", id="V"),
              mode("run", flag("--foo", "-f", desc="Foo"), arg("i", "--num", "-n", minv=V("i", 1), maxv=V("i", 9), default=V("i", 3), desc="Number"), count("-v", desc="Level"),
                   arg("i", "--cus", custom=True), marg("v<i>", "--list", cnt=(2, 2)), pos("v<s>", "rest"), id="R", desc="Runs"),
              mode(oneof(flag("--aa"), arg("i", "--bb", custom=True), arg("s", "--cc", sep="="), default=Val("true", "var0/b:1")), agroup(arg("i", "--dd"), arg("i", "--ee"), default=V("i", 1)), id="A")),
         Tree("rel", help_("--help", id="H", flatten=True, desc="Help"), mode(arg("i", "--pp", "-p"), arg("i", "--qq", "-q", default=V("i", 2)), arg("i", "--both", alias=["--pp", "-q"]), flag("--dep", dep=["--pp"]), flag("--on", en=0), flag("--off", en=1),
                                                                             arg("o<i>", "--opt"), arg("d", "--dbl"), arg("en", "--en", custom=True), id="M"))]
    t += [with_messages(Tree("msg", help_("--help", id="H"), mode(flag("--foo", "-f"), arg("i", "--num", required=True), pos("v<i>", "xs", cnt=(1, 2)), id="M")), msgs)]
    t[1].cfgs = 1
    return t


AL = {"mix": ["run", "--foo", "-f", "--num", "5", "x", "-v", "-fv", "--cus", "--list", "--aa", "--bb", "--cc=1", "--dd", "--version", "--help"],
      "rel": ["--pp", "-q", "1", "--both", "--dep", "--on", "--off", "--opt", "--dbl", "x", "--en", "red"],
      "msg": ["--foo", "-f", "--num", "4", "y", "--fo", "-z", "--help"]}
BASE_L = {"mix": ["@HELP0", [], ["run", "-fv", "--num", "5", "aa", "bb"], ["run", "--cus", "abc", "--list", "1", "2"], ["run", "--nmu", "5"], ["--aa", "--aa"], ["--bb", "xyz", "--dd", "4"], ["--aa", "--cc=1"], ["--help", "run"],
                  ["run", "--num", "12345"]],
          "rel": ["@HELP1", ["--both", "7", "--dep"], ["--dep"], ["-p", "3", "--en", "blue", "--on"], ["--dbl", "2.5", "--opt", "3"], ["--off"], ["--dbl", "2.5x"]],
          "msg": ["@HELP0", [], ["--num", "3", "1", "2"], ["--num"], ["--foo", "--foo", "--num", "1"], ["--nm", "3"], ["--num", "1", "2", "3", "4"], ["--num", "1", "z"]]}


def main():
    deep = TIER == "thorough"
    c = Check("C29")
    d = os.path.join(c.dir, "main")
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    common = ["-std=c++20"] + BASE + ["-include", os.path.join(ENGINE, "sched.hpp"), "-DH_ONE_ENTRY", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
    inst = ["-fsanitize=thread", "-fno-builtin", "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign"]
    ts = trees()
    cmds = []
    for t in ts:
        src = os.path.join(d, t.id + ".cpp")
        with open(src, "w") as f:
            f.write('#include "%s/harness.hpp"\n%s' % (ENGINE, t.source()))
        cmds.append((t.id, [CXX] + common + inst + ["-c", src, "-o", os.path.join(d, t.id + ".o")]))
    cmds.append(("guard", [CXX] + common + inst + ["-c", os.path.join(ENGINE, "guard.cpp"), "-o", os.path.join(d, "guard.o")]))
    cmds.append(("main", [CXX, "-std=c++20", "-w", "-O2", "-DPREEMPT=%d" % 2, "-c", os.path.join(ENGINE, "c29.cpp"), "-o", os.path.join(d, "main.o")]))
    with pool() as ex:
        rs = list(ex.map(lambda x: (x[0], sh(x[1], timeout=800)), cmds))
    good, objs = True, []
    for name, r in rs:
        if r.returncode:
            if name == "main":
                raise RuntimeError("engine does not compile: " + r.stderr.decode()[:3000])
            c.violation("main/compile/" + name, "valid tree '%s' does not compile: %s" % (name, errors_of(r.stderr)))
            good = False
    c.extra["build_s"] = round(time.time() - t0, 1)
    if not good:
        return c.finish()
    binary = os.path.join(d, "explore")
    wrap = "memcpy memmove memset memcmp strlen pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock".split()
    r = sh([CXX] + [os.path.join(d, n + ".o") for n, _ in cmds] + ["-Wl,--wrap=" + w for w in wrap] + ["-rdynamic", "-ldl", "-lpthread", "-o", binary])
    if r.returncode:
        raise RuntimeError("link failed: " + r.stderr.decode()[:3000])
    plan = os.path.join(d, "plan")
    with open(plan, "w") as f:
        for t in ts:
            f.write("tree %s %d\n" % (t.id, 1))
            def e(l):
                return l if isinstance(l, str) else enc_argv(l)
            seen = set()
            for l in BASE_L[t.id]:
                f.write("b %s\n" % e(l))
                seen.add(e(l))
            al = AL[t.id]
            for k in (1, 2, 3) if deep else (1, 2):
                for x in itertools.product(al, repeat=k):
                    if e(list(x)) not in seen:
                        f.write("w %s\n" % e(list(x)))
    n = Native(c, "main", os.path.join(ENGINE, "c29.cpp"))
    n.bin = binary
    n.run(env=dict(C29_PLAN=plan), limit=60)
    return c.finish()
