import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENGINE = os.path.join(VERIF, "engine")
REPO = os.environ.get("VERIF_REPO", "/repo")
CPUS = min(8, os.cpu_count() or 8)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BASE = ["-w", "-D_GLIBCXX_ASSERTIONS", "-O1", "-I" + REPO + "/include"]
CXX = "g++"
sys.path.insert(0, HERE)
import dsl  # noqa


def work_dir(name):
    d = os.path.join(VERIF, ".build", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def pool(n=CPUS):
    return concurrent.futures.ThreadPoolExecutor(n)


class Violation(Exception):
    pass


class Check:
    """One property: collects coverage and violations, writes evidence, prints the verdict."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tier = TIER
        self.states = self.transitions = self.traces = self.helps = 0
        self.outcomes = 0
        self.samples = []
        self.extra = {}
        self.bad = []  # dicts
        self.dir = work_dir(prop)
        self.rdir = os.path.join(VERIF, ".build", "replay")
        os.makedirs(self.rdir, exist_ok=True)

    @property
    def quick(self):
        return self.tier != "thorough"

    def violation(self, key, what, **info):
        self.bad.append(dict(key=key, what=what, **info))

    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        known = dict(self.known())
        seen = set()
        rest = []
        for b in self.bad:
            if b["key"] in known:
                if b["key"] not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, known[b["key"]]))
                seen.add(b["key"])
            else:
                rest.append(b)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   distinct_outcomes=self.outcomes, samples=self.samples[:60])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier="thorough" if self.tier == "thorough" else "quick", seed=SEED,
                  level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  violations=len(rest))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        print("%s: states=%d transitions=%d traces=%d outcomes=%d build=%.1fs wall=%.1fs" %
              (self.prop, self.states, self.transitions, self.traces, self.outcomes, self.extra.get("build_s", 0), time.time() - self.t0))
        if rest:
            for i, b in enumerate(rest[:10]):
                path = os.path.join(self.rdir, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, **b), f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + b["what"][:1500])
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0


def errors_of(text):
    lines = [l for l in text.decode("utf8", "replace").splitlines() if "error" in l or "assert" in l]
    return "\n".join(l[:400] for l in lines[:6]) or text.decode("utf8", "replace")[:1000]


class Build:
    """Compiles a family of trees against the working tree into one explorer binary."""

    def __init__(self, check, name, trees, std="c++20", flags=(), asan=False, pre="", entries=False, cxx=CXX, defines=()):
        self.check, self.name, self.trees, self.std = check, name, trees, std
        self.cxx = cxx
        self.flags = ["-std=" + std] + BASE + list(flags) + ["-D" + d for d in defines]
        if not entries:
            self.flags.append("-DH_ONE_ENTRY")
        if asan:
            self.flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        self.asan = asan
        self.pre = pre
        self.dir = os.path.join(check.dir, name)
        os.makedirs(self.dir, exist_ok=True)
        self.bin = os.path.join(self.dir, "explore")
        self.failed = {}
        self.by_id = {t.id: t for t in trees}
        assert len(self.by_id) == len(trees), "duplicate tree ids"

    def _compile(self, src, obj, pch=True, extra=()):
        cmd = [self.cxx] + self.flags + list(extra)
        if pch:
            cmd += ["-include", os.path.join(self.dir, "pch.hpp")]
        cmd += ["-c", src, "-o", obj]
        return sh(cmd, timeout=800)

    def _write(self, name, trees):
        p = os.path.join(self.dir, name)
        with open(p, "w") as f:
            f.write('#include "%s/harness.hpp"\n' % ENGINE + self.pre + "\n")
            for t in trees:
                f.write(t.source())
        return p

    def build(self):
        t0 = time.time()
        try:
            return self._build()
        finally:
            self.check.extra["build_s"] = round(self.check.extra.get("build_s", 0) + time.time() - t0, 1)

    def _build(self):
        with open(os.path.join(self.dir, "pch.hpp"), "w") as f:
            f.write('#include "%s/harness.hpp"\n' % ENGINE)
        groups = []
        n = len(self.trees)
        k = max(1, min(n, CPUS * 6))
        big = sorted(self.trees, key=lambda t: -len(t.source()))
        for i in range(k):
            g = big[i::k]
            if g:
                groups.append(g)
        objs = []
        with pool() as ex:
            fixed = []
            for s in ("model", "main", "guard"):
                o = os.path.join(self.dir, s + ".o")
                ex_flags = ["-O2"] if s == "model" else []
                fixed.append((ex.submit(sh, [self.cxx] + self.flags + ex_flags + ["-c", os.path.join(ENGINE, s + ".cpp"), "-o", o]), s))
                objs.append(o)
            pch = sh([self.cxx] + self.flags + ["-x", "c++-header", os.path.join(self.dir, "pch.hpp"), "-o",
                                               os.path.join(self.dir, "pch.hpp.gch")])
            if pch.returncode != 0:
                self.check.violation(self.name + "/headers", "the library's headers do not compile: " + errors_of(pch.stderr))
                return False
            futs = []
            for i, g in enumerate(groups):
                src = self._write("t%d.cpp" % i, g)
                obj = os.path.join(self.dir, "t%d.o" % i)
                futs.append((ex.submit(self._compile, src, obj), g, obj, i))
            redo = []
            for f, g, obj, i in futs:
                if f.result().returncode == 0:
                    objs.append(obj)
                else:
                    for j, t in enumerate(g):
                        src = self._write("t%d_%d.cpp" % (i, j), [t])
                        o = os.path.join(self.dir, "t%d_%d.o" % (i, j))
                        redo.append((ex.submit(self._compile, src, o), t, o))
            for f, t, o in redo:
                r = f.result()
                if r.returncode == 0:
                    objs.append(o)
                else:
                    self.failed[t.id] = errors_of(r.stderr)
            for f, s in fixed:
                r = f.result()
                if r.returncode != 0:
                    raise RuntimeError("engine does not compile: " + errors_of(r.stderr))
        for tid, err in self.failed.items():
            self.check.violation(self.name + "/compile/" + tid,
                                 "valid tree '%s' does not compile: %s" % (tid, err), tree=self.by_id[tid].source())
        r = sh([self.cxx] + self.flags + objs + ["-o", self.bin, "-lutil"])
        if r.returncode != 0:
            raise RuntimeError("link failed: " + r.stderr.decode()[:3000])
        return True

    def run(self, plan, workers=CPUS, limit=40, timeout=3000, prefixes=None):
        """plan: list of lines (items).  Adds coverage and violations to the check."""
        path = os.path.join(self.dir, "plan")
        live = [t for t in self.trees if t.id not in self.failed]
        with open(path, "w") as f:
            if prefixes:
                f.write("prefixes %s %s\n" % (dsl.enc(prefixes[0]), dsl.enc(prefixes[1])))
            for t in live:
                f.write("\n".join(t.model()) + "\n")
            keep = True
            for line in plan:
                if line.startswith("item "):
                    keep = line.split(" ")[2] not in self.failed
                if keep:
                    f.write(line + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0", LC_ALL="C")
        out = os.path.join(self.dir, "out")
        first = self._explore(path, out, workers, limit, timeout, env)
        st = first["stat"]
        self.check.traces += st[0]
        self.check.transitions += st[1]
        self.check.states += first["uniq"][0]
        self.check.outcomes += first["uniq"][1]
        self.check.samples += pick(first["samples"], 30)
        bad = sorted(first["bad"], key=lambda b: (len(b[6]), b[6]))
        shown = {}
        rerun = None
        for b in bad:
            kind, idx, tree, cfg, cols, entry, what, want, got = b
            if shown.get(tree, 0) >= 3 or len(shown) >= 12:
                continue
            r = self.replay(path, tree, cfg, cols, entry, what, want, env, limit)
            desc = "tree=%s cfg=%s columns=%s entry=%s line=%s\n   expected: %s\n   observed: %s" % (
                tree, cfg, cols, entry, dec_show(what), want, r[0])
            how = "alone"
            if not r[1]:
                # reproduced only in context?
                if rerun is None:
                    rerun = self._explore(path, out + "2", workers, limit, timeout, env)
                if not any(x[2:7] == b[2:7] for x in rerun["bad"]):
                    print("note: not reproducible, ignored: " + desc + " / " + got)
                    continue
                desc = desc.replace("observed: " + r[0], "observed: " + got)
                how = "only after the preceding command lines of the plan"
            shown[tree] = shown.get(tree, 0) + 1
            self.check.violation("%s/%s/%s/%s/%s" % (self.name, tree, cfg, cols, what), desc, reproduced=how,
                                 tree_source=self.by_id[tree].source(), build=self.flags, plan=path,
                                 replay=dict(tree=tree, cfg=cfg, cols=cols, entry=entry, what=what, want=want, got=got))
        return first

    def _explore(self, path, out, workers, limit, timeout, env):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        r = sh([self.bin, path, out, str(workers), str(limit)], timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        if r.returncode != 0:
            raise RuntimeError("explorer failed (%d): %s" % (r.returncode, r.stderr.decode("utf8", "replace")[-2000:]))
        res = dict(bad=[], stat=[0, 0, 0], uniq=(0, 0), samples=[])
        for line in r.stdout.decode("utf8", "replace").splitlines():
            w = line.split(" ")
            if w[0] in ("DEAD", "HANG"):
                if len(w) < 8:
                    raise RuntimeError("worker died at start: %s %s" % (line, r.stderr.decode("utf8", "replace")[-2000:]))
                res["bad"].append(("DEAD", w[2], w[3], w[4], w[5], w[6], w[7], "?",
                                   "crashed (signal or exit %s)" % w[1] if w[0] == "DEAD" else "did not terminate"))
            elif w[0] == "UNIQ":
                res["uniq"] = (int(w[1]), int(w[2]))
        for w in range(workers):
            p = os.path.join(out, "w%d" % w)
            if not os.path.exists(p):
                continue
            for line in open(p, encoding="utf8", errors="replace"):
                f = line.rstrip("\n").split(" ")
                if f[0] == "BAD":
                    # BAD item tree cfg cols entry what want got
                    res["bad"].append(("BAD", f[1], f[2], f[3], f[4], f[5], f[6], dec(f[7]), dec(f[8])))
                elif f[0] == "STAT":
                    for i in range(3):
                        res["stat"][i] += int(f[i + 1])
                elif f[0] == "SAMPLE":
                    res["samples"].append(dec_show(" ".join(f[1:])))
        return res

    def replay(self, path, tree, cfg, cols, entry, what, want, env, limit):
        """runs one case alone; returns (observed, reproduced)"""
        try:
            r = sh([self.bin, "replay", path, tree, str(cfg), str(cols), str(entry), what, "x"], timeout=limit + 30, env=env,
                   stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return "did not terminate", True
        if r.returncode != 0:
            tail = [l for l in r.stderr.decode("utf8", "replace").splitlines() if "ERROR" in l or "what()" in l or "ssert" in l]
            return "crashed (%d) %s" % (r.returncode, " ".join(tail)[:300]), True
        m = re.search(rb"^GOT (\S+)", r.stdout, re.M)
        got = dec(m.group(1).decode())
        return got, (want == "?" and not ok_total(got)) or (want != "?" and differs(got, want))


def differs(got, want):
    if want == "one router call or one parse error":
        return not ok_total(got)
    return got.replace("E!", "E:", 1) != want


def ok_total(g):
    return g.startswith("E:") or not (g.startswith(("X:", "MULTIPLE:", "CALLED+", "E!")) or g == "NOTHING")


def pick(xs, n):
    if len(xs) <= n:
        return xs
    return [xs[i * len(xs) // n] for i in range(n)]


def dec(s):
    if s == "%":
        return ""
    b = re.sub(rb"%([0-9A-F]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode())
    return b.decode("utf8", "backslashreplace")


def dec_show(s):
    return re.sub(r"%(?![0-9A-F]{2})", "''", s) if "%" not in s else dec(s.replace("%,", "'',").replace("% ", "'' "))


# ---- plan helpers ----

def enc_argv(a):
    return ",".join(dsl.enc(x) for x in a) if a else "@"


def seq(tree, alphabet, maxlen, minlen=0, cfg=0, cols=0, distinct=False, prefix=(), suffix=(), mode="model", entry="0", kind="seq"):
    out = ["item %s %s %d %d len=%d..%d distinct=%d prefix=%s suffix=%s mode=%s entry=%s" %
           (kind, tree, cfg, cols, minlen, maxlen, distinct, enc_argv(prefix), enc_argv(suffix), mode, entry)]
    for g in alphabet:
        if isinstance(g, str):
            g = g.split(" ") if kind == "seq" or g else []
        if isinstance(g, bytes):
            g = [g]
        out.append("a " + enc_argv(g))
    return out


def cats(tree, frags, maxlen, minlen=0, cfg=0, cols=0, prefix=(), suffix=(), stem="", mode="model", entry="0"):
    """one token made of all fragment strings, between prefix and suffix tokens"""
    out = ["item cat %s %d %d len=%d..%d prefix=%s suffix=%s stem=%s mode=%s entry=%s" %
           (tree, cfg, cols, minlen, maxlen, enc_argv(prefix), enc_argv(suffix), dsl.enc(stem), mode, entry)]
    for g in frags:
        out.append("a " + enc_argv([g]))
    return out


def lines(tree, argvs, cfg=0, cols=0, mode="model", entry="0"):
    out = ["item list %s %d %d mode=%s entry=%s" % (tree, cfg, cols, mode, entry)]
    for a in argvs:
        out.append("l " + enc_argv(a))
    return out


def pairs(tree, ps, cfg=0, cols=0, mode="same", entry="0"):
    out = ["item list %s %d %d mode=%s entry=%s" % (tree, cfg, cols, mode, entry)]
    for a, b in ps:
        out.append("l %s ~ %s" % (enc_argv(a), enc_argv(b)))
    return out


def expects(tree, ps, cfg=0, cols=0, mode="same", entry="0"):
    out = ["item list %s %d %d mode=%s entry=%s" % (tree, cfg, cols, mode, entry)]
    for a, e in ps:
        out.append("l %s = %s" % (enc_argv(a), dsl.enc(e)))
    return out


def helps(tree, cfg=0, cols=0):
    return ["item help %s %d %d" % (tree, cfg, cols)]


def build_all(jobs):
    """several builds side by side; jobs: (Build, plan)"""
    with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
        return [f.result() for f in [ex.submit(b.build) for b, _ in jobs]]


class Native:
    """A C++ program over engine/native.hpp that enumerates cases against the library's own classes."""

    def __init__(self, check, name, source, std="c++20", flags=(), asan=False, cxx=CXX, opt="-O1", libs=()):
        self.check, self.name, self.source = check, name, source
        self.dir = os.path.join(check.dir, name)
        os.makedirs(self.dir, exist_ok=True)
        self.cmd = [cxx, "-std=" + std] + BASE + [opt, "-I" + ENGINE] + list(flags)
        if asan:
            self.cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        self.libs = list(libs)
        self.bin = os.path.join(self.dir, "explore")

    def build(self):
        t0 = time.time()
        src = self.source
        if not os.path.exists(src):
            src = os.path.join(self.dir, "main.cpp")
            with open(src, "w") as f:
                f.write(self.source)
        r = sh(self.cmd + [src, "-o", self.bin] + self.libs, timeout=800)
        self.check.extra["build_s"] = round(self.check.extra.get("build_s", 0) + time.time() - t0, 1)
        if r.returncode != 0:
            self.check.violation(self.name + "/compile", "a use of the public interface does not compile: " + errors_of(r.stderr))
            return False
        return True

    def _once(self, workers, limit, timeout, env):
        out = os.path.join(self.dir, "out")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        r = sh([self.bin, out, str(workers), str(limit)], timeout=timeout, stdin=subprocess.DEVNULL,
               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0", LC_ALL="C", **env))
        if r.returncode != 0:
            raise RuntimeError("explorer failed (%d): %s" % (r.returncode, r.stderr.decode("utf8", "replace")[-2000:]))
        res = dict(bad={}, stat=[0, 0, 0], samples=[], outcomes=set())
        err = r.stderr.decode("utf8", "replace")
        for line in r.stdout.decode("utf8", "replace").splitlines():
            if line.startswith("STAT "):
                for i, x in enumerate(line.split()[1:]):
                    res["stat"][i] += int(x)
            elif line.startswith(("DEAD ", "HANG ")):
                k = line.split("\t")[1]
                why = [l for l in err.splitlines() if "ERROR" in l or "what()" in l or "ssert" in l][:2]
                res["bad"][k] = ("the operation completes", "crashed (status %s) %s" % (line.split()[1], " ".join(why)[:400])
                                 if line.startswith("DEAD") else "did not terminate")
        for w in range(workers):
            p = os.path.join(out, "w%d" % w)
            for line in open(p, errors="replace") if os.path.exists(p) else ():
                line = line.rstrip("\n")
                if line.startswith("BAD "):
                    k, a, b = line[4:].split("\t")
                    res["bad"][k] = (a, b)
                elif line.startswith("SAMPLE "):
                    res["samples"].append(line[7:400])
                elif line.startswith("OUT "):
                    res["outcomes"].add(line[4:])
        return res

    def run(self, workers=CPUS, limit=30, timeout=3000, env={}):
        first = self._once(workers, limit, timeout, env)
        c = self.check
        c.traces += first["stat"][0]
        c.transitions += first["stat"][1]
        c.states += first["stat"][2]
        c.outcomes += len(first["outcomes"])
        c.samples += pick(first["samples"], 20)
        if first["bad"]:
            again = self._once(workers, limit, timeout, env)["bad"]
            n = 0
            for k in sorted(first["bad"], key=lambda k: (len(k), k)):
                a, b = first["bad"][k]
                if k not in again:
                    print("note: not reproducible, ignored: %s: %s / %s" % (k, a, b))
                    continue
                n += 1
                if n > 12:
                    break
                c.violation("%s/%s" % (self.name, k), "case %s\n   expected: %s\n   observed: %s" % (k, a, b), command=self.cmd + [self.source] if len(self.source) < 300 else self.cmd,
                            case=k)
        return first


def simple(prop, trees, plan, **kw):
    """one build, one plan"""
    c = Check(prop)
    b = Build(c, "main", trees, **kw)
    if b.build():
        b.run(plan)
    return c.finish()
