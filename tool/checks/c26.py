"""Generated translation headers carry exactly the translations in the files."""

TECHNIQUE = "exhaustive enumeration of translation files up to a length over an alphabet of lines and values, through the real generator and compiler, against an independent TOML reader; explicit-state exploration of the generator's histories"
NOTE = ("Every translation file of up to 4 (thorough 5) lines over seven kinds of line (blank, comments, entries with list syntax characters, the error code section), with every line ending, and every value of up to 2 "
        "(thorough 3) of 38 pieces (escapes, quotes, list and variable syntax, Unicode), every Unicode character of the first planes, is given to the generator script; each header is compiled for both C++ versions and each "
        "string's and error message's bytes compared with what Python's TOML reader finds. Malformed lines at every place of files up to 3 lines must be refused. All states of two sources and their headers "
        "(absent, current, out of date, edited) are explored through every list of sources, comparing contents and file times; the CMake function is run through both build tools with all sets of its arguments.")
import itertools, os, re, shutil, subprocess, sys, time, tomllib
from core import *

SCRIPT = REPO + "/cmake/translation_generator/translation_generator_script.cmake"
CODES = ["unknown_argument", "unhandled_arguments", "failed_to_parse", "no_arguments_passed", "missing_value_separator"]


def cmake(sources, out, timeout=300):
    return sh(["cmake", "-DSOURCES=" + ";".join(sources), "-DOUTPUT_DIR=" + out, "-P", SCRIPT], timeout=timeout)


PRE = """#include <arg_router/utility/compile_time_string.hpp>
#include <arg_router/exception.hpp>
#include <arg_router/multi_lang/translation.hpp>
#include <cstdio>
#include <tuple>
#include <string_view>
#include <utility>
#include <type_traits>
inline void out(const char* id, const char* key, std::string_view v)
{
    std::printf("%%s\\t%%s\\t", id, key);
    for (unsigned char c : v) std::printf("%%02x", c);
    std::printf("\\n");
}
inline const char* code_name(arg_router::error_code c)
{
    using e = arg_router::error_code;
    %s
    return "?";
}
template <typename T, typename = void> struct errs { static void f(const char*) {} };
template <typename T> struct errs<T, std::void_t<typename T::error_code_translations>> {
    template <typename P> static void one(const char* id) { out(id, code_name(P::first_type::value), P::second_type::get()); }
    template <std::size_t... I> static void all(const char* id, std::index_sequence<I...>) { (one<std::tuple_element_t<I, typename T::error_code_translations>>(id), ...); }
    static void f(const char* id) { std::printf("%%s\\terror_code\\t-\\n", id); all(id, std::make_index_sequence<std::tuple_size_v<typename T::error_code_translations>>{}); }
};
""" % "\n    ".join('if (c == e::%s) return "%s";' % (c, c) for c in CODES)


def detector(k):
    return """template <typename T, typename = void> struct D_%s { static void f(const char*) {} };
template <typename T> struct D_%s<T, std::void_t<typename T::%s>> { static void f(const char* id) { out(id, "%s", T::%s::get()); } };
""" % (k, k, k, k, k)


class File:
    def __init__(self, name, data, keys=None):
        self.name, self.data = name, data if isinstance(data, bytes) else data.encode()
        self.keys = keys  # what to look for, those in the file by default

    def expected(self):
        t = self.data.decode()
        if t.startswith("\ufeff"):
            t = t[1:]
        d = tomllib.loads(t)
        e = d.pop("error_code", None)
        r = {k: v.encode().hex() for k, v in d.items()}
        if e is not None:
            r["error_code"] = "-"
            r.update({"!" + k: v.encode().hex() for k, v in e.items()})
        return r


class Values:
    """generates, compiles and compares a set of files"""

    def __init__(self, c, name, files, stds):
        self.c, self.name, self.files, self.stds = c, name, files, stds
        self.dir = os.path.join(c.dir, name)
        self.src, self.out = os.path.join(self.dir, "src"), os.path.join(self.dir, "out")
        os.makedirs(self.src)
        for f in files:
            with open(os.path.join(self.src, f.name + ".toml"), "wb") as h:
                h.write(f.data)

    def path(self, f):
        return os.path.join(self.src, f.name + ".toml")

    def generate(self, ex):
        n = max(1, min(100, len(self.files) // CPUS + 1))
        groups = [self.files[i:i + n] for i in range(0, len(self.files), n)]
        good = set()
        redo = []
        for g, r in zip(groups, ex.map(lambda g: cmake([self.path(f) for f in g], self.out), groups)):
            if r.returncode == 0:
                good.update(f.name for f in g)
            else:
                redo += g
        for f, r in zip(redo, ex.map(lambda f: cmake([self.path(f)], self.out), redo)):
            if r.returncode == 0:
                good.add(f.name)
            else:
                self.c.violation("%s/%s" % (self.name, f.name), "a well-formed file is refused:\n%s\n%s" % (f.data.decode(), r.stderr.decode()[:500]), file=f.data.decode())
        return [f for f in self.files if f.name in good]

    def program(self, i, fs, std):
        p = os.path.join(self.dir, "p%d_%s.cpp" % (i, std[-2:]))
        universe = sorted(set(k for f in fs for k in (f.keys or [])))
        with open(p, "w") as h:
            h.write('#include "%s/pre_%s.hpp"\n' % (self.c.dir, std[-2:]))
            for k in sorted(set(universe) | set(k for f in fs if f.keys is None for k in f.expected() if k != "error_code" and k[0] != "!")):
                h.write(detector(k))
            for f in fs:
                h.write('#include "%s/%s.hpp"\n' % (self.out, f.name))
            h.write("int main() {\n")
            for f in fs:
                ks = f.keys if f.keys is not None else [k for k in f.expected() if k != "error_code" and k[0] != "!"]
                h.write('{ using T = arg_router::multi_lang::translation<%s>;\n' % ('arg_router::str<"%s">' % f.name if std == "c++20" else 'S_("%s")' % f.name))
                h.write("".join('D_%s<T>::f("%s"); ' % (k, f.name) for k in ks) + 'errs<T>::f("%s"); }\n' % f.name)
            h.write("}\n")
        return p

    def compile(self, i, fs, std):
        """name -> values, the files which do not compile, why"""
        src = self.program(i, fs, std)
        exe = src[:-4]
        r = sh([CXX] + flags(std) + [src, "-o", exe], timeout=800)
        if r.returncode:
            t = r.stderr.decode(errors="replace")
            names = set(re.findall(r"/out/([\w.]+)\.hpp:", t))
            if len(fs) == 1:
                return {}, {fs[0].name: errors_of(r.stderr)}
            bad = [f for f in fs if f.name in names]
            rest = [f for f in fs if f.name not in names]
            if not bad:  # not attributed: one at a time
                vals, why = {}, {}
                for j, f in enumerate(fs):
                    v, w = self.compile(i * 1000 + j + 100000, [f], std)
                    vals.update(v), why.update(w)
                return vals, why
            vals, why = self.compile(i + 10000, rest, std) if rest else ({}, {})
            if len(bad) > 12:
                why.update({f.name: errors_of(r.stderr) for f in bad})
            else:
                for j, f in enumerate(bad):
                    v, w = self.compile(i * 1000 + j + 100000, [f], std)
                    vals.update(v), why.update(w)
            return vals, why
        o = sh([exe], timeout=60)
        os.unlink(exe)
        os.unlink(src)
        vals = {f.name: {} for f in fs}
        err = set()
        for line in o.stdout.decode().splitlines():
            f, k, v = (line.split("\t") + [""])[:3]
            if k == "error_code":
                err.add(f)
            elif f in err:
                k = "!" + k
            vals[f][k] = v
        return vals, {}

    def run(self, ex, size):
        fs = self.generate(ex)
        total = 0
        jobs = [(i, fs[i:i + size], std) for std in self.stds for i in range(0, len(fs), size)]
        for (i, g, std), (vals, why) in zip(jobs, ex.map(lambda j: self.compile(*j), jobs)):
            for f in g:
                total += 1
                if f.name in why:
                    self.c.violation("%s/%s" % (self.name, f.name), "the header of a well-formed file does not compile (%s): %s\n%s" % (std, why[f.name], f.data.decode()), file=f.data.decode())
                    continue
                e, v = f.expected(), vals.get(f.name)
                if e != v:
                    ks = sorted(k for k in set(e) | set(v or {}) if e.get(k) != (v or {}).get(k))
                    txt = lambda x: None if x is None else "-" if x == "-" else bytes.fromhex(x).decode(errors="replace")
                    self.c.violation("%s/%s" % (self.name, f.name), "%s: the header has other values than the file:\n%s\n%s" % (std, f.data.decode(), "\n".join("  %s: expected %r, observed %r" % (k, txt(e.get(k)), txt((v or {}).get(k))) for k in ks[:5])),
                                     file=f.data.decode())
                self.c.outcome_set.add(tuple(sorted(e.items())))
        self.c.states += len(self.files)
        self.c.traces += total
        self.c.transitions += total
        self.c.extra["%s_files" % self.name] = len(self.files)
        self.c.extra["%s_strings" % self.name] = sum(len(f.expected()) for f in self.files)
        shutil.rmtree(self.dir)


def flags(std):
    return ["-std=" + std, "-w", "-O0", "-I" + REPO + "/include"] + (["-I" + ENGINE + "/shim"] if std == "c++17" else [])


# ---- files by their lines -----------------------------------------------------------------------

LINES = ["", "# comment [error_code]", "#[a;\\", None, None, None, "[error_code]"]
VALUES = ['"x"', '"[y;\\\\"', '"] = \\"#z"']


def line_files(depth):
    out = []
    for n in range(depth + 1):
        for seq in itertools.product(range(7), repeat=n):
            if seq.count(6) > 1:
                continue
            text, err = [], False
            for i, k in enumerate(seq):
                if k == 6:
                    err = True
                text.append(LINES[k] if LINES[k] is not None else "%s = %s" % (CODES[i] if err else "k%d" % i, VALUES[k - 3]))
            out.append(text)
    return out


def lines_part(c, ex, deep):
    files, few = [], []
    keys = ["k%d" % i for i in range(5)]
    n = 0

    def put(where, data):
        nonlocal n
        where.append(File("f%d" % n, data, keys))
        n += 1

    depth = 5 if deep else 4
    for text in line_files(depth):
        put(files, "".join(t + "\n" for t in text))
    for text in line_files(3 if deep else 2):
        put(few, "".join(t + "\r\n" for t in text))
        put(few, "\n".join(text))
        put(few, "\ufeff" + "\r\n".join(text))
        put(few, "\ufeff" + "".join(t + "\n" for t in text))
        # C++17 too
        put(few, "".join(t + "\n" for t in text))
    Values(c, "lines", files, ["c++20"]).run(ex, 120)
    Values(c, "lines2", few, ["c++20", "c++17"]).run(ex, 60)


# ---- values -------------------------------------------------------------------------------------

PIECES = ["a", " ", ";", "[", "]", "\\\\", '\\"', "#", " = ", "=", "$", "{", "}", "${line}", "(", ")", ",", "'", "<", ">", "@", "%", "?", "/", "*", "-", "&", "|", "~", "!", "^", "`", "\u00e9", "\u5f37", "\U0001F600",
          "\\t", "\\n", "\\u00e9", "\t"]
MORE = ["\\U0001F600", "\\b", "\\f", "\\r", "\\u0041", "e\u0301", "\u200b", "\u202e", "\ufeff", "x" * 20]
CORE = ["a", ";", "[", "]", "\\\\", '\\"', "#", " = ", "${line}", ")", ">", "\u5f37"]


def values_part(c, ex, deep):
    vals = [""] + PIECES + MORE + ["".join(p) for p in itertools.product(PIECES + (MORE if deep else []), repeat=2)]
    vals += ["".join(p) for p in itertools.product(PIECES if deep else CORE, repeat=3)]
    vals += ["".join(p) for p in itertools.product(CORE[1:8] if deep else CORE[1:5], repeat=4)]
    vals = list(dict.fromkeys(vals))
    per = 60
    files = []
    for i in range(0, len(vals), per):
        files.append(File("v%d" % (i // per), "".join('v%d = "%s"\n' % (j, v) for j, v in enumerate(vals[i:i + per]))))
    # the same as error messages
    some = vals[:200]
    for i, k in enumerate(range(0, len(some), len(CODES))):
        files.append(File("e%d" % i, "[error_code]\n" + "".join('%s = "%s"\n' % (CODES[j], v) for j, v in enumerate(some[k:k + len(CODES)]))))
    Values(c, "values", files, ["c++20"]).run(ex, 4 if deep else 3)
    one = [v for v in [""] + PIECES + MORE] + ["".join(p) for p in itertools.product(CORE, repeat=2)]
    Values(c, "values17", [File("w%d" % (i // 10), "".join('v%d = "%s"\n' % (j, v) for j, v in enumerate(one[i:i + 10]))) for i in range(0, len(one), 10)], ["c++17"]).run(ex, 3)
    # names of entries: those of the script's variables, constants and numbers of it
    names = ["line", "lines", "key", "value", "output_data", "header", "footer", "midder", "source", "TRUE", "OFF", "NO", "IGNORE", "NOTFOUND", "x_NOTFOUND", "ARGS_LANGUAGE", "error_codes", "div_pos", "_a", "A1", "CMAKE_VERSION", "N"]
    fs = []
    for i, a in enumerate(names):
        for j, b in enumerate(names if deep else names[:6]):
            fs.append(File("n%d_%d" % (i, j), '%s = "%s"\n' % (a, b) + ('%s = "%s"\n' % (b, a) if a != b else "")))
    Values(c, "names", fs, ["c++20"]).run(ex, 40)
    # every character
    cps = [x for x in range(0x20, 0x10000 if deep else 0x3000) if not 0xD800 <= x < 0xE000 and x not in (0x22, 0x5C, 0x7F)]
    cps += [x + d for x in range(0x10000, 0x110000, 0x10000 if not deep else 0x1000) for d in (0, 1, 0xFFF)]
    w = 24
    strs = ["".join(map(chr, cps[i:i + w])) for i in range(0, len(cps), w)]
    Values(c, "characters", [File("c%d" % (i // 30), "".join('c%d = "%s"\n' % (j, v) for j, v in enumerate(strs[i:i + 30]))) for i in range(0, len(strs), 30)], ["c++20"]).run(ex, 4)
    # file names, which are the languages
    ids = ["en_GB", "zh-Hant.TW", "a.b.c", "x+y", "sr@latin", "p(q)", "\u65e5\u672c", "e #1", "_"]
    Values(c, "languages", [File(i, 'k0 = "%s"\n' % i, ["k0"]) for i in ids], ["c++20", "c++17"]).run(ex, 5)


# ---- malformed files ----------------------------------------------------------------------------

MALFORMED = ["k9", "k9=\"v\"", "k9= \"v\"", "k9 =\"v\"", "[other]", "[error_code", "error_code]", "[error code]", " ", "\"v\"", "k9 : \"v\"", "; c", "// c", "k9 =", "= \"v\"", "[[error_code]]", " # c"]
REFUSED = ["k9 = v", "k9 = \"v\" # c", "k9 = \"v", "k9 = v\"", "k9 = [\"v\"]", "k 9 = \"v\"", "k0 = \"other\"", "9k = \"v\"", "k9 = ", "k9 = \"a\"b\""]


def malformed_part(c, ex, deep):
    """what the generator, or else the compiler, refuses"""
    d = os.path.join(c.dir, "malformed")
    os.makedirs(d)
    cases = []
    for m in MALFORMED:
        for before, after in itertools.product([[], ["k0 = \"x\""], ["# c", ""], ["[error_code]"], ["k0 = \"x\"", "[error_code]", CODES[0] + " = \"x\""]], [[], ["k1 = \"y\""], [""], ["# ]"]]):
            if after and after[0][0:1] == "k" and "[error_code]" in before:
                continue
            cases.append(before + [m] + after)

    def one(i, text):
        src, out = os.path.join(d, "m%d.toml" % i), os.path.join(d, "o%d" % i)
        with open(src, "w") as f:
            f.write("\n".join(text) + "\n")
        os.makedirs(out)
        hdr = os.path.join(out, "m%d.hpp" % i)
        old = i % 2 == 0
        if old:
            with open(hdr, "w") as f:
                f.write("old")
        r = cmake([src], out)
        if r.returncode == 0:
            return "is accepted"
        if old != os.path.exists(hdr) or (old and open(hdr).read() != "old"):
            return "is refused, but its header is written"

    for text, r in zip(cases, ex.map(lambda x: one(*x), list(enumerate(cases)))):
        if r:
            c.violation("malformed/" + "|".join(text), "a malformed file %s:\n%s" % (r, "\n".join(text)), file="\n".join(text))
    n = len(cases)
    # those which the compiler may have to refuse
    more = []
    for m in REFUSED + ["[error_code]", "no_such_code = \"v\""]:
        for before in (["k0 = \"x\""], ["k0 = \"x\"", "[error_code]", CODES[0] + " = \"x\""]):
            if (m == "[error_code]" or m == "no_such_code = \"v\"") and len(before) == 1:
                continue
            if m == "k0 = \"other\"" and len(before) > 1:
                continue
            more.append(before + [m])

    def two(i, text):
        src, out = os.path.join(d, "r%d.toml" % i), os.path.join(d, "q%d" % i)
        with open(src, "w") as f:
            f.write("\n".join(text) + "\n")
        r = cmake([src], out)
        if r.returncode:
            return
        prog = os.path.join(d, "r%d.cpp" % i)
        with open(prog, "w") as f:
            f.write('#include "%s/pre_20.hpp"\n#include "%s/r%d.hpp"\nusing T = arg_router::multi_lang::translation<arg_router::str<"r%d">>; T x;\n' % (c.dir, out, i, i))
        r = sh([CXX] + flags("c++20") + ["-fsyntax-only", prog])
        if r.returncode == 0:
            return "is accepted by the generator and by the compiler"

    for text, r in zip(more, ex.map(lambda x: two(*x), list(enumerate(more)))):
        if r:
            c.violation("malformed/" + "|".join(text), "a malformed file %s:\n%s" % (r, "\n".join(text)), file="\n".join(text))
    c.states += n + len(more)
    c.traces += n + len(more)
    c.transitions += n + len(more)
    c.extra["malformed_files"] = n + len(more)
    shutil.rmtree(d)


# ---- histories ----------------------------------------------------------------------------------

CONTENT = ['k0 = "x"\n', 'k0 = "x"\n\n[error_code]\nunknown_argument = "u;[v"\n', '# c\nk0 = "y"\n', "broken\n"]
HDR = ["absent", 0, 1, 2, "edited", "cut", "longer", "blank"]
LISTS = [("A",), ("B",), ("A", "B"), ("B", "A"), ("A", "A")]


def history_part(c, ex, deep):
    d = os.path.join(c.dir, "history")
    os.makedirs(d)
    # what is generated for each alone
    fresh = {}
    for n in "AB":
        for k in range(3):
            w = os.path.join(d, "fresh%s%d" % (n, k))
            os.makedirs(w)
            with open(os.path.join(w, n + ".toml"), "w") as f:
                f.write(CONTENT[k])
            r = cmake([os.path.join(w, n + ".toml")], w)
            if r.returncode:
                c.violation("history/fresh", "generator fails: " + r.stderr.decode()[:300])
                return
            fresh[n, k] = open(os.path.join(w, n + ".hpp")).read()

    def content(n, h):
        if h == "absent":
            return None
        if isinstance(h, int):
            return fresh[n, h]
        return {"edited": fresh[n, 0].replace('"x"', '"z"'), "cut": fresh[n, 1][:-1], "longer": fresh[n, 1] + "\n", "blank": ""}[h]

    seen, todo, jobs = set(), [], []
    srcs = range(4)
    hdrs = HDR if deep else HDR[:6]
    jobs = [(sa, sb, ha, hb, l) for sa in srcs for sb in srcs for ha in hdrs for hb in (hdrs if deep else HDR[:3]) for l in LISTS]

    def one(i):
        sa, sb, ha, hb, l = jobs[i]
        w = os.path.join(d, "w%d" % i)
        os.makedirs(w)
        try:
            hs = {"A": ha, "B": hb}
            ss = {"A": sa, "B": sb}
            before, old = {}, {}
            for n in "AB":
                with open(os.path.join(w, n + ".toml"), "w") as f:
                    f.write(CONTENT[ss[n]])
                before[n] = content(n, hs[n])
                if before[n] is not None:
                    p = os.path.join(w, n + ".hpp")
                    with open(p, "w") as f:
                        f.write(before[n])
                    os.utime(p, (1000000000, 1000000000))
            r = cmake([os.path.join(w, n + ".toml") for n in l], w)
            broken = [n for n in l if ss[n] == 3]
            if bool(broken) != bool(r.returncode):
                return "exit status %d" % r.returncode
            for n in "AB":
                p = os.path.join(w, n + ".hpp")
                now = open(p).read() if os.path.exists(p) else None
                touched = now is not None and os.stat(p).st_mtime != 1000000000
                want = [before[n]]
                if n in l and ss[n] != 3:
                    new = fresh[n, ss[n]]
                    want = [new] if not broken else [new, before[n]]
                if now not in want:
                    return "%s.hpp is %s" % (n, "absent" if now is None else "wrong:\n" + now)
                if now is not None and now == before[n] and touched:
                    return "%s.hpp is rewritten though nothing changed" % n
            extra = set(os.listdir(w)) - {"A.toml", "B.toml", "A.hpp", "B.hpp"}
            if extra:
                return "other files: %s" % sorted(extra)
        finally:
            shutil.rmtree(w)

    for i, r in enumerate(ex.map(one, range(len(jobs)))):
        if r:
            sa, sb, ha, hb, l = jobs[i]
            c.violation("history/%d" % i, "sources A=%d B=%d, headers A=%s B=%s, generating %s: %s" % (sa, sb, ha, hb, ",".join(l), r), state=str(jobs[i]))
    c.states += len(set(j[:4] for j in jobs))
    c.transitions += len(jobs)
    c.traces += len(jobs)
    c.extra["history_states"] = len(set(j[:4] for j in jobs))
    shutil.rmtree(d)


# ---- the CMake function -------------------------------------------------------------------------

def function_part(c, ex, deep):
    d = os.path.join(c.dir, "function")
    os.makedirs(d)
    gens = [g for g, t in (("Unix Makefiles", "make"), ("Ninja", "ninja")) if shutil.which(t)]
    jobs = [("args", g, have) for g in gens[:1] for have in itertools.product((0, 1), repeat=3)] + [("build", g, (dirs, out, n)) for g in gens for dirs in ("plain", "a dir") for out in ("out", "out/x y/z") for n in (1, 2, 3)]

    def project(w, gen, lines):
        os.makedirs(os.path.join(w, "p"))
        with open(os.path.join(w, "p", "CMakeLists.txt"), "w") as f:
            f.write("cmake_minimum_required(VERSION 3.15)\nproject(x NONE)\ninclude(%s/cmake/translation_generator/translation_generator.cmake)\n%s\n" % (REPO, lines))
        return sh(["cmake", "-G", gen, "-S", os.path.join(w, "p"), "-B", os.path.join(w, "b")])

    def one(i):
        kind, gen, x = jobs[i]
        w = os.path.join(d, "w%d" % i)
        os.makedirs(w)
        if kind == "args":
            src = os.path.join(w, "A.toml")
            with open(src, "w") as f:
                f.write(CONTENT[0])
            args = ["SOURCES \"%s\"" % src, "OUTPUT_DIR \"%s/out\"" % w, "TARGET tr"]
            r = project(w, gen, "arg_router_translation_generator(%s)" % " ".join(a for a, h in zip(args, x) if h))
            if (r.returncode == 0) != all(x):
                return "configuring: " + ("accepted" if r.returncode == 0 else r.stderr.decode()[:300])
            return
        dirs, out, n = x
        srcd, outd = os.path.join(w, dirs), os.path.join(w, out)
        os.makedirs(srcd)
        names = ["en_GB", "zz", "ja"][:n]
        state = {}

        def write(k, v):
            state[k] = v
            with open(os.path.join(srcd, k + ".toml"), "w") as f:
                f.write(CONTENT[v])

        for j, k in enumerate(names):
            write(k, j % 3)
        r = project(w, gen, "arg_router_translation_generator(SOURCES %s OUTPUT_DIR \"%s\" TARGET tr)" % (" ".join('"%s/%s.toml"' % (srcd, k) for k in names), outd))
        if r.returncode:
            return "configuring: " + r.stderr.decode()[:400]

        def want(k):
            f = os.path.join(w, "want")
            shutil.rmtree(f, ignore_errors=True)
            cmake([os.path.join(srcd, k + ".toml")], f)
            return open(os.path.join(f, k + ".hpp")).read()

        def build(what):
            r = sh(["cmake", "--build", os.path.join(w, "b"), "--target", "tr"])
            if r.returncode:
                return "%s: building fails: %s" % (what, (r.stdout + r.stderr).decode()[-400:])
            for k in names:
                p = os.path.join(outd, k + ".hpp")
                if not os.path.exists(p):
                    return "%s: %s.hpp is not there" % (what, k)
                if open(p).read() != want(k):
                    return "%s: %s.hpp is not of its file" % (what, k)

        r = build("first")
        if r:
            return r
        # every history of two changes, each followed by a build
        changes = [("write", k, v) for k in names for v in range(3)] + [("remove", k, 0) for k in names] + [("nothing", "", 0)]
        for a in changes if n < 3 else changes[::2]:
            for k in names:
                os.utime(os.path.join(outd, k + ".hpp"), (1000000000, 1000000000))
            was = {k: open(os.path.join(outd, k + ".hpp")).read() for k in names}
            if a[0] == "write":
                write(a[1], a[2])
            elif a[0] == "remove":
                os.unlink(os.path.join(outd, a[1] + ".hpp"))
            r = build("after %s %s %s" % a)
            if r:
                return r
            for k in names:
                p = os.path.join(outd, k + ".hpp")
                if not (a[0] == "remove" and a[1] == k) and (os.stat(p).st_mtime == 1000000000) != (open(p).read() == was[k]):
                    return "after %s %s %s: %s.hpp is written without need" % (a + (k,))
        r = sh(["cmake", "--build", os.path.join(w, "b"), "--target", "clean"])

    for i, r in enumerate(ex.map(one, range(len(jobs)))):
        if r:
            c.violation("function/%d" % i, "%s %s %s: %s" % (jobs[i] + (r,)), job=str(jobs[i]))
    c.states += len(jobs)
    c.transitions += len(jobs)
    c.traces += len(jobs)
    c.extra["function_projects"] = len(jobs)
    shutil.rmtree(d)


def main():
    c = Check("C26")
    c.outcome_set = set()
    deep = TIER == "thorough"
    t0 = time.time()
    for std in ("c++20", "c++17"):
        p = os.path.join(c.dir, "pre_%s.hpp" % std[-2:])
        with open(p, "w") as f:
            f.write("#pragma once\n" + PRE)
        r = sh([CXX] + flags(std) + ["-x", "c++-header", p, "-o", p + ".gch"])
        if r.returncode:
            c.violation("headers", "the library's headers do not compile: " + errors_of(r.stderr))
            return c.finish()
    with pool() as ex:
        for part in (history_part, malformed_part, function_part, lines_part, values_part):
            t = time.time()
            part(c, ex, deep)
            c.extra["%s_s" % part.__name__] = round(time.time() - t, 1)
    c.outcomes = len(c.outcome_set)
    c.extra["build_s"] = round(time.time() - t0, 1)
    c.samples = [str(dict(x))[:300] for x in list(c.outcome_set)[:40]]
    return c.finish()
