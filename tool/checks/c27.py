"""Bare strings become the documented names in any order and language mode."""

TECHNIQUE = "exhaustive enumeration of bare-string subsets and permutations as constructed nodes, and of command lines over trees built of bare strings in each language mode, against the reference model holding the documented names"
NOTE = ("Part one constructs a node of each kind (flag, counting flag, option, list option, help, positional, forwarding, mode) for every subset of {long, short, description} bare strings in "
        "every order among themselves and with one other parameter (thorough: none to three) (policies; for modes also children), over one-character names of one to five code points and names that are several "
        "characters, and compares every name accessor with the documented rule. Part two compiles whole trees in C++20 with \"\"_S, in C++17 with S_ and in C++20 with the C++20 strings disabled, "
        "their bare strings moved among the other parameters, and explores every command line up to the bound against the model that holds the documented names. Thorough adds ar::str, the same "
        "trees with explicit policies, and clang.")
import itertools, unicodedata
from core import *
import dsl
from dsl import *

# one user-perceived character each
SHORT = ["f", "\u00e9", "e\u0301", "\U0001F1E9\U0001F1EA", "\U0001F468\u200d\U0001F469\u200d\U0001F467", "\uac00", "\u1112\u1161\u11ab", "1\ufe0f\u20e3", "\u65e5", "a\u0308\u0323"]
LONG = ["foo", "e\u0301x", "\u65e5\u672c", "ab", "\U0001F1E9\U0001F1EA\U0001F1EB", "\U0001F600\U0001F600", "x1\ufe0f\u20e3", "o\u0308\u00f6"]
DESC = ["Some-text", "T\u00e4xt", "\u65e5\u672c\u8a9e\u65e5", "two words here"]


def names_of(kind, strings):
    """documented rule: returns long/none/disp, short, desc"""
    if kind in ("pos", "mode"):
        return (list(strings) + [None, None])[0], None, (list(strings) + [None, None])[1]
    multi = [s for s in strings if s not in SHORT]
    single = [s for s in strings if s in SHORT]
    return (multi + [None, None])[0], (single + [None])[0], (multi + [None, None])[1]


def interleavings(strings, rest_n):
    """all orders of the strings among themselves and with rest_n other parameters (the latter keep their order)"""
    items = [("s", x) for x in strings] + [("r", i) for i in range(rest_n)]
    seen = set()
    for p in itertools.permutations(items):
        if [x[1] for x in p if x[0] == "r"] == sorted(x[1] for x in p if x[0] == "r") and p not in seen:
            seen.add(p)
            yield p


# kind, construction, other parameters
KINDS = [("flag", "ar::flag", ["arp::runtime_enable{true}", "arp::alias(arp::long_name_t{%s})"]),
         ("flag", "ar::flag", ["arp::runtime_enable{false}"]),
         ("count", "ar::counting_flag<int>", ["arp::max_value<3>()", "arp::default_value{2}"]),
         ("arg", "ar::arg<int>", ["arp::default_value{5}", "arp::min_value<1>()"]),
         ("arg", "ar::arg<std::string>", ["arp::required", "arp::value_separator<'='>"]),
         ("marg", "ar::multi_arg<std::vector<int>>", ["arp::fixed_count<2>", "arp::required"]),
         ("help", "ar::help", ["arp::flatten_help", "arp::program_name_t{%s}"]),
         ("pos", "ar::positional_arg<std::vector<int>>", ["arp::max_count<2>", "arp::default_value{std::vector<int>{7}}"]),
         ("fwd", "ar::forwarding_arg", ["arp::max_count<2>", "arp::runtime_enable{true}"]),
         ("mode", "ar::mode", ["arp::router([](bool, bool) {})", "ar::flag(arp::long_name_t{%s})", "ar::flag(arp::short_name_t{%s})"])]


def cases(deep):
    """(kind, node expression, names the rule gives)"""
    out = []
    i = 0
    for kind, fn, others in KINDS:
        others = [o % S("zz" if "short" not in o else "z") if "%s" in o else o for o in others]
        if kind in ("pos", "mode"):
            subsets = [("l",), ("l", "d"), ("s",), ("s", "d"), ("l", "s")] if kind == "pos" else [("l",), ("l", "d"), ("l", "s"), ()]
        elif kind == "fwd":
            subsets = [("l",), ("l", "d")]
        else:
            subsets = [("l",), ("s",), ("l", "s"), ("l", "d"), ("l", "s", "d")]
        for which in subsets:
            for r in range(2 if kind == "mode" else 0, len(others) + 1) if deep else (2,) if kind == "mode" else (1,):
                for arr in interleavings(which, r):
                    i += 1
                    sub = {"l": LONG[i % len(LONG)], "s": SHORT[(i * 7 + i // 10) % len(SHORT)], "d": DESC[i % len(DESC)]}
                    strings = [sub[x[1]] for x in arr if x[0] == "s"]
                    if kind == "mode" and strings and strings[0] in SHORT:
                        continue  # a mode's name has several characters
                    name, sht, desc = names_of(kind, strings)
                    if name is not None and " " in name:
                        name2 = name.replace(" ", "_")
                        strings = [name2 if x == name else x for x in strings]
                        name = name2
                    it = iter(strings)
                    parts = [S(next(it)) if x[0] == "s" else others[x[1]] for x in arr]
                    want = {"long": None, "short": sht, "none": None, "display": None, "description": desc}
                    want[{"pos": "display", "mode": "none", "fwd": "none"}.get(kind, "long")] = name
                    out.append((kind, "%s(%s)" % (fn, ", ".join(parts)), want, sum(x[0] == "r" and "ar::flag" in others[x[1]] for x in arr)))
    return out


def program(cs, base):
    src = ['#include <arg_router/arg_router.hpp>', '#include "native.hpp"', "namespace ar = arg_router;", "namespace arp = ar::policy;", "namespace ard = ar::dependency;",
           "using namespace ar::literals;", """
template <class N>
void check(const char* expr, const N& n, const char* const (&want)[5], unsigned children)
{
    nat::at(expr);
    nat::state();
    auto one = [&](const char* what, const char* w, bool has, std::string_view got) {
        nat::step();
        if (has != (w != nullptr) || (w && got != w)) nat::bad(std::string(what) + " " + (w ? w : "(none)"), has ? std::string(got) : "(none)");
        nat::outcome(std::string(what) + (w ? w : ""));
    };
    std::string_view v[5];
    bool h[5] = {};
    if constexpr (requires { n.long_name(); }) h[0] = true, v[0] = n.long_name();
    if constexpr (requires { n.short_name(); }) h[1] = true, v[1] = n.short_name();
    if constexpr (requires { n.none_name(); }) h[2] = true, v[2] = n.none_name();
    if constexpr (requires { n.display_name(); }) h[3] = true, v[3] = n.display_name();
    if constexpr (requires { n.description(); }) h[4] = true, v[4] = n.description();
    const char* names[] = {"long name", "short name", "command name", "display name", "description"};
    for (int i = 0; i < 5; ++i) one(names[i], want[i], h[i], v[i]);
    nat::same(std::size_t(children), std::tuple_size_v<std::decay_t<decltype(n.children())>>, "children");
    if constexpr (requires { n.get_default_value(); }) {
        auto d = n.get_default_value();
        std::string s = "d";
        if constexpr (std::is_integral_v<std::decay_t<decltype(d)>>) s = std::to_string(d);
        nat::outcome(s);
    }
    nat::sample(std::string(v[0]) + "/" + std::string(v[1]) + "/" + std::string(v[2]) + std::string(v[3]) + "/" + std::string(v[4]));
}
"""]
    fs = []
    for k, (kind, expr, want, ch) in enumerate(cs):
        w = ", ".join("nullptr" if want[x] is None else lit(want[x]) for x in ("long", "short", "none", "display", "description"))
        src.append("static void f%d() { check(%s, %s, {%s}, %d); }" % (k, lit("%d: %s" % (base + k, expr)), expr, w, ch))
        fs.append("f%d();" % k)
    src.append("void explore() { %s }" % " ".join(fs))
    return "\n".join(src)


def family(st, bare):
    """trees for all syntaxes"""
    b = dict(bare=bare)
    u = "_b" if bare else ""
    t = []
    t.append(Tree("mix" + u, help_("--help", "-h", id="H", desc="Display this help", pname="prog", pver="v1.2", pintro="An introduction {}", padd="And an end", **b), flag("--ver", "-V", id="V", **b),
                  mode("one", flag("--foo", "-f", desc="A flag", **b), count("--cnt", "-c", maxv=V("i", 3), default=V("i", 0), **b), arg("i", "--num", "-\u00e9", default=V("i", 7), minv=V("i", -3), maxv=V("i", 12345), desc="A number", **b), id="O", **b),
                  mode("two", mode("sub", flag("--foo", "-f", **b), marg("v<i>", "--ll", cnt=(2, 12), desc="Two to twelve", **b), id="S", **b), desc="Modes", **b),
                  mode(arg("s", "--foo", "-f", sep="=", **b), flag("-g", **b), pos("v<s>", "REST", cnt=(0, 10), desc="The rest", **b), id="A"), st=st))
    t.append(Tree("rel" + u, mode(arg("i", "--aa", "-a", default=V("i", 1), **b), arg("i", "--bb", dep=["--aa"], default=V("i", 2), **b), arg("i", "--al", "-l", alias=["--aa", "--cc"], **b), arg("i", "--cc", "-c", default=V("i", 3), **b),
                                  flag("-d", dep=["-c", "--bb"], **b), oneof(flag("--oa", **b), arg("i", "--ob", **b), default=Val("2", "var1/i:2")), agroup(arg("i", "--ga", sep=":", **b), arg("i", "--gb", **b), default=V("i", 4)), id="A"), st=st))
    t.append(with_messages(Tree("msg" + u, mode(arg("s", "--\u65e5\u672c", "-e\u0301", err="ERR\u00e9", required=True, **b), marg("v<s>", "--list", "-l", endm=";", **b), arg("u", "--sep", sep="\u00e9", **b), pos("v<i>", "NN", endm="--", cnt=(0, 3), **b), pos("v<s>", "RR", **b), id="A"), st=st),
                           [(0, "nope {}"), (1, "too many {, } \u00e9 {unbalanced"), (2, "twice {}"), (101, "need {}"), (3, "bad {}! {}"), (9, "hm {} -> {/}")]))
    t.append(Tree("en" + u, help_("--help", id="H", **b), mode(flag("--foo", "-f", en=0, **b), arg("s", "--str", sep="=", default=V("s", "d"), en=1, **b), arg("i", "--rq", en=0, en_req=V("i", 9), **b), arg("i", "--rb", "-r", default=V("i", 3), minv=V("i", 1), ct=False, **b), id="A"), st=st))
    long = "The description of a name that is almost as long as one of these strings may be when it is built of single characters, 123456"
    assert len(long) < 128
    t.append(Tree("long" + u, help_("--help", id="H", **b), flag("--" + "a" * 60, desc=long, id="F", **b), arg("i64", "--" + "b" * 126, id="I", minv=V("i64", -2**31), maxv=V("i64", 2147483647), **b), fwd_mode(b), st=st))
    return t


def fwd_mode(b):
    return mode("mm", flag("-f", **b), fwd("--", desc="Others", cnt=(0, 3), **b), id="A")


def spread(n, i=0):
    """moves a node's bare strings among and after its other parameters, keeping their order among themselves"""
    k = sum(x is not None for x in (n.lng or n.none or n.disp, n.sht, n.desc))
    for j, c in enumerate(n.ch):
        spread(c, i + j + 1)
    if not n.bare:
        return

    def order_all(p):
        strings, rest = p[:k], p[k:]
        out = []
        while strings or rest:
            if strings and (not rest or len(out) % (i % 3 + 2) == i % 3):
                out.append(strings.pop(0))
            else:
                out.append(rest.pop(0))
        return out
    n.order_all = order_all


AL = {"mix": ["--help", "-h", "-V", "one", "two", "sub", "--foo", "-f", "-c", "-fcc", "--num", "-\u00e9", "7", "--ll", "--foo=x", "-g", "x"],
      "rel": ["--aa 1", "-a 2", "--bb 3", "--al 4", "-l 5", "-c 6", "-d", "--oa", "--ob 7", "--ga:8", "--gb 9", "--zz"],
      "msg": ["--\u65e5\u672c x", "-e\u0301 y", "--list", ";", "-l", "--sep\u00e93", "--sep", "1", "--", "z", "--\u65e5"],
      "en": ["--foo", "-f", "--str=x", "--rq 3", "-r 0", "-r 4", "--help", "--fo"],
      "long": ["--" + "a" * 60, "--" + "a" * 59, "--" + "b" * 126, "12345", "-2147483649", "mm", "-f", "--", "--help"]}


def fam_plan(bare, d):
    p = []
    for tr, al in AL.items():
        u = tr + ("_b" if bare else "")
        for cfg in range(4) if tr == "en" else (0,):
            for cols in (0, 70):
                p += helps(u, cfg=cfg, cols=cols)
            p += seq(u, al, 3 + d, cfg=cfg)
    return p


def main():
    c = Check("C27")
    d = 0 if c.quick else 1
    cs = cases(d)
    nat = []
    for cxx in ("g++", "clang++") if d else ("g++",):
        for k in range(CPUS):
            part = cs[k::CPUS]
            nat.append(Native(c, "names_%s_%d" % (cxx, k), program(part, 0), cxx=cxx, opt="-O0"))
    jobs = []
    for nm, std, st, defs, bare, cxx in (("s20", "c++20", 20, (), True, "g++"), ("t20", "c++20", 21, (), True, "g++"), ("s17", "c++17", 17, (), True, "g++"),
                                         ("d20", "c++20", 17, ("AR_DISABLE_CPP20_STRINGS=true",), True, "g++"), ("x17", "c++17", 17, (), False, "g++"), ("x20", "c++20", 20, (), False, "g++"),
                                         ("c17", "c++17", 17, (), True, "clang++"), ("c20", "c++20", 20, (), True, "clang++"), ("cd20", "c++20", 17, ("AR_DISABLE_CPP20_STRINGS=true",), True, "clang++")):
        if not d and nm not in ("s20", "s17", "d20"):
            continue
        fam = family(st, bare)
        if not d and nm != "s20":
            fam = [t for t in fam if t.id in ("mix_b", "msg_b")]
        for t in fam:
            for n in t.children:
                spread(n)
        jobs.append((Build(c, nm, fam, std=std, defines=defs, cxx=cxx, flags=["-I" + ENGINE + "/shim"] if std == "c++17" else []), fam_plan(bare, d)))
    with pool(4) as ex:
        fs = [ex.submit(n.build) for n in nat]
        gs = [ex.submit(b.build) for b, _ in jobs]
        for n, f in zip(nat, fs):
            if f.result():
                n.run(workers=1)
        for (b, plan), g in zip(jobs, gs):
            if g.result():
                ids = set(b.by_id)
                keep, p = True, []
                for line in plan:
                    if line.startswith("item "):
                        keep = line.split(" ")[2] in ids
                    if keep:
                        p.append(line)
                b.run(p)
    return c.finish()
