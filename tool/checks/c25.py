"""Invalid trees do not compile and valid ones do."""

TECHNIQUE = "exhaustive enumeration of programs: every single-rule mutation of valid trees at every place it can occur, and the valid trees, each compiled and its acceptance compared with a predicate of the documented rules"
NOTE = ("Programs are built from small valid trees (root level, anonymous, named and nested modes, one_of and alias_group in them; every node kind). Each documented rule is broken on its own at every place "
        "where it can be broken: names repeated between any two places, malformed texts, each policy added to each node kind, policies repeated, order and number of children, counts, aliases and dependencies that "
        "are unresolved, duplicated or cyclic, missing or misplaced routers, modes and validators, value types, defaults, bounds, router signatures, bare strings, messages and other parameters that do not fit. A predicate of the rules says which must be rejected and which accepted; each is decided by the compiler on "
        "the current tree (parse or help also instantiated where a rule is checked there), a disagreement is compiled again on its own. What the documentation leaves open is not generated.")
import itertools, os, re, subprocess, sys, time
from core import *

R = "arp::router{[](auto&&...) {}}"
VAL = "arp::validation::default_validator"


class N:
    """a node: kind, policies as (key, code), children"""

    def __init__(self, kind, *pol, ch=(), t=None):
        self.kind, self.pol, self.ch = kind, list(pol), list(ch)
        self.t = t or {"arg": "int", "count": "int", "marg": "std::vector<int>", "pos": "int"}.get(kind)

    def with_(self, *p):
        return N(self.kind, *(self.pol + list(p)), ch=self.ch, t=self.t)

    def without(self, k):
        return N(self.kind, *[p for p in self.pol if p[0] != k], ch=self.ch, t=self.t)

    def has(self, k):
        return any(p[0] == k for p in self.pol)

    def __str__(self):
        fn = {"flag": "ar::flag", "arg": "ar::arg", "count": "ar::counting_flag", "marg": "ar::multi_arg", "pos": "ar::positional_arg", "fwd": "ar::forwarding_arg", "help": "ar::help",
              "one": "ard::one_of", "agr": "ard::alias_group", "mode": "ar::mode", "root": "ar::root"}[self.kind]
        if self.t and self.kind in ("arg", "count", "marg", "pos"):
            fn += "<%s>" % self.t
        return "%s(%s)" % (fn, ", ".join([p[1] for p in self.pol] + [str(c) for c in self.ch]))


def txt(s):
    """a string literal for "..."_S; @ becomes the number of the case"""
    return '"%s"_S' % "".join(c if c.isascii() and c.isprintable() and c not in '"\\' else {'"': '\\"', "\\": "\\\\"}.get(c) or ("\\t" if c == "\t" else "\\n" if c == "\n" else "".join('\\%03o' % b for b in c.encode())) for c in s)


def long(s): return ("long", "arp::long_name_t{%s}" % txt(s))
def short(s): return ("short", "arp::short_name_t{%s}" % txt(s))
def none(s): return ("none", "arp::none_name_t{%s}" % txt(s))
def disp(s): return ("disp", "arp::display_name_t{%s}" % txt(s))
def err(s): return ("err", "arp::error_name_t{%s}" % txt(s))
def desc(s): return ("desc", "arp::description_t{%s}" % txt(s))
def cnt(a, b): return ("cnt", "arp::min_max_count<%d, %d>" % (a, b))
def alias(*names): return ("alias", "arp::alias(%s)" % ", ".join(n[1] for n in names))
def dep(*names): return ("dep", "arp::dependent(%s)" % ", ".join(n[1] for n in names))


REQ = ("req", "arp::required")
RT = ("router", R)
VALID = ("val", VAL)
RE = ("re", "arp::runtime_enable{true}")


def default(t="int"): return ("def", "arp::default_value<%s>{%s{}}" % (t, t))


def flag(n="--w0@", *p, ch=()): return N("flag", long(n), *p, ch=ch)
def arg(n="--a@", *p, t="int", ch=()): return N("arg", long(n), *p, t=t, ch=ch)
def count(n="--c@", *p, ch=()): return N("count", long(n), *p, ch=ch)
def marg(n="--m@", *p, c=(2, 2), t="std::vector<int>", ch=()): return N("marg", long(n), *(([cnt(*c)] if c else []) + list(p)), t=t, ch=ch)
def pos(n="P@", *p, c=(1, 1), t="int", ch=()): return N("pos", disp(n), *(([cnt(*c)] if c else []) + list(p)), t=t, ch=ch)
def fwd(n="=@", *p, ch=()): return N("fwd", none(n), *p, ch=ch)
def help_(n="--h@", *p, ch=()): return N("help", long(n), *p, ch=ch)
def one(*ch, p=(REQ,)): return N("one", *p, ch=ch)
def agr(*ch, p=(REQ,)): return N("agr", *p, ch=ch)
def mode(*ch, p=(RT,)): return N("mode", *p, ch=ch)
def named(n, *ch, p=(RT,)): return N("mode", none(n), *p, ch=ch)
def root(*ch, p=(VALID,)): return N("root", *p, ch=ch)


def long_names():
    return ["--f@", "--g@"]


# ---- where nodes can be -------------------------------------------------------------------------

def rooted(n):
    """with a router, as root children need"""
    return n if n.kind == "help" or n.has("router") else n.with_(RT)


def in_ctx(ctx, *ns):
    if ctx == "root":
        return root(*[rooted(n) for n in ns])
    if ctx == "anon":
        return root(mode(*ns))
    if ctx == "after":  # an anonymous mode after root-level options and a named mode
        return root(flag("--rf@", RT), named("other@", flag("--of@")), mode(*ns))
    if ctx == "named":
        return root(named("one@", *ns))
    if ctx == "second":
        return root(named("one@", flag("--of@")), named("two@", *ns))
    if ctx == "nest":
        return root(named("top@", named("sub@", *ns), p=()))
    if ctx == "nest2":  # the outer mode has options of its own
        return root(named("top@", flag("--tf@"), named("sub@", *ns)))
    raise KeyError(ctx)


MODES = ["anon", "named", "nest", "after", "second", "nest2"]


def in_group(g, n):
    """a group holding n and what it needs next to it"""
    t = {"flag": "bool", "arg": n.t, "count": n.t, "marg": n.t}[n.kind]
    if g == "one":
        return one(n, arg("--o@", t="double"))
    return agr(n, marg("--o@", t=t) if n.kind == "marg" else arg("--o@", t=t))


class Cases:
    def __init__(self):
        self.list = []

    def add(self, cls, tree, ok, use="", pre=""):
        """use: the members of the root to instantiate, p parse, h help"""
        self.list.append((cls, str(tree), ok, use, pre))

    def ok(self, cls, tree, use="p"):
        self.add(cls, tree, True, use)

    def bad(self, cls, tree, use=""):
        self.add(cls, tree, False, use)


# ---- names in a scope ---------------------------------------------------------------------------

CONT = ["root", "anon", "anon1", "anong", "named", "named1", "namedg", "nest", "nest1", "nestg", "other", "otherg"]
SCOPE = {c: c.rstrip("1g") for c in CONT}


def place(slots):
    """slots: container -> nodes; the smallest tree holding them"""
    def group(k, ns):
        return one(*([n for n in ns] + [arg("--go@", t="double")] + ([arg("--gs@", t="std::string")] if len(ns) < 1 else []))) if k == "1" else agr(*(ns + [arg("--gi@")]))

    def mode_children(base):
        ch = list(slots.get(base, []))
        if base + "1" in slots:
            ch.append(group("1", slots[base + "1"]))
        if base + "g" in slots:
            ch.append(group("g", slots[base + "g"]))
        return ch

    ch = [rooted(n) for n in slots.get("root", [])]
    nest, nm = mode_children("nest"), mode_children("named")
    if nest:
        ch.append(named("one@", *(nm + [named("sub@", *nest)]), p=(RT,) if nm else ()))
    elif nm:
        ch.append(named("one@", *nm))
    other = mode_children("other")
    if other:
        ch.append(named("two@", *other))
    an = mode_children("anon")
    if an:
        ch.append(mode(*an))
    return root(*ch)


def slot_node(c, i, kind=None):
    """an option for container c, policies to be added"""
    if kind is None:
        kind = "flag" if c == "root" else "arg"
    if c.endswith("1"):
        kind = "arg"
        t = ["int", "std::string"][i]
        return N("arg", t=t)
    if c.endswith("g"):
        return N("arg")
    return N(kind, *([cnt(2, 2)] if kind == "marg" else []))


def names(c, deep):
    for ca, cb in itertools.combinations_with_replacement(CONT, 2):
        same = SCOPE[ca] == SCOPE[cb]
        for what in ("long", "short", "both"):
            mk = {"long": lambda x: [long("--x@")], "short": lambda x: [short("x"), long("--%s@" % x)], "both": lambda x: [long("--x@"), short("x")]}[what]
            a, b = slot_node(ca, 0).with_(*mk("aa")), slot_node(cb, 1).with_(*mk("bb"))
            if ca == cb:
                slots = {ca: [a, b]}
            else:
                slots = {ca: [a], cb: [b]}
            # quick: names in different scopes with one policy for each pair of places
            if not same and not deep and ("long", "short", "both")[(CONT.index(ca) + CONT.index(cb)) % 3] != what:
                continue
            if same and what == "both" and not deep and ca != cb:
                continue
            c.add("names/%s/%s-%s" % (what, ca, cb), place(slots), not same)
    # every pair of kinds in a mode, identical or not, next to each other or not
    kinds = ["flag", "arg", "count", "marg"]
    for ka, kb in itertools.product(kinds, repeat=2):
        for what in ("long", "short"):
            mk = (lambda x: [long("--x@")]) if what == "long" else (lambda x: [short("x"), long("--%s@" % x)])
            for between in ((), (flag("--z@"),)):
                for ctx in (["anon", "nest"] if deep else ["anon"] if between else ["named"]):
                    ch = [slot_node("anon", 0, ka).with_(*mk("aa"))] + list(between) + [slot_node("anon", 0, kb).with_(*mk("bb"))]
                    c.bad("names/%s/kinds/%s-%s/%s%s" % (what, ka, kb, ctx, "/apart" if between else ""), in_ctx(ctx, *ch))
    for ka, kb in itertools.product(["flag", "arg", "help"], repeat=2):
        a, b = [slot_node("root", 0, k).with_(long("--x@")) for k in (ka, kb)]
        c.bad("names/long/root/%s-%s" % (ka, kb), root(rooted(a), rooted(b), mode(flag("--q@"))))
        if (ka, kb) != ("help", "help"):
            a, b = [slot_node("root", 0, k).with_(long("--x%s@" % s)) for k, s in ((ka, "a"), (kb, "b"))]
            c.ok("names/long/root/%s-%s" % (ka, kb), root(rooted(a), rooted(b), mode(flag("--q@"))))
    # mode names
    f = lambda i: flag("--f%d@" % i)
    c.bad("names/mode/siblings", root(named("m@", f(1)), named("m@", f(2))))
    c.bad("names/mode/siblings identical", root(named("m@", f(1)), named("m@", f(1))))
    c.bad("names/mode/siblings apart", root(named("m@", f(1)), named("n@", f(1)), named("m@", f(2))))
    c.bad("names/mode/nested siblings", root(named("t@", named("m@", f(1)), named("m@", f(2)), p=())))
    c.bad("names/mode/nested siblings with options", root(named("t@", f(0), named("m@", f(1)), named("n@", f(1)), named("m@", f(2)))))
    c.bad("names/mode/deep siblings", root(named("s@", named("t@", named("m@", f(1)), named("m@", f(2)), p=()), p=())))
    c.ok("names/mode/different", root(named("m@", f(1)), named("n@", f(1)), mode(f(1))))
    c.ok("names/mode/same in different modes", root(named("m@", named("x@", f(1)), p=()), named("n@", named("x@", f(1)), p=())))
    c.ok("names/mode/same as its parent", root(named("m@", named("m@", f(1)), p=()), named("n@", f(1))))
    c.ok("names/mode/same as its parent's sibling", root(named("m@", named("n@", f(1)), p=()), named("n@", f(1))))
    c.ok("names/mode/same as an option", root(named("m@", flag("m@"))))
    c.bad("names/none/forwarding and mode", root(named("t@", fwd("m@", cnt(2, 2)), named("m@", f(1)))))
    c.bad("names/none/two forwarding", root(mode(fwd("m@", cnt(2, 2)), fwd("m@", cnt(1, 1)))))
    c.ok("names/none/two forwarding", root(mode(fwd("m@", cnt(2, 2)), fwd("n@", cnt(1, 1)))))
    c.ok("names/display/same", root(mode(pos("P@"), pos("P@", c=(2, 2), t="std::vector<int>"))))
    c.ok("names/short of one is the long prefix of another", root(mode(N("flag", short("x")), flag("xx@"), flag("xy@"))))
    c.ok("names/long begins another", root(mode(flag("ab@"), flag("ab@c"))))


# ---- texts --------------------------------------------------------------------------------------

WHITE = [0x9, 0xA, 0xB, 0xC, 0xD, 0x20, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
NOT_WHITE = [0x21, 0x7F, 0x84, 0x86, 0xA1, 0x180E, 0x200B, 0x200C, 0x2060, 0x2030, 0x3001, 0xFEFF, 0x1F600]


def texts(c, deep):
    def one_(cls, key, s, ok):
        n = {"long": lambda: in_ctx("anon", N("flag", long(s))), "short": lambda: in_ctx("anon", N("flag", short(s))), "none": lambda: root(named(s, flag())), "fwd": lambda: in_ctx("anon", fwd(s)),
             "disp": lambda: in_ctx("anon", pos(s)), "err": lambda: in_ctx("anon", flag("--f@", err(s))), "desc": lambda: in_ctx("anon", flag("--f@", desc(s))),
             "end": lambda: in_ctx("anon", N("marg", long("--m@"), cnt(1, 3), ("end", "arp::token_end_marker_t{%s}" % txt(s)))),
             "sep": lambda: in_ctx("anon", arg("--a@", ("sep", "arp::value_separator_t{%s}" % txt(s)))),
             "pname": lambda: root(help_("--h@", ("pname", "arp::program_name_t{%s}" % txt(s)))), "pver": lambda: root(help_("--h@", ("pver", "arp::program_version_t{%s}" % txt(s)))),
             "pint": lambda: root(help_("--h@", ("pint", "arp::program_intro_t{%s}" % txt(s)))), "padd": lambda: root(help_("--h@", ("padd", "arp::program_addendum_t{%s}" % txt(s))))}[key]()
        c.add("text/%s/%s" % (key, cls), n, ok)

    for key in ("long", "none", "fwd", "end", "pname"):
        for i, w in enumerate(WHITE):
            for j, s in enumerate(("@%c@" % w, "%c@x" % w, "x@%c" % w)):
                # quick: every white space in a long name at one of the places, the others for one place each
                if deep or (key == "long" and j == i % 3) or (key == "none" and j == (i + 1) % 3) or (i * 3 + j) % 29 == 7:
                    one_("white space %x at %d" % (w, j), key, s, False)
        for w in NOT_WHITE:
            if deep or key == "long":
                one_("no white space %x" % w, key, "@%c@" % w, True)
    for w in WHITE:
        one_("white space %x" % w, "sep", chr(w), False)
    for s in ("::@", "a@", ""):
        one_("not one character %r" % s, "sep", s, False)
    for ch in ("=", "\u00e9", "e\u0301", "\U0001F600", "-"):
        one_("one character %r" % ch, "sep", ch, True)
    for s in ("", "x", "\u00e9", "e\u0301", "\U0001F1E9\U0001F1EA"):
        for key in ("long", "none", "fwd", "pname", "pver", "pint", "padd"):
            if deep or s == "x" or key in ("long", "none") or (key == "pname" and s == "e\u0301"):
                one_("short text %r" % s, key, s, False)
    for s in ("", "xy@", "\u00e9\u00e9@", "--", "xe\u0301", "\U0001F1E9\U0001F1EA\U0001F1EB", "\u3042\u3044"):
        one_("not one character %r" % s, "short", s, False)
    for s in ("x", "\u00e9", "e\u0301", "\U0001F1E9\U0001F1EA", "\uac00", "1\ufe0f\u20e3"):
        one_("one character %r" % s, "short", s, True)
    one_("the prefix with itself is the long prefix", "short", "-", False)
    for key in ("disp", "err", "desc", "end"):
        one_("empty", key, "", False)
        if key != "end":
            for s in ("x", "two words @", "\u00e9@"):
                one_("text %r" % s, key, s, True)
    for key in ("long", "none", "pname", "pver", "pint", "padd"):
        one_("two characters", key, "xy", True)
        one_("other characters", key, "-\"'\\{}%$@", True)
    # tabs in descriptions, found when help is made
    for where, tr in (("anon", lambda n: in_ctx("anon", n)), ("named", lambda n: in_ctx("named", n)), ("nest", lambda n: in_ctx("nest", n)), ("one", lambda n: in_ctx("anon", in_group("one", n))),
                      ("agr", lambda n: in_ctx("named", in_group("agr", n)))):
        for s in ("\ta@", "a\tb@", "a@\t"):
            if deep or s[0] == "a":
                t = tr(arg("--f@", desc(s)))
                t.ch.insert(0, help_("--h@", ("flat", "arp::flatten_help")))
                c.bad("text/desc/tab/%s %r" % (where, s), t, "h")
        t = tr(arg("--f@", desc("a b@")))
        t.ch.insert(0, help_("--h@", ("flat", "arp::flatten_help")))
        c.ok("text/desc/no tab/%s" % where, t, "h")


# ---- policies on nodes --------------------------------------------------------------------------

def policies(t):
    """key -> (code, another of the same kind); t is the value type"""
    t = t or "int"
    scalar = t in ("int", "bool")
    return {
        "long": (long("--zz@")[1], long("--zy@")[1]), "short": (short("z")[1], short("y")[1]), "none": (none("zz@")[1], none("zy@")[1]), "disp": (disp("Z@")[1], disp("Y@")[1]),
        "err": (err("E@")[1], err("F@")[1]), "desc": (desc("D@")[1], desc("E@")[1]), "req": ("arp::required", "arp::required"), "def": (default(t)[1], default(t)[1]),
        "router": (R, R), "alias": (alias(long("--f@"))[1], alias(long("--g@"))[1]), "dep": (dep(long("--f@"))[1], dep(long("--g@"))[1]),
        "custom": ("arp::custom_parser<int>{[](std::string_view) { return 1; }}",) * 2,
        "minmax": ("arp::min_max_value<1, 3>()", "arp::min_max_value<1, 4>()"), "minv": ("arp::min_value<1>()", "arp::min_value<2>()"), "maxrt": ("arp::max_value(5)", "arp::max_value(6)"),
        "cnt": ("arp::min_max_count<2, 2>", "arp::min_max_count<3, 3>"), "cntv": ("arp::min_max_count<1, 3>", "arp::min_max_count<2, 3>"), "maxc": ("arp::max_count<2>", "arp::max_count<3>"),
        "sep": ("arp::value_separator_t{\"=\"_S}", "arp::value_separator_t{\":\"_S}"), "sfe": ("arp::short_form_expander",) * 2, "end": ("arp::token_end_marker_t{\";@\"_S}", "arp::token_end_marker_t{\":@\"_S}"),
        "re": ("arp::runtime_enable{true}",) * 2, "rr": ("arp::runtime_enable_required{true, %s{}}" % (t or "int"),) * 2, "nrv": ("arp::no_result_value<>{}",) * 2,
        "msv": ("arp::multi_stage_value<%s, bool>{[](auto&, bool&&) {}}" % (t or "int"),) * 2, "val": (VAL, VAL), "xt": ("arp::exception_translator_t<xt_@>{}", "arp::exception_translator_t<xt_@>{}"),
        "pname": ("arp::program_name_t{\"prog@\"_S}", "arp::program_name_t{\"gorp@\"_S}"), "pver": ("arp::program_version_t{\"ver@\"_S}", "arp::program_version_t{\"rev@\"_S}"),
        "pint": ("arp::program_intro_t{\"int@\"_S}",) * 2, "padd": ("arp::program_addendum_t{\"add@\"_S}",) * 2, "flat": ("arp::flatten_help", "arp::flatten_help"),
        "fmt": ("arp::default_help_formatter", "arp::default_help_formatter"), "col": ("arp::colour_help_formatter", "arp::colour_help_formatter"),
    }


# kind -> key -> A accept, R reject when constructed, P reject when parse is instantiated; absent: the documentation does not say
_names3 = {"none": "R", "disp": "R"}
_nonroot = {"xt": "R"}
TABLE = {
    "flag": {**_names3, **_nonroot, "short": "A", "err": "A", "desc": "A", "req": "R", "def": "R", "alias": "A", "dep": "A", "custom": "R", "minmax": "R", "minv": "R", "maxrt": "R", "cnt": "R", "cntv": "R", "maxc": "R", "sep": "P",
             "end": "P", "re": "A", "nrv": "R", "msv": "R", "val": "R"},
    "arg": {**_names3, **_nonroot, "short": "A", "err": "A", "desc": "A", "req": "A", "def": "A", "alias": "A", "dep": "A", "custom": "A", "minmax": "A", "minv": "A", "maxrt": "A", "cnt": "R", "cntv": "R", "maxc": "R", "sep": "A",
            "sfe": "P", "end": "P", "re": "A", "rr": "A", "nrv": "R", "msv": "R", "val": "R"},
    "count": {**_names3, **_nonroot, "short": "A", "err": "A", "desc": "A", "req": "R", "def": "A", "alias": "A", "dep": "A", "custom": "R", "minmax": "A", "minv": "A", "maxrt": "A", "cnt": "R", "cntv": "R", "maxc": "R", "sep": "P",
              "end": "P", "re": "A", "nrv": "R", "msv": "R", "val": "R"},
    "marg": {**_names3, **_nonroot, "short": "A", "err": "A", "desc": "A", "req": "A", "def": "A", "alias": "A", "dep": "A", "cnt": "A", "cntv": "A", "sep": "P",
             "sfe": "P", "end": "P", "re": "A", "rr": "A", "nrv": "R", "msv": "R", "val": "R", "router": "R"},
    "pos": {"long": "R", "short": "R", "none": "R", **_nonroot, "err": "A", "desc": "A", "req": "A", "def": "A", "alias": "R", "custom": "A", "minmax": "A", "minv": "A", "maxrt": "A",
            "sfe": "P", "end": "P", "re": "A", "rr": "A", "nrv": "R", "msv": "R", "val": "R", "router": "R"},
    "fwd": {"long": "R", "short": "R", "disp": "R", **_nonroot, "err": "A", "desc": "A", "cnt": "A", "cntv": "A", "sep": "P", "sfe": "P", "re": "A", "nrv": "R", "msv": "R", "val": "R", "router": "R"},
    "help": {**_names3, **_nonroot, "short": "A", "desc": "A", "req": "R", "def": "R", "custom": "R", "minmax": "R", "minv": "R", "maxrt": "R", "cnt": "R", "cntv": "R", "sfe": "R", "re": "R", "nrv": "R", "msv": "R", "val": "R",
             "router": "A", "pname": "A", "pver": "A", "pint": "A", "padd": "A", "flat": "A", "fmt": "A", "col": "A"},
    "one": {"long": "R", "short": "R", "none": "R", "desc": "R", **_nonroot, "def": "R", "router": "R", "alias": "R", "dep": "R", "custom": "R", "cnt": "R", "cntv": "R", "sep": "R", "sfe": "R", "end": "R", "re": "R", "nrv": "R",
            "msv": "R", "val": "R"},
    "agr": {"long": "R", "short": "R", "none": "R", "desc": "R", **_nonroot, "def": "R", "router": "R", "alias": "R", "dep": "R", "custom": "R", "cnt": "R", "cntv": "R", "sep": "R", "sfe": "R", "end": "R", "re": "R", "nrv": "R",
            "val": "R", "minmax": "A", "minv": "A"},
    "mode": {"long": "R", "short": "R", "disp": "R", **_nonroot, "req": "R", "def": "R", "alias": "R", "dep": "R", "custom": "R", "minmax": "R", "minv": "R", "maxrt": "R", "re": "A", "rr": "R", "msv": "R"},
    "root": {"long": "R", "short": "R", "none": "R", "disp": "R", "err": "R", "desc": "R", "req": "R", "def": "R", "router": "R", "alias": "R", "dep": "R", "custom": "R", "minmax": "R", "minv": "R", "maxrt": "R", "cnt": "R",
             "cntv": "R", "sep": "R", "sfe": "R", "end": "R", "re": "R", "rr": "R", "nrv": "R", "msv": "R", "xt": "A"},
}
LEAF = {"flag": flag, "arg": arg, "count": count, "marg": marg, "pos": pos, "fwd": fwd}


def leaf(kind, key=None):
    n = LEAF[kind]()
    if key in ("cnt", "cntv", "maxc") and kind in ("marg", "pos"):
        n = n.without("cnt")
    return n


def node_places(kind):
    """name, wrapper"""
    out = []
    if kind in ("flag", "arg", "help"):
        out.append(("root", lambda n: root(flag("--f@", RT), flag("--g@", RT), rooted(n), mode(flag("--q@")))))
    if kind != "help":
        for ctx in MODES:
            out.append((ctx, lambda n, ctx=ctx: in_ctx(ctx, flag("--f@"), flag("--g@"), n)))
    if kind in ("flag", "arg", "marg"):
        for ctx in ("anon", "nest"):
            out.append((ctx + "/one", lambda n, ctx=ctx: in_ctx(ctx, flag("--f@"), flag("--g@"), in_group("one", n))))
    if kind in ("flag", "arg", "marg", "count"):
        for ctx in ("named", "nest2"):
            out.append((ctx + "/agr", lambda n, ctx=ctx: in_ctx(ctx, flag("--f@"), flag("--g@"), in_group("agr", n))))
    return out


def verdict(kind, key, place):
    v = TABLE[kind].get(key)
    root_level, grp = place == "root", "/" in place
    if key == "router" and kind in ("flag", "arg"):
        return None if root_level else "R" if not grp else None
    if key == "router" and kind == "count":
        return "R"
    if root_level and kind != "help" and key in ("req", "alias"):
        return "R"
    if key == "req" and root_level:
        return "R"
    if root_level and key == "dep" and v == "A":
        return None  # what it may depend on there is not documented
    if grp and key in ("req", "def"):
        return "R"
    if grp and key in ("rr", "re", "alias") and v == "A":
        return None
    if place.endswith("agr") and kind == "count" and key in ("minmax", "minv", "maxrt"):
        return "R"
    return v


def on_nodes(c, deep):
    for kind in list(LEAF) + ["help"]:
        n0 = help_() if kind == "help" else LEAF[kind]()
        ps = policies({"flag": "bool", "fwd": "std::vector<std::string_view>", "help": None}.get(kind, n0.t))
        for i, (key, (code, other)) in enumerate(ps.items()):
            places = node_places(kind)
            for j, (place, w) in enumerate(places):
                v = verdict(kind, key, place)
                if v is None:
                    continue
                # quick: one place for each, and each where the place decides
                if not deep and (i + j) % len(places) and (v == TABLE[kind].get(key) or j % 2):
                    continue
                n = (help_() if kind == "help" else leaf(kind, key))
                if n.has(key):
                    continue
                # an alias stands for what has as many values
                if key == "alias" and v == "A" and kind in ("arg", "marg"):
                    t = w(n.with_(("alias", alias(long("--al@"))[1])))
                    insert_first(t, arg("--al@") if kind == "arg" else marg("--al@"))
                    c.ok("policy/%s/%s/%s" % (kind, key, place), t)
                    continue
                if key == "alias" and v == "A" and kind == "count":
                    v = "A"
                c.add("policy/%s/%s/%s" % (kind, key, place), w(n.with_((key, code))), v == "A", "p" if v in "AP" else "")
                if v == "A" and (deep or kind != "help" and (i + len(kind)) % 2):
                    c.bad("twice/%s/%s/%s" % (kind, key, place), w(n.with_((key, code), (key, other))))
        # what every node has already, twice
        for j, (place, w) in enumerate(node_places(kind)):
            if not deep and j % 3:
                continue
            if kind in ("flag", "arg", "count", "marg", "help"):
                c.bad("twice/%s/long/%s" % (kind, place), w(n0.with_(long("--second@"))))
                c.bad("policy/%s/no name/%s" % (kind, place), w(n0.without("long")))
                c.ok("policy/%s/only short name/%s" % (kind, place), w(n0.without("long").with_(short("s"))))
            elif kind == "pos":
                c.bad("twice/pos/disp/%s" % place, w(n0.with_(disp("Second@"))))
                c.bad("policy/pos/no name/%s" % place, w(n0.without("disp")))
                c.bad("twice/pos/cnt/%s" % place, w(n0.with_(cnt(2, 2))))
            else:
                c.bad("twice/fwd/none/%s" % place, w(n0.with_(none("second@"))))
                c.bad("policy/fwd/no name/%s" % place, w(n0.without("none")))
            c.ok("valid/%s/%s" % (kind, place), w(n0))
            if kind not in ("fwd",):
                c.bad("children/%s/%s" % (kind, place), w(N(n0.kind, *n0.pol, ch=[flag("--inner@")], t=n0.t)))
            else:
                c.bad("children/%s/%s" % (kind, place), w(N(n0.kind, *n0.pol, ch=[flag("--inner@")])))
            # which do not go together
            if kind in ("arg", "marg", "pos") and "/" not in place and place != "root":
                c.bad("together/required default/%s/%s" % (kind, place), w(n0.with_(REQ, default(n0.t))))
                c.bad("together/default required/%s/%s" % (kind, place), w(n0.with_(default(n0.t), REQ)))
                c.bad("together/required runtime_enable/%s/%s" % (kind, place), w(n0.with_(REQ, RE)), "p")
    # groups and modes and the root
    for g, mk in (("one", lambda p: one(flag("--x@"), arg("--y@"), p=p)), ("agr", lambda p: agr(arg("--x@"), arg("--y@"), p=p))):
        ps = policies("int")
        for i, (key, (code, other)) in enumerate(ps.items()):
            v = TABLE[g].get(key)
            if v is None:
                continue
            for j, ctx in enumerate(MODES):
                if not deep and (i + j) % len(MODES):
                    continue
                c.add("policy/%s/%s/%s" % (g, key, ctx), in_ctx(ctx, flag("--f@"), mk((REQ, (key, code)))), v == "A", "p" if v == "A" else "")
                if v == "A":
                    c.bad("twice/%s/%s/%s" % (g, key, ctx), in_ctx(ctx, flag("--f@"), mk((REQ, (key, code), (key, other)))))
        for ctx in MODES if deep else ("anon", "nest2"):
            c.bad("group/%s/no missing phase/%s" % (g, ctx), in_ctx(ctx, mk(())))
            c.ok("valid/%s/%s" % (g, ctx), in_ctx(ctx, mk((REQ,))))
            if g == "agr":
                c.ok("valid/%s/default/%s" % (g, ctx), in_ctx(ctx, mk((default("int"),))))
            c.bad("group/%s/required twice/%s" % (g, ctx), in_ctx(ctx, mk((REQ, REQ))))
    ps = policies(None)
    for i, (key, (code, other)) in enumerate(ps.items()):
        v = TABLE["mode"].get(key)
        wraps = [("anon", lambda p: root(flag("--f@", RT), mode(flag("--q@"), p=(RT, p)))), ("named", lambda p: root(flag("--f@", RT), named("m@", flag("--q@"), p=(RT, p)))),
                 ("nested", lambda p: root(named("t@", flag("--f@"), named("m@", flag("--q@"), p=(RT, p))))), ("outer", lambda p: root(named("t@", named("m@", flag("--q@")), p=(p,))))]
        if v:
            for j, (nm, w) in enumerate(wraps):
                if deep or (i + j) % 4 in (0, 1):
                    c.add("policy/mode/%s/%s" % (key, nm), w((key, code)), v == "A", "p" if v == "A" else "")
        v = TABLE["root"].get(key)
        if v:
            c.add("policy/root/%s" % key, root(flag("--f@", RT), mode(flag("--q@")), p=(VALID, (key, code))), v == "A", "p" if v == "A" else "")
    c.bad("mode/anonymous with description", root(mode(flag(), p=(RT, desc("D@")))))
    c.ok("mode/named with description", root(named("m@", flag(), p=(RT, desc("D@")))))
    c.ok("mode/nested with description", root(named("m@", named("n@", flag(), p=(RT, desc("D@"))), p=())))
    c.bad("mode/named with error name", root(named("m@", flag(), p=(RT, err("D@")))))
    c.bad("mode/nested with error name", root(named("m@", named("n@", flag(), p=(RT, err("D@"))), p=())))
    c.ok("mode/anonymous with error name", root(mode(flag(), p=(RT, err("D@")))))
    c.bad("mode/two names", root(named("m@", flag(), p=(RT, none("n@")))))
    c.bad("mode/two routers", root(named("m@", flag(), p=(RT, RT))))


def insert_first(t, n):
    """puts n into the (innermost) mode holding --f@"""
    for x in t.ch:
        if x.kind == "flag" and x.pol[0] == long("--f@"):
            t.ch.insert(0, rooted(n) if t.kind == "root" else n)
            return True
    return any(insert_first(x, n) for x in t.ch)


# ---- structure ----------------------------------------------------------------------------------

def structure(c, deep):
    f = lambda i=0: flag("--f%d@" % i)
    # routers
    c.bad("router/root flag without", root(flag("--x@")))
    c.bad("router/root arg without", root(flag("--y@", RT), arg("--x@")))
    c.bad("router/root arg without, before a mode", root(arg("--x@"), mode(f())))
    c.bad("router/root counting flag", root(count("--x@", RT)))
    c.bad("router/root list", root(marg("--x@", RT)))
    c.bad("router/root list without", root(marg("--x@")))
    c.bad("router/root positional", root(pos("P@")))
    c.ok("router/root flag with", root(flag("--x@", RT)))
    c.ok("router/root arg with", root(arg("--x@", RT), flag("--y@", RT)))
    c.bad("router/anonymous mode without", root(mode(f(), p=())), "p")
    c.bad("router/named mode without", root(named("m@", f(), p=())), "p")
    c.bad("router/nested mode without", root(named("t@", named("m@", f(), p=()), p=())), "p")
    c.bad("router/outer mode with options without", root(named("t@", f(), named("m@", f()), p=())), "p")
    c.ok("router/outer mode without options without", root(named("t@", named("m@", f()), p=())))
    for kind in ("flag", "arg"):
        for ctx in MODES:
            if deep or kind == "flag":
                c.bad("router/%s in mode %s" % (kind, ctx), in_ctx(ctx, flag("--z@"), LEAF[kind]().with_(RT)))
                c.bad("router/first %s in mode %s" % (kind, ctx), in_ctx(ctx, LEAF[kind]().with_(RT), flag("--z@")))
    # no or misplaced children
    c.bad("children/empty root", root())
    c.bad("children/root without validator", N("root", ch=[mode(f())]))
    c.bad("children/root with two validators", root(mode(f()), p=(VALID, VALID)))
    c.bad("children/empty anonymous mode", root(mode()))
    c.bad("children/empty named mode", root(named("m@")))
    c.bad("children/empty nested mode", root(named("t@", named("m@"), p=())))
    c.bad("children/empty second mode", root(named("m@", f()), named("n@")))
    for ctx in MODES:
        c.bad("children/help in mode %s" % ctx, in_ctx(ctx, f(), help_()))
    c.bad("children/root in root", root(root(mode(f()))))
    c.bad("children/root in mode", root(mode(root(mode(f())))))
    # modes
    c.bad("modes/anonymous in anonymous", root(mode(mode(f()))), "p")
    c.bad("modes/named in anonymous", root(mode(named("m@", f()))))
    c.bad("modes/named in anonymous with options", root(mode(f(), named("m@", f()))))
    c.bad("modes/anonymous in named", root(named("m@", mode(f()), p=())), "p")
    c.bad("modes/anonymous in named with options", root(named("m@", f(1), mode(f()))), "p")
    c.bad("modes/anonymous in nested", root(named("t@", named("m@", mode(f()), p=()), p=())), "p")
    c.bad("modes/two anonymous", root(mode(f()), mode(f(1))))
    c.bad("modes/two anonymous alike", root(mode(f()), mode(f())))
    c.bad("modes/two anonymous apart", root(mode(f()), named("m@", f()), mode(f(1))))
    c.bad("modes/three anonymous", root(mode(f()), mode(f(1)), mode(f(2))))
    c.bad("modes/anonymous before flag", root(mode(f()), flag("--r@", RT)))
    c.bad("modes/anonymous before help", root(mode(f()), help_()))
    c.bad("modes/anonymous before arg", root(help_(), mode(f()), arg("--r@", RT)))
    c.bad("modes/named before flag and anonymous", root(named("m@", f()), flag("--r@", RT), mode(f())))
    c.bad("modes/anonymous before named", root(mode(f()), named("m@", f())))
    c.bad("modes/anonymous between named", root(named("n@", f()), mode(f()), named("m@", f())))
    c.bad("modes/option, anonymous, named", root(flag("--r@", RT), mode(f()), named("m@", f())))
    c.ok("modes/anonymous last", root(flag("--r@", RT), help_(), named("m@", f()), named("n@", f()), mode(f())))
    c.ok("modes/anonymous only", root(mode(f())))
    c.ok("modes/no anonymous", root(named("m@", f()), named("n@", f())))
    c.ok("modes/no anonymous, options after", root(named("m@", f()), flag("--r@", RT)))
    c.ok("modes/only options", root(flag("--r@", RT), help_()))
    c.ok("modes/three deep", root(named("m@", f(), named("n@", f(), named("o@", f())))))
    # groups
    for g in (one, agr):
        nm = g.__name__
        t2 = "int" if g is agr else "double"
        for ctx in MODES if deep else ("anon", "nest2"):
            c.bad("group/%s/no child/%s" % (nm, ctx), in_ctx(ctx, g()))
            c.bad("group/%s/one child/%s" % (nm, ctx), in_ctx(ctx, g(arg("--x@"))))
            c.ok("group/%s/two/%s" % (nm, ctx), in_ctx(ctx, g(arg("--x@"), arg("--y@", t=t2))))
            c.ok("group/%s/three/%s" % (nm, ctx), in_ctx(ctx, g(arg("--x@"), arg("--y@", t=t2), arg("--z@", t="int" if g is agr else "std::string"))))
            for g2 in (one, agr):
                c.bad("group/%s in %s/%s" % (g2.__name__, nm, ctx), in_ctx(ctx, g(arg("--x@"), g2(arg("--y@"), arg("--z@", t="int" if g2 is agr else "double")))))
        c.bad("group/%s/root level" % nm, root(g(arg("--x@"), arg("--y@", t=t2))))
        c.bad("group/%s/root level with router" % nm, root(g(arg("--x@"), arg("--y@", t=t2), p=(REQ, RT)), flag("--f@", RT)))
        # policies that only some of the children have
        for n in (2, 3):
            for which in itertools.product((0, 1), repeat=n):
                for key in ("req", "def"):
                    if not deep and (key == "def" and n == 3):
                        continue
                    ch = [arg("--x%d@" % i, t=["int", "int", "int"][i] if g is agr else ["int", "double", "std::string"][i]) for i in range(n)]
                    ch = [x.with_(REQ if key == "req" else default(x.t)) if w else x for x, w in zip(ch, which)]
                    c.add("group/%s/children %s %s" % (nm, key, which), in_ctx("anon" if n == 2 else "nest", g(*ch)), not any(which))
    c.ok("group/one/flag and arg", in_ctx("anon", one(flag("--x@"), arg("--y@"))))
    c.ok("group/agr/flag and bool", in_ctx("anon", agr(flag("--x@"), arg("--y@", t="bool"))))
    for ctx in MODES if deep else ("named",):
        for a, b in (("int", "double"), ("int", "std::string"), ("bool", "int")):
            c.bad("group/agr/types %s %s/%s" % (a, b, ctx), in_ctx(ctx, agr(arg("--x@", t=a), arg("--y@", t=b))))
            c.bad("group/agr/third type %s %s/%s" % (a, b, ctx), in_ctx(ctx, agr(arg("--x@", t=a), arg("--y@", t=a), arg("--z@", t=b))))
        c.bad("group/one/counting flag/%s" % ctx, in_ctx(ctx, one(count("--x@"), arg("--y@", t="double"))))
        c.bad("group/one/counting flag last/%s" % ctx, in_ctx(ctx, one(arg("--y@", t="double"), flag("--z@"), count("--x@"))))
        c.ok("group/agr/counting flag/%s" % ctx, in_ctx(ctx, agr(count("--x@"), arg("--y@"))))
        for b in ("arp::min_max_value<1, 3>()", "arp::min_value<1>()", "arp::max_value(3)"):
            c.bad("group/agr/bounded counting flag %s/%s" % (b, ctx), in_ctx(ctx, agr(count("--x@", ("b", b)), arg("--y@"))))
            c.bad("group/agr/bounded counting flag last %s/%s" % (b, ctx), in_ctx(ctx, agr(arg("--y@"), count("--x@", ("b", b)))))
    # at most some of the root's children
    for n in (1, 2, 3):
        for which in itertools.product((0, 1), repeat=n):
            for key in ("req", "alias"):
                ch = [arg("--x%d@" % i, RT) if key == "req" else flag("--x%d@" % i, RT) for i in range(n)]
                ch = [x.with_(REQ if key == "req" else alias(long("--q@"))) if w else x for x, w in zip(ch, which)]
                if any(which):
                    c.bad("root/children %s %s" % (key, which), root(*(ch + [mode(flag("--q@"))])))
    # positionals
    P = lambda i=0, **k: pos("P%d@" % i, **k)
    V = lambda i=0: pos("V%d@" % i, c=None, t="std::vector<int>")
    bad = {"pos flag": [P(), f()], "flag pos flag": [f(), P(), f(1)], "pos arg": [P(), arg()], "pos marg": [P(), marg()], "pos count": [P(), count()], "pos pos flag": [P(), P(1, c=(2, 2), t="std::vector<int>"), f()],
           "pos flag pos": [P(), f(), P(1, c=(2, 2), t="std::vector<int>")], "pos group": [P(), one(flag("--x@"), arg("--y@"))], "pos mode": [P(), named("pm@", f())],
           "pos fwd": [P(), fwd("=@", cnt(2, 2))],
           "var pos, fixed pos": [V(), P()], "var pos, var pos": [V(), V(1)], "var pos var pos fixed": [V(), V(1), P()], "var list, flag": [marg(c=(1, 3)), f()], "flag, var list, flag": [f(), marg(c=(1, 3)), f(1)],
           "var list, var list": [marg(c=(1, 3)), marg("--n@", c=(1, 2))], "var list, var pos": [marg(c=(1, 3)), V()], "var list, fixed pos": [marg(c=(1, 3)), P()], "fwd, flag": [fwd(), f()], "fwd, var pos": [fwd(), V()],
           "fwd, list": [fwd(), marg()], "var list, fwd": [marg(c=(1, 3)), fwd()], "bounded pos, pos": [pos("B@", c=(1, 2), t="std::vector<int>"), P()], "pos from zero, pos": [pos("B@", c=(0, 1), t="std::vector<int>"), P()]}
    good = {"flag pos": [f(), P()], "pos only": [P()], "pos pos": [P(), P(1, c=(2, 2), t="std::vector<int>")], "fixed pos, var pos": [f(), P(), V()], "var pos": [f(), V()], "var list last": [f(), arg(), marg(c=(1, 3))],
            "fixed list first": [marg(), f(), marg("--n@", c=(3, 3))], "fixed list, var pos": [marg(), V()], "fwd last": [f(), fwd()], "fixed fwd, flag": [fwd("=@", cnt(2, 2)), f()],
            "counting flag anywhere": [count(), f(), count("--d@"), P()],
            "ended var list, flag": [marg("--m@", ("end", "arp::token_end_marker_t{\";@\"_S}"), c=(1, 3)), f()],
            "two ended var lists": [marg("--m@", ("end", "arp::token_end_marker_t{\";@\"_S}"), c=(1, 3)), marg("--n@", ("end", "arp::token_end_marker_t{\";@\"_S}"), c=(1, 3)), f()],
            "ended var list, var pos": [marg("--m@", ("end", "arp::token_end_marker_t{\";@\"_S}"), c=(1, 3)), V()],
            "ended var pos, var pos": [pos("B@", ("end", "arp::token_end_marker_t{\";@\"_S}"), c=(1, 2), t="std::vector<int>"), V()]}
    for i, (nm, ch) in enumerate(bad.items()):
        for j, ctx in enumerate(MODES):
            if ctx == "anon" and nm == "pos mode":
                continue
            if deep or (i + j) % 3 == 0:
                c.bad("order/%s/%s" % (nm, ctx), in_ctx(ctx, *ch))
    for i, (nm, ch) in enumerate(good.items()):
        for j, ctx in enumerate(MODES):
            if deep or (i + j) % 6 == 0:
                c.ok("order/%s/%s" % (nm, ctx), in_ctx(ctx, *ch))
    # counts
    for ctx in MODES if deep else ("anon", "nest"):
        w = lambda *n: in_ctx(ctx, flag("--w@"), *n)
        u = [("(%d, %d)" % (a, b), a, b) for a in range(4) for b in range(4)]
        for nm, a, b in u:
            t = "std::vector<int>"
            c.add("count/list %s/%s" % (nm, ctx), w(marg(c=(a, b))), a <= b and a >= 1 and (a, b) != (1, 1), "p" if a <= b and a >= 1 and (a, b) != (1, 1) else "")
            c.add("count/positional %s/%s" % (nm, ctx), w(pos(c=(a, b), t=t)), a <= b and b >= 1, "p" if a <= b and b >= 1 else "")
            c.add("count/required positional %s/%s" % (nm, ctx), w(pos("P@", REQ, c=(a, b), t=t)), a <= b and a >= 1, "p" if a <= b and a >= 1 else "")
            if deep or a > b or b == 0:
                c.add("count/forwarding %s/%s" % (nm, ctx), w(fwd("=@", cnt(a, b))), a <= b and b >= 1, "p" if a <= b and b >= 1 else "")
        c.bad("count/required unbounded positional/%s" % ctx, w(pos("P@", REQ, c=None, t=t)))
        c.bad("count/required positional with a maximum/%s" % ctx, w(pos("P@", REQ, ("cnt", "arp::max_count<3>"), c=None, t=t)))
        c.ok("count/required positional with a minimum/%s" % ctx, w(pos("P@", REQ, ("cnt", "arp::min_count<1>"), c=None, t=t)))
        c.bad("count/variable positional of one value/%s" % ctx, w(pos("P@", c=(1, 2), t="int")))
        c.bad("count/list of one value/%s" % ctx, w(marg("--m@", c=(2, 2), t="int")))
        for a, b in ((3, 1), (1, 0), (0, -1), (2, 1)):
            for k, n in (("arg", arg("--v@")), ("count", count("--v@")), ("pos", pos("V@"))):
                if deep or (a, b) in ((3, 1), (1, 0)):
                    c.bad("value/%s %d %d/%s" % (k, a, b, ctx), w(n.with_(("b", "arp::min_max_value<%d, %d>()" % (a, b)))))
        for a, b in ((1, 1), (0, 1), (-1, 0)):
            c.ok("value/arg %d %d/%s" % (a, b, ctx), w(arg("--v@", ("b", "arp::min_max_value<%d, %d>()" % (a, b)))))
        # end markers and separators where the count does not allow them
        E = ("end", "arp::token_end_marker_t{\";@\"_S}")
        S = ("sep", "arp::value_separator_t{\"=\"_S}")
        for nm, n, ok in (("fixed list", marg("--m@", E), 0), ("variable list", marg("--m@", E, c=(1, 3)), 1), ("fixed positional", pos("P@", E, c=(2, 2), t=t), 0), ("variable positional", pos("P@", E, c=None, t=t), 1),
                          ("forwarding", fwd("=@", E), 1), ("fixed forwarding", fwd("=@", E, cnt(2, 2)), 0), ("arg", arg("--a@", E), 0), ("flag", flag("--x@", E), 0), ("counting flag", count("--x@", E), 0)):
            c.add("marker/%s/%s" % (nm, ctx), w(n), bool(ok), "p")
        for nm, n, ok in (("list", marg("--m@", S), 0), ("variable list", marg("--m@", S, c=(1, 3)), 0), ("arg", arg("--a@", S), 1), ("flag", flag("--x@", S), 0), ("counting flag", count("--x@", S), 0), ("forwarding", fwd("=@", S), 0),
                          ("positional list", pos("P@", S, c=(2, 2), t=t), 0)):
            c.add("separator/%s/%s" % (nm, ctx), w(n), bool(ok), "p")


# ---- aliases and dependencies -------------------------------------------------------------------

def relations(c, deep):
    L, Sh = long, short
    for i, ctx in enumerate(MODES):
        w = lambda *n: in_ctx(ctx, flag("--w@"), *n)
        q = deep or i in (0, 2)
        F = N("flag", long("--f@"), short("f"))
        G = N("flag", long("--g@"), short("g"))
        for rel, mk in (("alias", alias), ("dep", dep)):
            X = lambda *names: flag("--x@", mk(*names))
            good = {"long": [F, X(L("--f@"))], "short": [F, X(Sh("f"))], "two": [F, G, X(L("--f@"), Sh("g"))], "before": [X(L("--f@")), F], "chain": [F, flag("--y@", mk(L("--f@"))), flag("--z@", mk(L("--y@")))],
                    "diamond": [F, flag("--y@", mk(L("--f@"))), flag("--z@", mk(L("--f@"))), flag("--v@", mk(L("--y@"), L("--z@")))],
                    "arg in a group": [one(arg("--f@"), flag("--g@")), arg("--x@", mk(L("--f@")))]}
            bad = {"unresolved": [F, X(L("--n@"))], "unresolved short": [F, X(Sh("n"))], "unresolved second": [F, X(L("--f@"), L("--n@"))], "short for long": [F, X(L("ff"))],
                   "same twice": [F, X(L("--f@"), L("--f@"))], "long and short of one": [F, X(L("--f@"), Sh("f"))], "long and short of one, apart": [F, G, X(Sh("f"), L("--g@"), L("--f@"))],
                   "itself": [flag("--x@", mk(L("--x@")))], "itself by short": [N("flag", long("--x@"), short("x"), mk(Sh("x")))], "itself second": [F, flag("--x@", mk(L("--f@"), L("--x@")))],
                   "cycle of two": [flag("--x@", mk(L("--y@"))), flag("--y@", mk(L("--x@")))],
                   "cycle of two, second": [F, flag("--x@", mk(L("--f@"), L("--y@"))), flag("--y@", mk(L("--f@"), L("--x@")))],
                   "cycle of three": [flag("--x@", mk(L("--y@"))), flag("--y@", mk(L("--z@"))), flag("--z@", mk(L("--x@")))],
                   "cycle behind": [flag("--x@", mk(L("--y@"))), flag("--y@", mk(L("--z@"))), flag("--z@", mk(L("--y@")))],
                   "cycle of four": [flag("--x@", mk(L("--y@"))), flag("--y@", mk(L("--z@"))), flag("--z@", mk(L("--v@"))), flag("--v@", mk(L("--x@")))],
                   "description": [F, flag("--x@", (rel, "arp::%s(%s)" % ({"alias": "alias", "dep": "dependent"}[rel], desc("D@")[1])))],
                   "second is not a name": [F, flag("--x@", (rel, "arp::%s(%s, arp::required)" % ({"alias": "alias", "dep": "dependent"}[rel], L("--f@")[1])))]}
            if rel == "dep":
                good["positional owner"] = [arg("--f@"), pos("P@", mk(L("--f@")))]
                good["arg on flag"] = [F, arg("--x@", mk(L("--f@")))]
                good["list on flag"] = [F, marg("--x@", mk(L("--f@")), c=(1, 3))]
                good["group child"] = [F, one(arg("--x@", mk(L("--f@"))), flag("--y@"))]
            else:
                good["args"] = [arg("--f@"), arg("--g@", t="std::string"), arg("--x@", mk(L("--f@"), L("--g@")))]
                good["lists"] = [marg("--f@"), marg("--x@", mk(L("--f@")))]
                bad["one value for none"] = [F, arg("--x@", mk(L("--f@")))]
                bad["none for one value"] = [arg("--f@"), flag("--x@", mk(L("--f@")))]
                bad["second has another count"] = [F, arg("--g@"), flag("--x@", mk(L("--f@"), L("--g@")))]
                bad["two for three"] = [marg("--f@", c=(3, 3)), marg("--x@", mk(L("--f@")))]
                bad["two for one"] = [arg("--f@"), marg("--x@", mk(L("--f@")))]
                bad["fixed for variable"] = [marg("--x@", mk(L("--f@"))), marg("--f@", c=(1, 3))]
                bad["variable"] = [marg("--f@"), marg("--x@", mk(L("--f@")), c=(1, 3))]
                bad["variable both"] = [marg("--f@", ("end", "arp::token_end_marker_t{\";@\"_S}"), c=(2, 3)), marg("--x@", mk(L("--f@")), c=(2, 3))]
                bad["with bounds"] = [arg("--f@"), arg("--x@", mk(L("--f@")), ("b", "arp::min_max_value<1, 3>()"))]
                bad["with parser"] = [arg("--f@"), arg("--x@", mk(L("--f@")), ("b", "arp::custom_parser<int>{[](std::string_view) { return 1; }}"))]
            for j, (nm, ch) in enumerate(good.items()):
                if deep or (i + j) % 4 == 0:
                    c.ok("%s/%s/%s" % (rel, nm, ctx), w(*ch))
            for j, (nm, ch) in enumerate(bad.items()):
                if deep or (i + j) % 3 == 0:
                    c.bad("%s/%s/%s" % (rel, nm, ctx), w(*ch), "p")
        if deep or i == 0:
            c.bad("alias/no names/%s" % ctx, w(flag("--x@", ("alias", "arp::alias()"))))
            c.bad("dep/no names/%s" % ctx, w(flag("--x@", ("dep", "arp::dependent()"))))
    for rel, mk in (("alias", alias), ("dep", dep)):
        X = flag("--x@", mk(long("--f@")))
        F = flag("--f@")
        c.bad("%s/only in another mode" % rel, root(named("m@", F), named("n@", X)), "p")
        c.bad("%s/only in an earlier mode, anonymous" % rel, root(named("m@", F), mode(X)), "p")
        c.bad("%s/only at the root" % rel, root(flag("--f@", RT), mode(X)), "p")
        c.bad("%s/only in the outer mode" % rel, root(named("m@", F, named("n@", X))), "p")
        c.ok("%s/in each of two modes" % rel, root(named("m@", F, X), named("n@", X, F)))


# ---- languages ----------------------------------------------------------------------------------

def languages(c, deep):
    def body(ids):
        tr = " ".join('template <> class arg_router::multi_lang::translation<ar::str<"%s@">> { public: using foo = ar::str<"--f@">; };' % x for x in dict.fromkeys(ids))
        return tr + """ namespace n@ { void lang() { auto r = ar::multi_lang::root<%s>("x", [](auto tr) { return ar::root(%s, ar::mode(%s, ar::flag(arp::long_name_t{typename decltype(tr)::foo{}}))); });
            r.parse(0, nullptr); } }""" % (", ".join('ar::str<"%s@">' % x for x in ids), VAL, R)
    for codes in (["en"], ["en", "en"], ["en", "fr", "en"], ["fr", "en", "en"], ["en", "en", "fr"]):
        c.list.append(("lang/%s" % ",".join(codes), None, False, "", body(codes)))
    def same(codes, texts):
        """trees whose types are equal for languages with the same text"""
        tr = " ".join('template <> class arg_router::multi_lang::translation<ar::str<"%s@">> { public: using foo = ar::str<"%s@">; };' % x for x in zip(codes, texts))
        return tr + """ namespace n@ { void g(bool) {} void lang() { auto r = ar::multi_lang::root<%s>("x", [](auto tr) { return ar::root(%s, ar::mode(arp::router{&g}, ar::flag(arp::long_name_t{typename decltype(tr)::foo{}}))); });
            r.parse(0, nullptr); } }""" % (", ".join('ar::str<"%s@">' % x for x in codes), VAL)
    for codes, texts in ((["en", "fr"], ["foo", "bar"]), (["en", "fr"], ["foo", "foo"]), (["en", "fr", "de"], ["foo", "bar", "foo"]), (["en", "fr", "de"], ["foo", "bar", "bar"]), (["en", "fr", "de"], ["foo"] * 3)):
        c.list.append(("lang/texts/%s" % ",".join(texts), None, True, "", same(codes, texts)))
    for codes in (["en", "fr"], ["en_GB", "en_US", "en"], ["fr", "en", "de", "ja"]):
        c.list.append(("lang/%s" % ",".join(codes), None, True, "", body(codes)))


# ---- parameters, types, texts and routers that do not fit ----------------------------------------

def oddities(c, deep):
    T = lambda s: ("raw", s)
    f = lambda *p: flag("--f@", *p)
    # bare strings
    B = lambda fn, *s: "%s(%s)" % (fn, ", ".join(x if x.startswith("arp::") else '"%s"_S' % x for x in s))
    m1 = lambda *n: "ar::root(%s, ar::mode(%s, %s))" % (VAL, R, ", ".join(n))
    for fn in ("ar::flag", "ar::arg<int>", "ar::counting_flag<int>"):
        c.add("strings/%s two" % fn, m1(B(fn, "foo@", "A description")), True, "p")
        c.add("strings/%s two and a letter" % fn, m1(B(fn, "foo@", "A description", "f")), True, "p")
        c.add("strings/%s three" % fn, m1(B(fn, "foo@", "A description", "third@")), False, "p")
        c.add("strings/%s two letters" % fn, m1(B(fn, "foo@", "f", "g")), False, "p")
        c.add("strings/%s name and string" % fn, m1(B(fn, "foo@", 'arp::long_name_t{"bar@"_S}')), False, "p")
        c.add("strings/%s short name and letter" % fn, m1(B(fn, "f", 'arp::short_name_t{"g"_S}')), False, "p")
        c.add("strings/%s description and string" % fn, m1(B(fn, "foo@", "A description", 'arp::description_t{"More"_S}')), False, "p")
    for fn, fx in (("ar::positional_arg<int>", "arp::fixed_count<1>"), ("ar::forwarding_arg", "arp::fixed_count<2>")):
        c.add("strings/%s two" % fn, m1(B(fn, "foo@", "A description", fx)), True, "p")
        c.add("strings/%s three" % fn, m1(B(fn, "foo@", "A description", "third@", fx)), False, "p")
    M = lambda *s: "ar::root(%s, ar::mode(%s, ar::flag(\"f@\"_S), %s))" % (VAL, ", ".join('"%s"_S' % x for x in s), R)
    c.add("strings/mode two", M("mm@", "A description"), True, "p")
    c.add("strings/mode three", M("mm@", "A description", "third@"), False, "p")
    # types
    for t, ok in (("int", 1), ("xt_@", 0), ("std::vector<xt_@>", 0), ("std::optional<xt_@>", 0), ("std::pair<int, int>", 0), ("std::optional<std::string>", 1), ("int*", 0), ("std::monostate", 0)):
        c.add("type/arg %s" % t, in_ctx("anon", arg("--a@", t=t)), bool(ok), "p")
        if not t.startswith("std::vector"):
            c.add("type/arg with parser %s" % t, in_ctx("anon", arg("--a@", ("b", "arp::custom_parser<%s>{[](std::string_view) { return %s{}; }}" % (t, t if t[-1] != "*" else "std::add_pointer_t<int>")), t=t)), True, "p")
    for t, ok in (("int", 1), ("double", 1), ("std::string", 0), ("xt_@", 0), ("std::optional<int>", 0)):
        c.add("type/counting flag %s" % t, in_ctx("anon", N("count", long("--c@"), t=t)), bool(ok), "p")
    for t, ok in (("std::vector<int>", 1), ("std::list<int>", 1), ("std::set<int>", 0), ("std::array<int, 2>", 0)):
        c.add("type/list %s" % t, in_ctx("anon", marg("--m@", t=t)), bool(ok), "p")
    # defaults and bounds of other types
    for t, d, ok in (("int", "1", 1), ("int", 'std::string{"x"}', 0), ("std::string", '"x"', 1), ("std::string", "1", 0), ("std::vector<int>", "1", 0), ("double", "1", 1)):
        c.add("default/arg %s = %s" % (t, d), in_ctx("anon", arg("--a@", ("def", "arp::default_value{%s}" % d), t=t)), bool(ok), "p")
    for b, ok in (("arp::min_max_value<1, 3>()", 1), ("arp::min_max_value<1, 3u>()", 0), ("arp::min_max_value<1l, 3>()", 0), ("arp::min_max_value(1, 3)", 1)):
        c.add("bounds/%s" % b, in_ctx("anon", arg("--a@", ("b", b))), bool(ok), "p")
    for b, ok in (("arp::min_max_value<1, 3>()", 0), ("arp::min_max_value(1, 3)", 0), ("arp::min_value<1>()", 0), ("arp::max_value(1)", 0)):
        for g in (one, ):
            c.add("bounds/%s %s" % (g.__name__, b), in_ctx("anon", g(arg("--x@"), flag("--z@"), p=(REQ, ("b", b)))), bool(ok), "p")
        c.add("bounds/agr %s" % b, in_ctx("anon", agr(arg("--x@"), count("--z@"), p=(REQ, ("b", b)))), True, "p")
        c.add("bounds/flag %s" % b, in_ctx("anon", flag("--z@", ("b", b))), False, "p")
        c.add("bounds/mode %s" % b, root(mode(flag("--z@"), p=(RT, ("b", b)))), False, "p")
        c.add("bounds/fwd %s" % b, in_ctx("anon", fwd("=@", ("b", b))), False, "p")
        c.add("bounds/marg %s" % b, in_ctx("anon", marg("--m@", ("b", b))), False, "p")
    # routers
    for r, ok in (("[](bool, int) {}", 1), ("[](bool) {}", 0), ("[](bool, int, int) {}", 0), ("[]() {}", 0), ("[](int, bool) {}", 1), ("[](std::string, int) {}", 0), ("[](bool, std::vector<int>) {}", 0),
                  ("[](const bool&, const int&) {}", 1), ("[](bool&, int) {}", 0), ("[](bool&&, int&&) {}", 1), ("[](auto...) {}", 1), ("[](bool, double) {}", 1), ("[](bool, std::optional<int>) {}", 1)):
        c.add("router/signature %s" % r, root(mode(flag("--f@"), arg("--a@"), p=(("router", "arp::router(%s)" % r),))), bool(ok), "p")
        c.add("router/signature named %s" % r, root(named("mm@", flag("--f@"), arg("--a@"), p=(("router", "arp::router(%s)" % r),))), bool(ok), "p")
    for r, ok in (("[](int) {}", 1), ("[]() {}", 0), ("[](int, int) {}", 0), ("[](std::string) {}", 0)):
        c.add("router/signature root arg %s" % r, root(arg("--a@", ("router", "arp::router(%s)" % r)), mode(flag("--f@"))), bool(ok), "p")
    for r, ok in (("[](ar::ostringstream) {}", 1), ("[]() {}", 0), ("[](std::string) {}", 0), ("[](int) {}", 0)):
        c.add("router/signature help %s" % r, root(help_("--h@", ("router", "arp::router(%s)" % r)), mode(flag("--f@"))), bool(ok), "p")
    # lists
    for l, ok in (("ar::list(ar::flag(arp::long_name_t{\"x@\"_S}))", 1), ("ar::list()", 1), ("ar::list(arp::required)", 0), ("ar::list(ar::flag(arp::long_name_t{\"x@\"_S}), arp::required)", 0), ("ar::list(5)", 0),
                  ("ar::list(ar::flag(arp::long_name_t{\"x@\"_S}), ar::flag(arp::long_name_t{\"x@\"_S}))", 0), ("ar::list(ar::flag(arp::long_name_t{\"w@\"_S}))", 0), ("ar::list(ar::flag())", 0)):
        c.add("list/%s" % l, m1("ar::flag(arp::long_name_t{\"w@\"_S})", l), bool(ok), "p")
    c.add("list/only empty", m1("ar::list()"), False, "p")
    # anything that is neither a policy nor a node
    for x in ("5", "std::string{}", "nullptr", "true", "[] {}", "ar::error_code::unknown_argument"):
        for k, w in (("flag", lambda x: m1("ar::flag(arp::long_name_t{\"w@\"_S}, %s)" % x)), ("mode", lambda x: m1("ar::flag(arp::long_name_t{\"w@\"_S}), %s" % x)), ("arg", lambda x: m1("ar::arg<int>(arp::long_name_t{\"w@\"_S}, %s)" % x)),
                     ("root", lambda x: "ar::root(%s, ar::mode(%s, ar::flag(arp::long_name_t{\"w@\"_S})), %s)" % (VAL, R, x)),
                     ("one", lambda x: m1("ard::one_of(arp::required, ar::flag(arp::long_name_t{\"w@\"_S}), ar::arg<int>(arp::long_name_t{\"v@\"_S}), %s)" % x))):
            c.add("param/%s %s" % (k, x), w(x), False, "p")
    # counts
    for k, ok in (("arp::min_max_count<2, 3>", 1), ("arp::min_max_count<3, 2>", 0), ("arp::fixed_count<0>", 0), ("arp::max_count<0>", 0)):
        c.add("count/list %s" % k, in_ctx("anon", N("marg", long("--m@"), ("cnt", k), t="std::vector<int>")), bool(ok), "p")
        c.add("count/positional %s" % k, in_ctx("anon", N("pos", disp("P@"), ("cnt", k), t="std::vector<int>")), bool(ok), "p")
    # help formatter
    I = lambda n: "ar::traits::integral_constant<std::size_t{%d}>" % n
    for k in ("default", "colour"):
        for args, ok in ((I(1), 1), (I(0), 0), (I(2) + ", " + I(1), 1), (I(2) + ", " + I(0), 0)):
            c.add("formatter/%s %s" % (k, args), root(help_("--h@", ("fmt", "arp::%s_help_formatter_t<%s>{}" % (k, args))), mode(flag("--f@"))), bool(ok), "ph")
    # messages
    def tr(*msgs):
        return "struct tr { using error_code_translations = std::tuple<%s>; };" % ", ".join('std::pair<ar::traits::integral_constant<ar::error_code::%s>, ar::str<"%s">>' % m for m in msgs)
    U = "unknown_argument"
    for msgs, ok in ((((U, "x {}"),), 1), (((U, "x {} {}"),), 1), (((U, "x {, }"),), 1), (((U, "x {} {, } y"),), 1), (((U, "{, } {, }"),), 0), (((U, "{, } {}"),), 0), (((U, "{}{/}"),), 1), (((U, "x {} {} {/}"),), 1), (((U, "x {/}{-}"),), 0),
                     (((U, "no place"),), 1), (((U, "{"),), 1), (((U, "}"),), 1), (((U, "}{"),), 1)):
        c.list.append(("message/%s" % msgs[0][1], None, bool(ok), "", "namespace n@ { %s void f(int c, char** v) { auto r = %s; r.parse(c, v); } }" % (tr(*msgs), root(mode(flag("--f@")), p=(VALID, ("x", "arp::exception_translator<tr>"))))))


def all_cases(deep):
    c = Cases()
    names(c, deep)
    texts(c, deep)
    on_nodes(c, deep)
    structure(c, deep)
    relations(c, deep)
    languages(c, deep)
    oddities(c, deep)
    return c.list


PRE = """#include <arg_router/arg_router.hpp>
#include <deque>
#include <iostream>
#include <list>
#include <set>
namespace ar = arg_router;
namespace arp = arg_router::policy;
namespace ard = arg_router::dependency;
using namespace arg_router::literals;
"""
FLAGS = ["g++", "-std=c++20", "-w", "-I" + REPO + "/include", "-I" + ENGINE + "/shim"]


def program(k, case):
    cls, tree, ok, use, pre = case
    body = pre
    if tree:
        body = "void f(int c, char** v) { auto r = %s; %s%s}" % (tree, "r.parse(c, v); " if "p" in use else "", "r.help(std::cout); " if "h" in use else "")
        if "xt_@" in tree:
            body = "struct xt_@ { static constexpr int x = 0; }; " + body
        body = "namespace n@ { %s }" % body
    return '#line 1 "case_%d_"\n%s\n' % (k, body.replace("@", str(k)).replace("\n", " "))


def compile_(ks, cases, wd):
    """the numbers of the cases the compiler rejects, and an error for each"""
    name = os.path.join(wd, "u%d.cpp" % ks[0])
    with open(name, "w") as f:
        f.write('#include "pre.hpp"\n' + "".join(program(k, cases[k]) for k in ks))
    p = subprocess.Popen(FLAGS + ["-I", wd, "-fsyntax-only", "-fmax-errors=0", "-ftemplate-backtrace-limit=0", "-fno-diagnostics-show-caret", "-fno-diagnostics-show-template-tree", "-c", name],
                         stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, text=True, errors="replace")
    bad = {}
    block, first = set(), ""
    for line in p.stderr:
        m = re.search(r" error: (.*)", line)
        block |= set(map(int, re.findall(r"case_(\d+)_", line)))
        if m:
            e = m.group(1)[:200]
            first = first or e
            for k in block:
                if k not in bad or ("static assertion" in e and "static assertion" not in bad[k]):
                    bad[k] = e
            block = set()
    rc = p.wait()
    os.unlink(name)
    if len(ks) == 1:
        return {ks[0]: bad.get(ks[0]) or first} if rc else {}
    return bad


def main():
    c = Check("C25")
    cases = all_cases(TIER == "thorough")
    t0 = time.time()
    with open(os.path.join(c.dir, "pre.hpp"), "w") as f:
        f.write(PRE)
    r = sh(FLAGS + ["-x", "c++-header", os.path.join(c.dir, "pre.hpp"), "-o", os.path.join(c.dir, "pre.hpp.gch")])
    if r.returncode:
        c.violation("compile", "the library does not compile: " + errors_of(r.stderr))
        return c.finish()
    # what takes long is spread over the units
    n = 25
    units = [list(range(i, len(cases), (len(cases) + n - 1) // n)) for i in range((len(cases) + n - 1) // n)]
    rejected = {}
    with pool() as ex:
        for bad in ex.map(lambda ks: compile_(ks, cases, c.dir), units):
            rejected.update(bad)
        wrong = [k for k in range(len(cases)) if cases[k][2] == (k in rejected)]
        # each again on its own
        again = list(ex.map(lambda k: compile_([k], cases, c.dir), wrong[:200]))
    for k, res in zip(wrong[:200], again):
        rejected.pop(k, None)
        rejected.update(res)
        if cases[k][2] == bool(res):
            c.violation(cases[k][0], "%s: %s\n   expected: %s by the compiler\n   observed: %s" % (
                cases[k][0], (cases[k][1] or cases[k][4]).replace("@", ""), "accepted" if cases[k][2] else "rejected", "rejected: " + res[k] if res else "accepted"), program=PRE + program(k, cases[k]))
    if os.environ.get("C25_DUMP"):
        for k in range(len(cases)):
            print("DUMP\t%s\t%s\t%s" % (cases[k][0], "ok" if cases[k][2] else "bad", rejected.get(k, "accepted")))
    c.states = c.traces = len(cases)
    c.transitions = len(cases) + len(wrong)
    msgs = set(re.sub(r"[0-9]+", "", e) for e in rejected.values())
    c.outcomes = len(msgs) + 1
    c.extra.update(build_s=round(time.time() - t0, 1), programs=len(cases), must_be_rejected=sum(not x[2] for x in cases), must_be_accepted=sum(x[2] for x in cases),
                   rules={k: sum(x[0].split("/")[0] == k for x in cases) for k in sorted(set(x[0].split("/")[0] for x in cases))}, recompiled=len(wrong))
    c.samples = ["%s: %s" % (cases[k][0], rejected[k] if k in rejected else "accepted") for k in range(0, len(cases), max(1, len(cases) // 55))]
    return c.finish()
