"""Parse trees as data: each tree is emitted twice, as arg_router source and as a reference-model tree."""
import itertools

CPP = {"b": "bool", "i": "int", "u": "unsigned", "i8": "std::int8_t", "u8": "std::uint8_t", "i16": "short", "u16": "unsigned short",
       "i64": "long", "u64": "unsigned long", "f": "float", "d": "double", "c": "char",
       "s": "std::string", "sv": "std::string_view", "en": "h::colour", "gp": "h::gp",
       "fp": "std::filesystem::path"}
BOX = {"v": "std::vector", "o": "std::optional", "dq": "std::deque", "ls": "std::list"}


def model_type(t):
    """the reference model sees every container as a vector and a path as a string"""
    b = t.split("<")[0]
    if b in ("dq", "ls"):
        return "v<" + model_type(t[len(b) + 1:-1]) + ">"
    if b in ("v", "o") and "<" in t:
        return b + "<" + model_type(t[2:-1]) + ">"
    return "s" if t == "fp" else t


def cpp_type(t):
    b = t.split("<")[0]
    if "<" in t and b in BOX:
        return "%s<%s>" % (BOX[b], cpp_type(t[len(b) + 1:-1]))
    return CPP[t]


def lit(s):
    """C++ narrow string literal with every byte spelled."""
    out = []
    for b in s.encode() if isinstance(s, str) else s:
        ch = chr(b)
        if b < 128 and ch.isalnum() or ch in " _-.,:;=+*/<>()[]{}!#$%&|~^@`'":
            out.append(ch)
        else:
            out.append("\\%03o" % b)
    return '"' + "".join(out) + '"'


class Val:
    """a value given in a tree: C++ expression and canonical text"""

    def __init__(self, cpp, canon):
        self.cpp, self.canon = cpp, canon


def V(t, x):
    if t == "b":
        return Val("true" if x else "false", "b:%d" % bool(x))
    if t in ("s", "sv", "fp"):
        return Val("%s{%s}" % (CPP[t], lit(x)), "%s:%s" % (model_type(t), x))
    if t == "c":
        return Val("'%s'" % x, "c:" + x)
    if t == "en":
        return Val("h::colour(%d)" % x, "en:%d" % x)
    if t in ("d", "f"):
        return Val("%s(%r)" % (CPP[t], x), "%s:%s" % (t, ("%.17g" if t == "d" else "%.9g") % x))
    if t.split("<")[0] in ("v", "dq", "ls") and "<" in t:
        es = [V(t[t.index("<") + 1:-1], e) for e in x]
        return Val("%s{%s}" % (cpp_type(t), ",".join(e.cpp for e in es)), model_type(t) + ":[" + "".join(e.canon + ";" for e in es) + "]")
    if t.startswith("o<"):
        if x is None:
            return Val("%s{}" % cpp_type(t), t + ":none")
        e = V(t[2:-1], x)
        return Val("%s{%s}" % (cpp_type(t), e.cpp), t + ":" + e.canon)
    if x < 0 and t == "i64" and x == -2**63:
        return Val("std::numeric_limits<long>::min()", "i64:%d" % x)
    suffix = {"u": "u", "u64": "ul", "i64": "l"}.get(t, "")
    return Val("%s{%d%s}" % ("::arg_router::traits::integral_constant<0>{}, " if False else "static_cast<%s>" % CPP[t], x, suffix)
               if False else "static_cast<%s>(%d%s)" % (CPP[t], x, suffix), "%s:%d" % (t, x))


NMAX = 2**64 - 1


class Node:
    def __init__(self, k, *names, ch=(), **kw):
        self.k = k
        self.id = kw.pop("id", "")
        self.lng = self.sht = None
        self.none = self.disp = self.err = self.desc = None
        for n in names:
            if n.startswith("--"):
                self.lng = n[2:]
            elif n.startswith("-") and len(n) > 1:
                self.sht = n[1:]
            else:
                self.none = n
        self.lng = kw.pop("lng", self.lng)
        self.sht = kw.pop("sht", self.sht)
        self.none = kw.pop("none", self.none)
        self.disp = kw.pop("disp", None)
        self.err = kw.pop("err", None)
        self.desc = kw.pop("desc", None)
        self.type = kw.pop("type", None)
        self.sep = kw.pop("sep", None)
        self.cnt = kw.pop("cnt", None)  # (min, max)
        self.endm = kw.pop("endm", None)
        self.required = kw.pop("required", False)
        self.default = kw.pop("default", None)
        self.minv = kw.pop("minv", None)
        self.maxv = kw.pop("maxv", None)
        self.ct = kw.pop("ct", True)
        self.cmp = kw.pop("cmp", None)  # ordering of run-time bounds: rev or len
        self.alias = list(kw.pop("alias", ()))
        self.dep = list(kw.pop("dep", ()))
        self.en = kw.pop("en", None)
        self.en_req = kw.pop("en_req", None)  # True or a default value
        self.custom = kw.pop("custom", False)
        self.flatten = kw.pop("flatten", False)
        self.pname = kw.pop("pname", None)
        self.pver = kw.pop("pver", None)
        self.pintro = kw.pop("pintro", None)
        self.padd = kw.pop("padd", None)
        self.indent = kw.pop("indent", None)  # help formatter: spaces per level, least room for descriptions, colours
        self.off = kw.pop("off", None)
        self.colour = kw.pop("colour", False)
        self.fmt = kw.pop("fmt", None)  # (raw C++ formatter, its preamble, its addendum)
        self.extra = list(kw.pop("extra", ()))  # raw C++ policies
        self.order = kw.pop("order", None)  # function on the list of policy expressions
        self.order_all = kw.pop("order_all", None)  # the same for policies and children together
        self.bare = kw.pop("bare", False)  # names as bare strings
        self.router = kw.pop("router", None)  # raw C++ router
        self.ch = list(ch)
        self.cpp17 = False
        assert not kw, kw

    # effective value counts
    def counts(self):
        if self.cnt:
            return self.cnt
        return {"flag": (0, 0), "count": (0, 0), "arg": (1, 1), "marg": (1, NMAX), "pos": (0, NMAX),
                "fwd": (0, NMAX), "help": (0, NMAX)}.get(self.k, (0, 0))

    def vtype(self):
        if self.type:
            return self.type
        return {"flag": "b", "count": "i", "fwd": "v<sv>"}.get(self.k, "")


def S(s, st=20):
    """st: 20 for ""_S, 17 for S_(), 21 for the class template"""
    return lit(s) + "_S" if st == 20 else "S_(%s){}" % lit(s) if st == 17 else "ar::str<%s>{}" % lit(s)


def refs(names, st):
    out = []
    for n in names:
        out.append("arp::long_name_t{%s}" % S(n[2:], st) if n.startswith("--") else "arp::short_name_t{%s}" % S(n[1:], st))
    return ", ".join(out)


FN = {"flag": "ar::flag", "count": "ar::counting_flag<%s>", "arg": "ar::arg<%s>", "marg": "ar::multi_arg<%s>",
      "pos": "ar::positional_arg<%s>", "fwd": "ar::forwarding_arg", "oneof": "ard::one_of",
      "agroup": "ard::alias_group", "mode": "ar::mode", "help": "ar::help", "list": "ar::list"}


def flat(ch):
    """children with every list replaced by its own children"""
    return [y for x in ch for y in (flat(x.ch) if x.k in ("list", "ref") else [x])]


def policies(n, st=20):
    p = []
    b = n.bare
    if b:
        for s in (n.lng or n.none or n.disp, n.sht, n.desc):
            if s is not None:
                p.append(S(s, st))
        if n.k == "flag" or True:
            pass
    else:
        if n.lng is not None:
            p.append("arp::long_name_t{%s}" % S(n.lng, st))
        if n.sht is not None:
            p.append("arp::short_name_t{%s}" % S(n.sht, st))
        if n.none is not None:
            p.append("arp::none_name_t{%s}" % S(n.none, st))
        if n.disp is not None:
            p.append("arp::display_name_t{%s}" % S(n.disp, st))
        if n.desc is not None:
            p.append("arp::description_t{%s}" % S(n.desc, st))
    if n.err is not None:
        p.append("arp::error_name_t{%s}" % S(n.err, st))
    if n.required:
        p.append("arp::required")
    if n.default is not None:
        p.append("arp::default_value{%s}" % n.default.cpp)
    if n.sep is not None:
        p.append("arp::value_separator<'%s'>" % n.sep if len(n.sep.encode()) == 1
                 else "arp::value_separator_t{%s}" % S(n.sep, st))
    if n.cnt is not None:
        lo, hi = n.cnt
        if lo == hi:
            p.append("arp::fixed_count<%d>" % lo)
        elif hi == NMAX:
            p.append("arp::min_count<%d>" % lo)
        elif lo == 0:
            p.append("arp::max_count<%d>" % hi)
        else:
            p.append("arp::min_max_count<%d, %d>" % (lo, hi))
    if n.endm is not None:
        p.append("arp::token_end_marker_t{%s}" % S(n.endm, st))
    if n.minv is not None or n.maxv is not None:
        lo = n.minv.cpp if n.minv else None
        hi = n.maxv.cpp if n.maxv else None
        f = "min_max_value" if lo and hi else "min_value" if lo else "max_value"
        args = ", ".join(x for x in (lo, hi) if x)
        if n.cmp and not n.ct:
            args += ", h::%s_less<%s>{}" % (n.cmp, cpp_type(n.vtype()))
        p.append("arp::%s<%s>()" % (f, args) if n.ct else "arp::%s(%s)" % (f, args))
    if n.alias:
        p.append("arp::alias(%s)" % refs(n.alias, st))
    if n.dep:
        p.append("arp::dependent(%s)" % refs(n.dep, st))
    if n.en_req is not None:
        e = "bool((cfg >> %d) & 1)" % n.en
        if n.en_req is True:
            p.append("arp::runtime_enable_required<%s>{%s}" % (cpp_type(n.vtype()), e))
        else:
            p.append("arp::runtime_enable_required<%s>{%s, %s}" % (cpp_type(n.vtype()), e, n.en_req.cpp))
    elif n.en is not None:
        p.append("arp::runtime_enable{bool((cfg >> %d) & 1)}" % n.en)
    if n.custom:
        t = n.vtype()
        et = t[t.index("<") + 1:-1] if t.split("<")[0] in ("v", "dq", "ls") and "<" in t else t
        p.append("arp::custom_parser<%s>{[](std::string_view s) { return h::custom_%s(s); }}" % (cpp_type(et), et))
    if n.flatten:
        p.append("arp::flatten_help")
    for attr, pol in (("pname", "program_name_t"), ("pver", "program_version_t"), ("pintro", "program_intro_t"),
                      ("padd", "program_addendum_t")):
        if getattr(n, attr) is not None:
            p.append("arp::%s{%s}" % (pol, S(getattr(n, attr), st)))
    if n.fmt:
        p.append(n.fmt[0])
    elif n.indent is not None or n.off is not None or n.colour:
        k = "ar::traits::integral_constant<std::size_t{%d}>"
        ind = n.indent if n.indent is not None else 4
        p.append("arp::%s_help_formatter_t<%s%s>{}" % ("colour" if n.colour else "default", k % ind, ", " + k % n.off if n.off is not None else ""))
    p += n.extra
    if n.router:
        p.append("arp::router(%s)" % n.router)
    elif n.id:
        if n.k == "help":
            p.append('arp::router([](ar::ostringstream s) { h::rec_help("%s", s.str()); })' % n.id)
        else:
            p.append('arp::router([](auto&&... v) { h::rec("%s", v...); })' % n.id)
    if n.order:
        p = n.order(p)
    return p


def cpp(n, st=20):
    if n.k == "ref":
        return n.router
    parts = policies(n, st) + [cpp(c, st) for c in n.ch]
    if n.order_all:
        parts = n.order_all(parts)
    fn = FN[n.k]
    if "%s" in fn:
        fn = fn % cpp_type(n.vtype())
    return "%s(%s)" % (fn, ",\n  ".join(parts))


def cpp_root(children, st=20, extra=()):
    return "ar::root(%s)" % ",\n ".join(["arp::validation::default_validator"] + list(extra) + [cpp(c, st) for c in children])


# --- model side: one line per node, fields %-encoded ---

def enc(s):
    b = s.encode() if isinstance(s, str) else bytes(s)
    if not b:
        return "%"
    return "".join(chr(c) if 0x30 <= c <= 0x39 or 0x41 <= c <= 0x5A or 0x61 <= c <= 0x7A or c in b"-_.:" else "%%%02X" % c for c in b)


def alias_ref(a):
    return "L:" + a[2:] if a.startswith("--") else "S:" + a[1:]


def variant_type(n):
    ts = []
    for c in flat(n.ch):
        if c.alias:
            continue
        if c.vtype() not in ts:
            ts.append(c.vtype())
    # std::variant of the children's value types (one entry per child with a value)
    all_ts = [c.vtype() for c in flat(n.ch) if not c.alias]
    return all_ts


def model_lines(n, depth=1):
    f = ["n", str(depth), n.k]

    def add(k, v):
        f.append("%s=%s" % (k, enc(v)))
    if n.id:
        add("id", n.id)
    for k in ("lng", "sht", "none", "disp", "err", "desc", "sep", "endm", "pname", "pver", "pintro", "padd"):
        if getattr(n, k) is not None:
            add(k, getattr(n, k))
    t = n.vtype()
    if n.k == "oneof":
        ts = variant_type(n)
        t = ts[0] if len(ts) == 1 else "var"
    if n.k == "agroup":
        t = [c.vtype() for c in flat(n.ch) if not c.alias][0]
    t = model_type(t) if t else t
    if t:
        add("type", t)
    lo, hi = n.counts()
    add("minc", str(lo))
    add("maxc", str(hi))
    if n.required:
        add("required", "1")
    d = n.default
    if d is not None:
        canon = d.canon
        add("def", canon)
    if n.minv is not None:
        add("minv", n.minv.canon)
    if n.maxv is not None:
        add("maxv", n.maxv.canon)
    if n.cmp:
        add("cmp", n.cmp)
    if (n.minv is not None or n.maxv is not None) and n.ct:
        add("ct", "1")
        if t in ("u", "u16", "u64", "u8"):
            add("ub", "1")
    for a in n.alias:
        add("alias", alias_ref(a))
    for a in n.dep:
        add("dep", alias_ref(a))
    if n.en is not None:
        add("en", str(n.en))
    if n.en_req is not None:
        add("en_req", "1")
        if n.en_req is not True:
            add("en_def", n.en_req.canon)
    if n.custom:
        add("custom", "1")
    if n.flatten:
        add("flatten", "1")
    if n.indent is not None:
        add("indent", str(n.indent))
    if n.off is not None or n.indent is not None:
        add("off", str(n.off if n.off is not None else 2 * n.indent))
    if n.fmt:
        add("pintro", n.fmt[1])
        add("padd", n.fmt[2])
    out = [" ".join(f)]
    for c in flat(n.ch):
        out += model_lines(c, depth + 1)
    return out


class Tree:
    """A named tree.  st: string syntax (20 or 17)."""

    def __init__(self, id, *children, st=20, extra=(), messages=None, pre=""):
        self.id, self.children, self.st, self.extra = id, list(children), st, list(extra)
        self.messages = messages or {}  # complete: code -> message
        self.pre = pre  # file-scope C++ code
        self.cfgs = 1

    def source(self):
        return "".join("#include <%s>\n" % h for h in ("deque", "filesystem", "list") if "std::%s" % h in self.pre + cpp_root(self.children, self.st, self.extra)) + ("namespace t_%s {\n%s\nstatic auto make([[maybe_unused]] unsigned cfg) {\n return %s;\n}\nREG(\"%s\", make);\n}\n"
                % (self.id, self.pre, cpp_root(self.children, self.st, self.extra), self.id))

    def model(self):
        out = ["tree " + self.id]
        for c in flat(self.children):
            out += model_lines(c)
        for code, text in self.messages.items():
            out.append("msg %d %s" % (code, enc(text)))
        out.append("end")
        return out


# short constructors
def flag(*n, **k): return Node("flag", *n, **k)
def count(*n, **k): return Node("count", *n, **k)
def arg(t, *n, **k): return Node("arg", *n, type=t, **k)
def marg(t, *n, **k): return Node("marg", *n, type=t, **k)
def pos(t, name, **k): return Node("pos", disp=name, type=t, **k)
def fwd(name="--", **k): return Node("fwd", none=name, **k)
def oneof(*ch, **k): return Node("oneof", ch=ch, **k)
def agroup(*ch, **k): return Node("agroup", ch=ch, **k)
def mode(*a, **k):
    names = [x for x in a if isinstance(x, str)]
    ch = [x for x in a if isinstance(x, Node)]
    return Node("mode", *names, ch=ch, **k)
def lst(*ch): return Node("list", ch=ch)
def ref(expr, *ch): return Node("ref", ch=ch, router=expr)  # a node (or list of nodes) held by a C++ variable
def help_(*n, **k): return Node("help", *n, **k)


CODES = {0: "unknown_argument", 1: "unhandled_arguments", 2: "argument_has_already_been_set", 3: "failed_to_parse", 4: "no_arguments_passed",
         5: "minimum_value_not_reached", 6: "maximum_value_exceeded", 7: "minimum_count_not_reached", 8: "maximum_count_exceeded",
         9: "unknown_argument_with_suggestion", 100: "mode_requires_arguments", 101: "missing_required_argument", 102: "too_few_values_for_alias",
         103: "dependent_argument_missing", 104: "one_of_selected_type_mismatch", 105: "missing_value_separator"}


def code_cpp(c):
    return "ar::error_code::" + CODES[c] if c in CODES else "static_cast<ar::error_code>(%d)" % c


def translation(name, msgs, other=""):
    """a translation type: msgs may be None for a type without any"""
    if msgs is None:
        return "struct %s {%s};" % (name, other)
    return "struct %s {%s using error_code_translations = std::tuple<%s>; };" % (
        name, other, ",\n  ".join("std::pair<ar::traits::integral_constant<%s>, AR_STRING(%s)>" % (code_cpp(c), lit(t)) for c, t in msgs))


def with_messages(tree, msgs, fallback="default"):
    """attach an exception translator to a tree; msgs/fallback: lists of (code, text), None (no translations), or for the fallback "default" or "void" """
    tree.pre += translation("tr", msgs) + "\n"
    if isinstance(fallback, list) or fallback is None:
        tree.pre += translation("fb", fallback) + "\n"
        pol = "arp::exception_translator<tr, fb>"
    elif fallback == "default":
        pol = "arp::exception_translator<tr>"
    else:
        pol = "arp::exception_translator<tr, void>"
    tree.extra.append(pol)
    final = {}
    for c in list(CODES) + [1000]:
        own = dict(reversed(msgs or []))
        fb = dict(reversed(fallback)) if isinstance(fallback, list) else {}
        if c in own:
            final[c] = own[c]
        elif c in fb:
            final[c] = fb[c]
        elif fallback == "default" and c in CODES:
            continue
        else:
            final[c] = "Untranslated error code (%d)" % c
    tree.messages = final
    return tree
