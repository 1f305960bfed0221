"""The language requested selects its tree, anything else the default."""

TECHNIQUE = ("exhaustive enumeration of requested identifiers and locale names against every list of languages from a pool, and of command lines and help over multi-language trees "
             "against the reference model of the selected language's single-language tree")
NOTE = ("Part one: every ordered list of two of six and three of four languages (identifiers that are prefixes of, or differ in case from, each other), asked for every string up to length 5 (6) over "
        "their characters, every one-byte change of each identifier and every locale spelling; iso_locale on all strings up to length 7 (8). Part two: trees whose strings, messages "
        "and aliases differ by language, some swapping each other's names, through multi_lang::root in C++20 and C++17 (every entry point) and root_wrapper, explored like C01.")
from core import *
import dsl
from dsl import *


class Strings:
    """A string syntax that draws the strings from the language"""

    def __init__(self, others=None):
        self.strs, self.others = [], others

    def text(self, s):
        self.strs.append(s)
        i = len(self.strs) - 1
        if self.others:
            return "SM_(I, %s){}" % ", ".join(lit(o[i]) for o in self.others)
        return "typename tr::s%d{}" % i


_S = dsl.S
dsl.S = lambda s, st=20: st.text(s) if isinstance(st, Strings) else _S(s, st)


class Multi:
    """One tree per language, all of one shape, behind one multi-language root; asked for each of ids"""

    def __init__(self, id, langs, shape, ids, form="root", std=20, messages=None):
        self.id, self.langs, self.ids, self.form, self.std = id, langs, ids, form, std
        self.trees = {}
        self.msgs = messages or {}
        texts, lists = [], []
        for l in langs:
            st = Strings()
            texts.append(cpp_root(shape(l), st))
            lists.append(st.strs)
        assert len(set(texts)) == 1, "language changes the shape of " + id
        if form == "wrapper":
            texts = [cpp_root(shape(langs[0]), Strings(lists))]
        self.text, self.lists = texts[0], lists
        self.shape = shape

    def sub(self, k):
        return "%s_%d" % (self.id, k)

    def source(self):
        st = (lambda s: "S_(%s)" % lit(s)) if self.std == 17 else (lambda s: "ar::str<%s>" % lit(s))
        out, text = "", self.text
        if self.form == "root":
            for l, strs in zip(self.langs, self.lists):
                body = "".join(" using s%d = %s;\n" % (i, st(s)) for i, s in enumerate(strs))
                if self.msgs:
                    body += " using error_code_translations = std::tuple<%s>;\n" % ",\n ".join(
                        "std::pair<ar::traits::integral_constant<%s>, %s>" % (code_cpp(c), st(t)) for c, t in self.msgs[l])
                out += "template <> class arg_router::multi_lang::translation<%s> {\npublic:\n%s};\n" % (st(l), body)
            if self.msgs:
                text = text.replace("arp::validation::default_validator", "arp::validation::default_validator, arp::exception_translator<tr>", 1)
        out += "namespace t_%s {\n static auto make_id(std::string_view id) {\n" % self.id
        langs = ", ".join(st(l) for l in self.langs)
        if self.form == "root":
            out += " return ar::multi_lang::root<%s>(id, [](auto tr_) { using tr = decltype(tr_); [[maybe_unused]] constexpr unsigned cfg = 0;\n return %s; });\n}\n" % (langs, text)
        else:
            out += " return ar::multi_lang::root_wrapper<%s>(id, [](auto I) { [[maybe_unused]] constexpr unsigned cfg = 0;\n return %s; });\n}\n" % (langs, text)
        for k, i in enumerate(self.ids):
            out += "static auto make%d(unsigned) { static const char id[] = %s; return make_id(%s); }\n[[maybe_unused]] static const bool reg%d = (::h::reg(\"%s\", &::h::maker<&make%d>), true);\n" % (
                k, lit(i[0] if isinstance(i, tuple) else i), "ar::multi_lang::iso_locale(id)" if isinstance(i, tuple) else "std::string_view(id, sizeof id - 1)", k, self.sub(k), k)
        return out + "}\n"

    def selected(self, i):
        if isinstance(i, tuple):  # a locale name
            i = i[0].split(".")[0].replace("-", "_")
        return i if i in self.langs else self.langs[0]

    def model(self):
        out = []
        for k, i in enumerate(self.ids):
            l = self.selected(i)
            t = Tree(self.sub(k), *self.shape(l))
            if self.msgs:
                t.messages = dict(self.msgs[l])
                t.messages.update({c: "Untranslated error code (%d)" % c for c in list(CODES) + [1000] if c not in t.messages and c not in CODES})
            out += t.model()
        return out

    def files(self):
        return self


W = {"en_GB": dict(help="help", h="h", hd="Display help", force="force", f="f", fd="Force overwrite existing files", jobs="jobs", j="j", jd="Number of jobs", copy="copy", cd="Copy files",
                   dst="DST", dd="Destination", src="SRC", out="output", od="Where to", aa="alpha", bb="beta"),
     "fr": dict(help="aide", h="a", hd="Afficher l'aide", force="forcer", f="f", fd="Forcer l'\u00e9crasement des fichiers existants", jobs="travaux", j="t", jd="Nombre de travaux", copy="copier", cd="Copier les fichiers",
                dst="CIBLE", dd="Destination", src="SOURCE", out="sortie", od="O\u00f9", aa="beta", bb="alpha"),
     "ja": dict(help="\u52a9\u3051", h="h", hd="\u52a9\u3051\u3092\u8868\u793a", force="\u5f37\u5236", f="\u5f37", fd="\u65e2\u5b58\u306e\u30d5\u30a1\u30a4\u30eb\u3092\u5f37\u5236\u7684\u306b\u4e0a\u66f8\u304d", jobs="\u4ed5\u4e8b", j="\u4ed5", jd="\u4ed5\u4e8b\u306e\u6570", copy="\u30b3\u30d4\u30fc",
                cd="\u30d5\u30a1\u30a4\u30eb\u3092\u30b3\u30d4\u30fc", dst="\u5148", dd="\u76ee\u7684\u5730", src="\u5143", out="\u51fa\u529b", od="\u3069\u3053\u3078", aa="force", bb="jobs")}
W["en"], W["fr_FR"], W["de"] = W["en_GB"], W["fr"], dict(W["en_GB"], help="hilfe", force="zwingen", f="z", jobs="auftr\u00e4ge", copy="kopieren", aa="force", bb="output", out="alpha")


def copier(l):
    w = W[l]
    return [help_("--" + w["help"], "-" + w["h"], id="H", desc=w["hd"], pname="prog", pintro=w["cd"] + "."), flag("--" + w["aa"], id="A", desc=w["fd"]),
            mode(w["copy"], flag("--" + w["force"], "-" + w["f"], desc=w["fd"]), arg("i", "--" + w["jobs"], "-" + w["j"], desc=w["jd"], minv=V("i", 1), default=V("i", 1)),
                 pos("s", w["dst"], cnt=(1, 1), desc=w["dd"], required=True), pos("v<s>", w["src"]), id="C", desc=w["cd"]),
            mode(flag("--" + w["force"]), arg("s", "--" + w["out"], desc=w["od"]), id="M")]


def relations(l):
    w = W[l]
    return [help_("--" + w["help"], id="H"),
            mode(arg("i", "--" + w["aa"], "-" + w["f"], required=True), arg("i", "--" + w["bb"], default=V("i", 3)), arg("i", "--" + w["out"], alias=["--" + w["aa"], "--" + w["bb"]]),
                 flag("--" + w["jobs"], dep=["-" + w["f"]]), id="M")]


def plain(l):
    w = W[l]
    return [help_("--" + w["help"], "-" + w["h"], id="H", desc=w["hd"]), flag("--" + w["aa"], "-" + w["f"], id="A", desc=w["fd"]), arg("s", "--" + w["bb"], id="B", sep="=", desc=w["od"])]


MSGS = {"en_GB": [(0, "No such argument: {}"), (9, "No such argument: {}, try { }"), (4, "Nothing given"), (3, "Bad value {}"), (5, "{} too small"), (101, "{} needed")],
        "fr": [(0, "Argument inconnu : {}"), (9, "Argument inconnu : {} (peut-\u00eatre { })"), (4, "Aucun argument"), (3, "Valeur invalide {}"), (101, "{} manque")],
        "ja": [(9, "\u4e0d\u660e: {}"), (4, "\u5f15\u6570\u306a\u3057"), (5, "{} \u5c0f\u3055\u3044"), (2, "\u91cd\u8907 {}")]}


def plan(m, alphabet, depth, entries=("0",)):
    p = []
    for k, i in enumerate(m.ids):
        s = m.sub(k)
        main = not isinstance(i, tuple) and (i in m.langs or k == len(m.langs))
        for e in entries if main else entries[:1]:
            p += seq(s, [[a] if isinstance(a, str) else a for a in alphabet], depth if main else 1 + (e == "0" and k % 3 == 0), entry=e)
        p += helps(s) + helps(s, cols=60)
    return p


def tokens(langs, keys, extra):
    out = []
    for l in langs:
        for k in keys:
            w = W[l][k]
            out.append(("-" if len(k) == 1 else "" if k == "copy" else "--") + w)
    return list(dict.fromkeys(out + extra))


def main():
    deep = TIER == "thorough"
    c = Check("C19")
    near = ["", "en_GB ", "en_G", "en_GBx", "EN_GB", "fr_", "f", "j", "ja_JP", "xx", "en-GB", "en_GB.UTF-8", "C", "POSIX", "\u65e5\u672c",
            ("en-GB.UTF-8",), ("fr.UTF-8",), ("ja.eucJP",), ("ja-JP.eucJP",), ("fr-",), ("",)]
    L3 = ["en_GB", "fr", "ja"]
    m20 = [Multi("cop", L3, copier, L3 + near, messages=MSGS), Multi("rel", ["de", "en"], relations, ["de", "en", "", "d", "en_GB", "DE", ("de.x",), ("en.de",)])]
    m17 = [Multi("opl", ["fr_FR", "en", "ja"], plain, ["fr_FR", "en", "ja", "fr", "en_GB", ("fr-FR.UTF-8",), ("fr-fr",)], std=17)]
    mw = [Multi("wrap", ["fr", "en_GB"], plain, ["fr", "en_GB", "", "en", "en_GB ", "frr", ("en-GB.UTF-8",)], form="wrapper", std=17)]
    if deep:
        m17.append(Multi("rel17", ["de", "en"] if False else ["de", "en_GB"], relations, ["de", "en_GB", "xx"], std=17))
        mw.append(Multi("wrapc", ["ja", "fr", "en_GB", "de"], copier, ["ja", "fr", "en_GB", "de", "x", ("fr.",)], form="wrapper", std=17))
    every = [str(e) for e in range(6)]
    shim = ["-I" + os.path.join(ENGINE, "shim")]
    jobs = [(Build(c, "cpp20", m20, entries=True), plan(m20[0], tokens(L3, ["force", "f", "jobs", "copy", "out", "aa", "h"], ["3", "x"]), 3 + deep, every) +
             plan(m20[1], tokens(["de", "en"], ["aa", "bb", "out", "jobs", "f", "help"], ["3", "x"]), 4 + deep, every)),
            (Build(c, "cpp17", m17, std="c++17", entries=True, flags=shim), plan(m17[0], tokens(["fr_FR", "en", "ja"], ["aa", "bb", "f", "help", "h"], ["--alpha=x", "--jobs=y", "x"]), 3, every) +
             (plan(m17[1], tokens(["de", "en"], ["aa", "bb", "out", "jobs", "f", "help"], ["3", "x"]), 4, every) if deep else [])),
            (Build(c, "wrapper", mw, std="c++17", flags=shim), plan(mw[0], tokens(["fr", "en_GB"], ["aa", "bb", "f", "help", "h"], ["--alpha=x", "--beta=y", "x"]), 4) +
             (plan(mw[1], tokens(["ja", "fr", "en_GB", "de"], ["force", "f", "jobs", "copy", "out", "aa"], ["3"]), 3) if deep else []))]
    nat = Native(c, "select", os.path.join(ENGINE, "c19.cpp"), flags=["-DDEPTH=%d" % (6 if deep else 5)])
    with concurrent.futures.ThreadPoolExecutor(len(jobs) + 1) as ex:
        fs = [ex.submit(b.build) for b, _ in jobs]
        fn = ex.submit(nat.build)
        oks, okn = [f.result() for f in fs], fn.result()
    if okn:
        nat.run()
    for (b, p), ok in zip(jobs, oks):
        if ok:
            for t in list(b.trees):
                for k in range(len(t.ids)):
                    b.by_id[t.sub(k)] = t
                    if t.id in b.failed:
                        b.failed[t.sub(k)] = b.failed[t.id]
            b.run(p)
    return c.finish()
