#include "model.hpp"
#include "unicode.hpp"

#include <algorithm>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <map>
#include <sstream>

#ifndef AR_LONG_PREFIX
#    define AR_LONG_PREFIX "--"
#endif
#ifndef AR_SHORT_PREFIX
#    define AR_SHORT_PREFIX "-"
#endif

namespace m
{
prefixes pfx{AR_LONG_PREFIX, AR_SHORT_PREFIX};

// ---------------------------------------------------------------------------------------------
// tokens

static bool starts(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }

string show(const Tok& t) { return (t.p == L ? pfx.lp : t.p == S ? pfx.sp : string{}) + t.n; }

string show(const vector<Tok>& v)
{
    string r;
    for (std::size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + show(v[i]);
    return r;
}

static Tok classify(const string& s)
{
    if (starts(s, pfx.lp)) return {L, s.substr(pfx.lp.size())};
    if (starts(s, pfx.sp)) return {S, s.substr(pfx.sp.size())};
    return {N, s};
}

static Tok classify_for(const Node& n, const string& s)
{
    if (!n.lng.empty() && starts(s, pfx.lp)) return {L, s.substr(pfx.lp.size())};
    if (!n.sht.empty() && starts(s, pfx.sp) && (pfx.sp == pfx.lp || !starts(s, pfx.lp)))
        return {S, s.substr(pfx.sp.size())};
    return {N, s};
}

static bool names(const Node& n, const Tok& t)
{
    return (t.p == L && !n.lng.empty() && t.n == n.lng) ||
           ((t.p == S || (t.p == L && pfx.lp == pfx.sp)) && !n.sht.empty() && t.n == n.sht) ||
           (t.p == N && n.has_none && t.n == n.none);
}

static string default_disp(const Node& n)
{
    return n.k == K::oneof ? "One of: " : "Alias Group: ";
}

static Tok ntok(const Node& n);

static string group_name(const Node& n)
{
    string r = n.has_disp ? n.disp : default_disp(n);
    for (std::size_t i = 0; i < n.ch.size(); ++i) r += (i ? "," : "") + show(ntok(n.ch[i]));
    return r;
}

static Tok ntok(const Node& n)
{
    if (n.has_err) return {N, n.err};
    if (n.k == K::oneof || n.k == K::agroup) return {N, group_name(n)};
    if (n.k == K::mode && !n.has_none) return {N, "(Anon mode)"};
    if (n.has_disp) return {N, n.disp};
    if (!n.lng.empty()) return {L, n.lng};
    if (!n.sht.empty()) return {S, n.sht};
    return {N, n.none};
}

// ---------------------------------------------------------------------------------------------
// values.  Canonical text: <type>:<payload>

static bool is_vec(const string& t) { return t.size() > 3 && t.compare(0, 2, "v<") == 0; }
static bool is_opt(const string& t) { return t.size() > 3 && t.compare(0, 2, "o<") == 0; }
static string elem(const string& t) { return t.substr(2, t.size() - 3); }

string zero(const string& t)
{
    if (is_vec(t)) return t + ":[]";
    if (is_opt(t)) return t + ":none";
    if (t == "b") return "b:0";
    if (t == "s" || t == "sv") return t + ":";
    if (t == "c") return string("c:") + '\0';
    if (t == "en") return "en:0";
    return t + ":0";
}

static bool int_range(const string& t, __int128& lo, __int128& hi)
{
    if (t == "i8") lo = -128, hi = 127;
    else if (t == "u8") lo = 0, hi = 255;
    else if (t == "i16") lo = -32768, hi = 32767;
    else if (t == "u16") lo = 0, hi = 65535;
    else if (t == "i") lo = -2147483648LL, hi = 2147483647LL;
    else if (t == "u") lo = 0, hi = 4294967295LL;
    else if (t == "i64") lo = std::numeric_limits<std::int64_t>::min(), hi = std::numeric_limits<std::int64_t>::max();
    else if (t == "u64") lo = 0, hi = std::numeric_limits<std::uint64_t>::max();
    else return false;
    return true;
}

static string to_s(__int128 v)
{
    if (v == 0) return "0";
    bool neg = v < 0;
    string r;
    while (v != 0) {
        int d = static_cast<int>(v % 10);
        r += static_cast<char>('0' + (d < 0 ? -d : d));
        v /= 10;
    }
    if (neg) r += '-';
    std::reverse(r.begin(), r.end());
    return r;
}

static std::optional<__int128> int_text(const string& s)
{
    std::size_t i = 0;
    bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (i == s.size()) return {};
    while (i + 1 < s.size() && s[i] == '0') ++i;
    if (s.size() - i > 30) {
        for (; i < s.size(); ++i)
            if (s[i] < '0' || s[i] > '9') return {};
        return {};
    }
    __int128 v = 0;
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') return {};
        v = v * 10 + (s[i] - '0');
    }
    return neg ? -v : v;
}

// decimal floating point grammar: [+-]? (digits [. digits*] | . digits+) ([eE][+-]?digits+)?
static bool float_grammar(const string& s)
{
    std::size_t i = 0;
    auto digits = [&] {
        std::size_t n = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i, ++n;
        return n;
    };
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    std::size_t n = digits();
    if (i < s.size() && s[i] == '.') {
        ++i;
        n += digits();
    }
    if (n == 0) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        if (digits() == 0) return false;
    }
    return i == s.size();
}

std::optional<string> parse_scalar(const string& t, const string& s, bool custom)
{
    if (is_opt(t)) {
        auto r = parse_scalar(elem(t), s, custom);
        if (!r) return {};
        return t + ":" + *r;
    }
    if (custom && t == "i") {
        // custom parser of the harness: number of bytes of the token
        return "i:" + std::to_string(s.size());
    }
    if (t == "en") {
        // custom parser of the harness: red, green, blue; anything else is 7
        if (s == "red") return "en:1";
        if (s == "green") return "en:2";
        if (s == "blue") return "en:3";
        return "en:7";
    }
    if (custom && t == "gp") return "gp:" + std::to_string(-static_cast<int>(s.size()));
    if (t == "gp") {
        if (s.empty() || s[0] == '!') return {};
        if (s[0] == '?') throw Err{static_cast<Code>(1000), {Tok{N, s}}};
        unsigned r = 0;
        for (unsigned char c : s) r = r * 3 + c;
        return "gp:" + std::to_string(static_cast<int>(r));
    }
    if (t == "s" || t == "sv") return t + ":" + s;
    if (t == "b") {
        for (auto w : {"true", "yes", "y", "on", "1", "enable"})
            if (s == w) return "b:1";
        for (auto w : {"false", "no", "n", "off", "0", "disable"})
            if (s == w) return "b:0";
        return {};
    }
    if (t == "c") {
        if (s.size() != 1) return {};
        return "c:" + s;
    }
    __int128 lo, hi;
    if (int_range(t, lo, hi)) {
        auto v = int_text(s);
        if (!v || *v < lo || *v > hi) return {};
        return t + ":" + to_s(*v);
    }
    if (t == "d" || t == "f") {
        auto l = s;
        for (auto& c : l) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
        std::size_t sg = !l.empty() && (l[0] == '+' || l[0] == '-');
        auto word = l.substr(sg);
        bool special = word == "inf" || word == "infinity" || word == "nan" ||
                       (word.size() >= 5 && word.compare(0, 4, "nan(") == 0 && word.back() == ')');
        if (!special && !float_grammar(s)) return {};
        char buf[64];
        bool over = false;
        if (t == "d") {
            auto v = std::strtod(s.c_str(), nullptr);
            over = std::isinf(v);
            std::snprintf(buf, sizeof buf, "%.17g", v);
        } else {
            auto v = std::strtof(s.c_str(), nullptr);
            over = std::isinf(v);
            std::snprintf(buf, sizeof buf, "%.9g", static_cast<double>(v));
        }
        if (over && !special) return {};
        return t + ":" + buf;
    }
    std::abort();
}

// numeric payload of a canonical scalar
static long double num(const string& canon)
{
    auto p = canon.rfind(':');
    return std::strtold(canon.c_str() + p + 1, nullptr);
}

// ---------------------------------------------------------------------------------------------
// text

static vector<std::uint32_t> decode(const string& s, vector<std::size_t>* len = nullptr)
{
    vector<std::uint32_t> r;
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        std::size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        std::uint32_t v = n == 1 ? c : n == 2 ? c & 0x1F : n == 3 ? c & 0x0F : c & 0x07;
        for (std::size_t k = 1; k < n && i + k < s.size(); ++k)
            v = (v << 6) | (static_cast<unsigned char>(s[i + k]) & 0x3F);
        if (i + n > s.size()) n = s.size() - i;
        r.push_back(v);
        if (len) len->push_back(n);
        i += n;
    }
    return r;
}

vector<string> graphemes(const string& s)
{
    vector<std::size_t> len;
    auto cps = decode(s, &len);
    vector<uc::G> c;
    for (auto x : cps) c.push_back(uc::gclass(x));
    vector<string> r;
    std::size_t pos = 0;
    for (std::size_t i = 0; i < c.size(); pos += len[i++]) {
        if (i == 0 || uc::gbreak(c, i)) r.emplace_back();
        r.back() += s.substr(pos, len[i]);
    }
    return r;
}

std::size_t lev(const string& a, const string& b)
{
    auto x = graphemes(a), y = graphemes(b);
    vector<vector<std::size_t>> d(x.size() + 1, vector<std::size_t>(y.size() + 1));
    for (std::size_t i = 0; i <= x.size(); ++i)
        for (std::size_t j = 0; j <= y.size(); ++j) {
            if (i == 0) d[i][j] = j;
            else if (j == 0) d[i][j] = i;
            else
                d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1,
                                    d[i - 1][j - 1] + (x[i - 1] == y[j - 1] ? 0 : 1)});
        }
    return d[x.size()][y.size()];
}

std::size_t width(const string& s)
{
    std::size_t w = 0;
    for (auto c : decode(s)) w += uc::prop(c).width;
    return w;
}

// Greedy wrapping: a line
// takes everything up to the last legal break that fits, else everything that fits; white space at
// the start of a continuation line is dropped.
vector<string> wrap(const string& s, std::size_t w)
{
    vector<std::size_t> len;
    auto cps = decode(s, &len);
    vector<string> parts;
    for (std::size_t i = 0, p = 0; i < cps.size(); p += len[i++]) parts.push_back(s.substr(p, len[i]));
    vector<uc::B> cls;
    for (auto c : cps) cls.push_back(uc::bclass(c));
    vector<string> r;
    std::size_t i = 0;
    while (i < parts.size()) {
        std::size_t col = 0, j = i, brk = i;
        for (; j < parts.size(); ++j) {
            auto cw = width(parts[j]);
            if (col + cw > w && j > i) break;
            col += cw;
            if (j + 1 < parts.size() && uc::lexpected(cls, j + 1)) brk = j + 1;
        }
        if (j < parts.size()) {
            if (brk == i) brk = j;
        } else brk = j;
        string line;
        for (auto k = i; k < brk; ++k) line += parts[k];
        r.push_back(line);
        i = brk;
        while (i < parts.size() && uc::white(cps[i])) ++i;
    }
    return r;
}

// ---------------------------------------------------------------------------------------------
// messages

string default_message(Code c)
{
    switch (c) {
    case unknown_argument: return "Unknown argument";
    case unhandled_arguments: return "Unhandled arguments";
    case argument_has_already_been_set: return "Argument has already been set";
    case failed_to_parse: return "Failed to parse";
    case no_arguments_passed: return "No arguments passed";
    case minimum_value_not_reached: return "Minimum value not reached";
    case maximum_value_exceeded: return "Maximum value exceeded";
    case minimum_count_not_reached: return "Minimum count not reached";
    case maximum_count_exceeded: return "Maximum count exceeded";
    case unknown_argument_with_suggestion: return "Unknown argument: {}. Did you mean { }?";
    case mode_requires_arguments: return "Mode requires arguments";
    case missing_required_argument: return "Missing required argument";
    case too_few_values_for_alias: return "Too few values for alias";
    case dependent_argument_missing:
        return "Dependent argument missing (needs to be before the requiring token on the command "
               "line)";
    case one_of_selected_type_mismatch:
        return "Only one argument from a \"One Of\" can be used at once";
    case missing_value_separator: return "Expected a value separator";
    default: return "Untranslated error code (" + std::to_string(static_cast<int>(c)) + ")";
    }
    std::abort();
}

string format_message(const string& tmpl, const vector<Tok>& toks)
{
    // cut the template into literals and placeholders
    struct Piece {
        bool ph;
        string text;
    };
    vector<Piece> ps;
    std::size_t at = 0;
    bool any = false;
    while (true) {
        auto o = tmpl.find('{', at);
        auto c = o == string::npos ? o : tmpl.find('}', o + 1);
        if (c == string::npos) {
            ps.push_back({false, tmpl.substr(at)});
            break;
        }
        ps.push_back({false, tmpl.substr(at, o - at)});
        ps.push_back({true, tmpl.substr(o + 1, c - o - 1)});
        any = true;
        at = c + 1;
    }
    if (!any) return tmpl + (toks.empty() ? "" : ": " + show(toks));
    string r;
    std::size_t i = 0;
    for (auto& p : ps) {
        if (!p.ph) {
            r += p.text;
            continue;
        }
        if (i >= toks.size()) continue;
        r += show(toks[i++]);
        if (!p.text.empty())
            for (; i < toks.size(); ++i) r += p.text + show(toks[i]);
    }
    return r;
}

string translate_default(const Err& e) { return format_message(default_message(e.code), e.toks); }

// ---------------------------------------------------------------------------------------------
// tree

static void link(Node& n)
{
    for (auto& c : n.ch) {
        c.parent = &n;
        link(c);
    }
}
void finalise(Node& root) { link(root); }

static bool enabled(const Node& n, const World& w) { return n.en < 0 || ((w.cfg >> n.en) & 1); }

struct Target {
    const Node* n;
    vector<Tok> toks;
    vector<Target> subs;
};

using Accept = std::function<bool(const Node&)>;

static bool refers(const vector<string>& refs, const Node& n)
{
    for (auto& r : refs) {
        if (r[0] == 'L' && !n.lng.empty() && r.substr(2) == n.lng) return true;
        if (r[0] == 'S' && !n.sht.empty() && r.substr(2) == n.sht) return true;
    }
    return false;
}

static void collect(const Node& n, const vector<string>& refs, vector<const Node*>& out)
{
    if (n.k != K::root && refers(refs, n)) out.push_back(&n);
    for (auto& c : n.ch) collect(c, refs, out);
}

static const Node& owner_scope(const Node& n)
{
    auto p = n.parent;
    while (p->parent && p->k != K::mode) p = p->parent;
    return *p;
}

// A leaf: does it want the head of the command line, and how much of it?
static std::optional<Target> leaf(const Node& n, vector<Tok>& args, const Target* cur,
                                  const Accept& accept, const World& w)
{
    if (!enabled(n, w)) return {};

    vector<Tok> in = args;
    std::optional<Err> err;
    bool label_done = false;  // head of `in` is already known to be a label candidate
    Tok label{N, ""};

    if (n.named()) {
        if (in.empty()) return {};
        label = in[0];
        if (!n.sep.empty()) {
            auto at = label.n.find(n.sep);
            if (at == string::npos) {
                auto t = label.p == N ? classify(label.n) : label;
                if (!names(n, t)) return {};
                err = Err{missing_value_separator, {ntok(n)}};
            } else {
                auto value = label.n.substr(at + n.sep.size());
                if (value.empty()) return {};
                in[0] = {label.p, label.n.substr(0, at)};
                in.insert(in.begin() + 1, Tok{N, value});
            }
        }
        if (!err && (n.k == K::flag || n.k == K::count) && !n.sht.empty() && pfx.lp != pfx.sp) {
            auto t = in[0].p == N ? classify_for(n, in[0].n) : in[0];
            if (t.p == S) {
                auto gs = graphemes(t.n);
                if (gs.size() > 1) {
                    in.erase(in.begin());
                    vector<Tok> ex;
                    for (auto& g : gs) ex.push_back({S, g});
                    in.insert(in.begin(), ex.begin(), ex.end());
                }
            }
        }
        label = in[0].p == N ? classify_for(n, in[0].n) : in[0];
        if (!names(n, label)) return {};
        in.erase(in.begin());
        label_done = true;
    }
    (void)label_done;

    // `in` now holds what follows the label
    vector<Tok> taken;
    if (!err) {
        if (!n.endm.empty()) {
            auto it = std::find_if(in.begin(), in.end(), [&](auto& t) { return t.n == n.endm; });
            taken.assign(in.begin(), it);
            in.erase(in.begin(), it == in.end() ? it : it + 1);
            if (taken.size() > n.maxc) err = Err{maximum_count_exceeded, {ntok(n)}};
            else if (taken.size() < n.minc) err = Err{minimum_count_not_reached, {ntok(n)}};
        } else if (n.k != K::mode) {
            if (in.size() < n.minc) err = Err{minimum_count_not_reached, {ntok(n)}};
            else {
                auto k = std::min(in.size(), n.maxc);
                taken.assign(in.begin(), in.begin() + k);
                in.erase(in.begin(), in.begin() + k);
            }
        }
    }
    if (!err && !n.dep.empty()) {
        vector<const Node*> ds;
        collect(owner_scope(n), n.dep, ds);
        for (auto d : ds) {
            bool seen = false;
            for (auto& s : cur->subs) seen = seen || s.n == d;
            if (!seen) {
                err = Err{dependent_argument_missing, {ntok(*d)}};
                break;
            }
        }
    }
    Target t{&n, taken, {}};
    if (!err && !n.alias.empty()) {
        vector<const Node*> ds;
        collect(owner_scope(n), n.alias, ds);
        // an alias of an alias stands for what that stands for
        std::function<void(const Node*)> put = [&](const Node* d) {
            if (d->alias.empty()) {
                // a disabled node keeps its default
                for (auto a = d; a; a = a->parent)
                    if (!enabled(*a, w)) return;
                t.subs.push_back({d, taken, {}});
                return;
            }
            vector<const Node*> more;
            collect(owner_scope(*d), d->alias, more);
            for (auto x : more) put(x);
        };
        for (auto d : ds) put(d);
        t.toks.clear();
    }
    if (!accept(n)) return {};
    if (err) throw *err;
    args = in;
    return t;
}

static std::optional<Target> group(const Node& n, vector<Tok>& args, const Target* cur,
                                   const Accept& accept, const World& w)
{
    // the alternative this command line has selected so far
    const Node* selected = nullptr;
    for (auto& s : cur->subs)
        for (auto& c : n.ch)
            if (s.n == &c) selected = &c;
    for (auto& c : n.ch) {
        auto t = leaf(c, args, cur,
                      [&](const Node& real) {
                          if (n.k == K::oneof) {
                              if (selected && selected != &c)
                                  throw Err{one_of_selected_type_mismatch, {ntok(n)}};
                              selected = &c;
                          }
                          return accept(real);
                      },
                      w);
        if (t) return t;
    }
    return {};
}

[[noreturn]] static void unknown(const Node& scope, const Tok& tok, const World& w)
{
    auto key = tok.p == N ? classify(tok.n) : tok;
    std::size_t best = NMAX;
    vector<Tok> found;
    std::function<void(const Node&)> go = [&](const Node& n) {
        if (&n != &scope) {
            bool on = true;
            for (auto p = &n; p; p = p == &scope ? nullptr : p->parent) on = on && enabled(*p, w);
            if (on) {
                auto consider = [&](P p, const string& name) {
                    auto d = lev(key.n, name);
                    if (d < best) {
                        best = d;
                        found = {Tok{p, name}};
                        for (auto a = n.parent; a != &scope; a = a->parent)
                            found.insert(found.begin(), ntok(*a));
                    }
                };
                if (!n.lng.empty()) consider(L, n.lng);
                if (!n.sht.empty()) consider(S, n.sht);
                if (n.has_none) consider(N, n.none);
            }
        }
        for (auto& c : n.ch) go(c);
    };
    go(scope);
    if (found.empty()) throw Err{unknown_argument, {tok}};
    found.insert(found.begin(), tok);
    throw Err{unknown_argument_with_suggestion, found};
}

static std::optional<Target> match_mode(const Node& n, vector<Tok>& args, const World& w)
{
    if (!enabled(n, w)) return {};
    if (n.has_none) {
        if (args.empty() || args[0].p != N || args[0].n != n.none) return {};
        args.erase(args.begin());
        if (!args.empty())
            for (auto& c : n.ch)
                if (c.k == K::mode)
                    if (auto t = match_mode(c, args, w)) return t;
    }
    Target t{&n, {}, {}};
    vector<bool> done(n.ch.size());
    while (!args.empty()) {
        auto front = args[0];
        std::optional<Target> hit;
        for (std::size_t i = 0; i < n.ch.size() && !hit; ++i) {
            auto& c = n.ch[i];
            if (c.k == K::mode) continue;
            Accept acc = [&](const Node& real) {
                if (real.k == K::count) return true;
                if (!real.named()) return !done[i];
                if (done[i]) throw Err{argument_has_already_been_set, {front}};
                return true;
            };
            if (c.k == K::oneof || c.k == K::agroup) hit = group(c, args, &t, acc, w);
            else hit = leaf(c, args, &t, acc, w);
            if (hit) done[i] = true;
        }
        if (!hit) {
            if (std::all_of(done.begin(), done.end(), [](bool b) { return b; }))
                throw Err{unhandled_arguments, args};
            unknown(n, front, w);
        }
        if (hit->subs.empty()) t.subs.push_back(*hit);
        else
            for (auto& s : hit->subs) t.subs.push_back(s);
    }
    return t;
}

static void check_bounds(const Node& n, const string& canon)
{
    auto less = [&](const string& a, const string& b) {
        if (n.type == "s" || n.type == "sv") {
            auto x = a.substr(n.type.size() + 1), y = b.substr(n.type.size() + 1);
            return n.cmp == "len" ? x.size() < y.size() : n.cmp == "rev" ? y < x : x < y;
        }
        return n.cmp == "rev" ? num(b) < num(a) : num(a) < num(b);
    };
    if (n.minv && less(canon, *n.minv)) throw Err{minimum_value_not_reached, {ntok(n)}};
    if (n.maxv && less(*n.maxv, canon)) throw Err{maximum_value_exceeded, {ntok(n)}};
}

static string value_of(const Node& n, const vector<Tok>& toks)
{
    string r;
    if (n.k == K::flag || n.k == K::count) return "b:1";
    if (is_vec(n.type)) {
        r = n.type + ":[";
        for (auto& t : toks) {
            auto v = parse_scalar(elem(n.type), t.n, n.custom);
            if (!v) throw Err{failed_to_parse, {Tok{N, t.n}}};
            r += *v + ";";
        }
        return r + "]";
    }
    if (toks.empty()) return zero(n.type);
    auto v = parse_scalar(n.type, toks[0].n, n.custom);
    if (!v) throw Err{failed_to_parse, {Tok{N, toks[0].n}}};
    check_bounds(n, *v);
    return *v;
}

// type of the value a mode child contributes; "" if none
static string result_type(const Node& n)
{
    if (n.noresult()) return "";
    if (n.k == K::flag) return "b";
    return n.type;
}

static string run_mode(const Target& t, const World& w)
{
    auto& n = *t.n;
    bool any_leaf = false;
    for (auto& c : n.ch) any_leaf = any_leaf || c.k != K::mode;

    vector<std::optional<string>> res(n.ch.size());
    vector<long long> counts(n.ch.size(), -1);
    for (auto& s : t.subs) {
        auto v = value_of(*s.n, s.toks);
        for (std::size_t i = 0; i < n.ch.size(); ++i) {
            auto& c = n.ch[i];
            int alt = -1;
            bool mine = &c == s.n;
            if (c.k == K::oneof || c.k == K::agroup) {
                int k = 0;
                for (auto& g : c.ch) {
                    if (&g == s.n) mine = true, alt = k;
                    if (!g.noresult()) ++k;
                }
            }
            if (!mine) continue;
            if (c.k == K::mode || c.noresult()) continue;
            if (s.n->k == K::count) {
                // counting goes on from a value given by another member of an alias group
                if (counts[i] < 0) counts[i] = res[i] ? std::stoll(res[i]->substr(res[i]->rfind(':') + 1)) : 0;
                ++counts[i];
                res[i] = s.n->type + ":" + std::to_string(counts[i]);
            } else {
                if (res[i]) throw Err{argument_has_already_been_set, {ntok(*s.n)}};
                res[i] = (c.k == K::oneof && c.type == "var") ? "var" + std::to_string(alt) + "/" + v : v;
            }
        }
    }
    for (std::size_t i = 0; i < n.ch.size(); ++i) {
        auto& c = n.ch[i];
        if (c.k == K::mode || c.noresult() || res[i]) continue;
        if (c.required) throw Err{missing_required_argument, {ntok(c)}};
        if (c.en_req) {
            if (enabled(c, w)) throw Err{missing_required_argument, {ntok(c)}};
            res[i] = c.en_def ? *c.en_def : zero(result_type(c));
        } else if (c.def) res[i] = *c.def;
        else res[i] = zero(result_type(c));
        if (!is_vec(result_type(c))) check_bounds(c, *res[i]);
    }
    for (std::size_t i = 0; i < n.ch.size(); ++i) {
        auto& c = n.ch[i];
        bool multi = c.k == K::count;
        if (c.k == K::agroup)
            for (auto& g : c.ch) multi = multi || g.k == K::count;
        if (multi && res[i]) check_bounds(c, *res[i]);
    }
    if (!any_leaf && n.id.empty()) throw Err{mode_requires_arguments, {ntok(n)}};
    string r = n.id + "(";
    for (std::size_t i = 0; i < n.ch.size(); ++i)
        if (res[i]) r += *res[i] + ",";
    return r + ")";
}

// ---------------------------------------------------------------------------------------------
// help

struct HD {
    string label, desc;
    vector<HD> ch;
};

static string num_text(const string& canon) { return canon.substr(canon.rfind(':') + 1); }

static string bounds_text(const Node& n)
{
    if (!n.ct_bounds || (!n.minv && !n.maxv)) return "";
    string lo = n.minv ? num_text(*n.minv) : n.unsigned_bounds ? "0" : "-N";
    string hi = n.maxv ? num_text(*n.maxv) : "N";
    return "<" + lo + "-" + hi + ">";
}

static string count_text(const Node& n)
{
    if (n.minc == n.maxc) return "[" + std::to_string(n.minc) + "]";
    return "[" + std::to_string(n.minc) + "," + (n.maxc == NMAX ? "N" : std::to_string(n.maxc)) + "]";
}

static string names_text(const Node& n)
{
    string r;
    if (!n.lng.empty()) r = pfx.lp + n.lng;
    if (!n.sht.empty()) r += (r.empty() ? "" : ",") + pfx.sp + n.sht;
    if (r.empty()) r = n.none;
    if (r.empty()) return r;
    string v = bounds_text(n);
    if (v.empty()) v = "<Value>";
    bool one = n.k != K::mode && n.k != K::help && n.minc == 1 && n.maxc == 1;
    if (!n.sep.empty()) r += n.sep + v;
    else if (one) r += " " + v;
    return r;
}

static string label_of(const Node& n)
{
    switch (n.k) {
    case K::root: return "";
    case K::mode: return n.has_none ? n.none : " ";
    case K::oneof: return n.has_disp ? n.disp : default_disp(n);
    case K::agroup: return (n.has_disp ? n.disp : default_disp(n)) + bounds_text(n);
    case K::pos: return "<" + n.disp + "> " + count_text(n);
    case K::marg:
    case K::fwd: return names_text(n) + " " + count_text(n);
    default: return names_text(n);
    }
}

static const char* bars[] = {"\u250c ", "\u251c ", "\u2514 "};

static HD build(const Node& n, bool flat, bool all, const World& w)
{
    HD h{label_of(n), (n.k == K::root || n.k == K::oneof || n.k == K::agroup) ? "" : n.desc, {}};
    if (n.k == K::root || (n.k == K::mode && (flat || !n.has_none)) || n.k == K::oneof ||
        n.k == K::agroup)
        for (auto& c : n.ch)
            if (all || enabled(c, w)) h.ch.push_back(build(c, flat || n.k != K::root, all, w));
    if ((n.k == K::oneof || n.k == K::agroup) && h.ch.size() > 1)
        for (std::size_t i = 0; i < h.ch.size(); ++i)
            h.ch[i].label = bars[i == 0 ? 0 : i + 1 == h.ch.size() ? 2 : 1] + h.ch[i].label;
    return h;
}

static void column(const HD& h, std::size_t depth, std::size_t indent, std::size_t& c)
{
    c = std::max(c, depth * indent + width(h.label) + indent);
    for (auto& k : h.ch) column(k, depth + 1, indent, c);
}

static void print(const HD& h, std::size_t depth, std::size_t indent, std::size_t col, std::size_t columns, string& out)
{
    if (!h.label.empty()) {
        string line = string(depth * indent, ' ') + h.label;
        if (!h.desc.empty()) {
            line += string(col - depth * indent - width(h.label), ' ');
            auto ls = wrap(h.desc, columns - col);
            for (std::size_t i = 0; i < ls.size(); ++i)
                line += (i ? "\n" + string(col, ' ') : "") + ls[i];
        }
        out += line + "\n";
    }
    for (auto& k : h.ch) print(k, depth + 1, indent, col, columns, out);
}

static string help_text(const Node& help, const Node& target, bool flat, const World& w)
{
    string out;
    if (!help.pname.empty()) out += help.pname + (help.pver.empty() ? "" : " " + help.pver) + "\n\n";
    if (!help.pintro.empty()) out += help.pintro + "\n\n";
    std::size_t col = 0;
    // the description column is that of the complete tree, whatever is switched off
    column(build(target, flat, true, w), 0, help.indent, col);
    auto columns = w.columns >= col + help.offset ? w.columns : NMAX;
    print(build(target, flat, false, w), 0, help.indent, col, columns, out);
    if (!help.padd.empty()) out += "\n" + help.padd + "\n";
    return out;
}

static string run_help(const Node& help, const vector<Tok>& path, const World& w)
{
    auto root = help.parent;
    const Node* at = root;
    for (auto& t : path) {
        const Node* next = nullptr;
        for (auto& c : at->ch)
            if (!next && names(c, classify_for(c, t.n))) next = &c;
        if (!next || !enabled(*next, w)) throw Err{unknown_argument, {Tok{t.p, t.n}}};
        at = next;
    }
    return help.id + "(help:" + help_text(help, *at, help.flatten || at != root, w) + ",)";
}

string predict_help(const Node& root, const World& w)
{
    for (auto& c : root.ch)
        if (c.k == K::help) return help_text(c, root, c.flatten, w);
    return "";
}

// ---------------------------------------------------------------------------------------------

string predict(const Node& root, const World& w, const vector<string>& argv)
{
    vector<Tok> args;
    for (auto& a : argv) args.push_back({N, a});
    try {
        auto front = args.empty() ? Tok{N, ""} : args[0];
        for (auto& c : root.ch) {
            std::optional<Target> t;
            if (c.k == K::mode) t = match_mode(c, args, w);
            else t = leaf(c, args, nullptr, [](auto&) { return true; }, w);
            if (!t) continue;
            if (!args.empty()) throw Err{unhandled_arguments, args};
            if (c.k == K::mode) return run_mode(*t, w);
            if (c.k == K::help) return run_help(c, t->toks, w);
            return c.id + "(" + value_of(c, t->toks) + ",)";
        }
        if (front.n.empty()) throw Err{no_arguments_passed, {}};
        unknown(root, front, w);
    } catch (const Err& e) {
        return "E:" + (w.translate ? w.translate(e) : translate_default(e));
    }
}
}  // namespace m
