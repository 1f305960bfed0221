#include <arg_router/arg_router.hpp>
#include <map>
#include "guardpage.hpp"
#include "native.hpp"
#include "unicode.hpp"

namespace u8 = arg_router::utility::utf8;
using std::string;
using std::string_view;
using std::vector;

#ifndef DEEP
#define DEEP 0
#endif

static string hex(string_view s)
{
    string r;
    char b[4];
    for (unsigned char c : s) std::snprintf(b, sizeof b, "%02x", c), r += b;
    return r;
}
static string join(const vector<string>& v)
{
    string r;
    for (auto& x : v) r += "[" + hex(x) + "]";
    return r;
}
static vector<string> library(string_view s)
{
    vector<string> r;
    std::size_t total = 0;
    for (auto it = u8::iterator{s}; it != u8::iterator{};) {
        auto before = it;
        auto x = *it;
        r.emplace_back(x);
        total += x.size();
        if (x.empty() || total > s.size()) {
            nat::bad("non-empty clusters within the text", join(r));
            return r;
        }
        auto old = it++;
        if (!(old == before) || it == before) {
            nat::bad("post-increment returns the old position and moves", join(r));
            return r;
        }
    }
    return r;
}
static void clusters(const string& s)
{
    auto want = uc::graphemes(s);
    auto got = library(s);
    nat::state();
    nat::step(want.size());
    string shape;
    for (auto& x : want) shape += std::to_string(uc::decode(x).size()) + " ";
    nat::outcome(shape);
    if (want != got) {
        nat::bad(join(want), join(got));
        return;
    }
    nat::same(want.size(), u8::count(s), "count");
    nat::sample(join(got));
}

// Two representatives of each grapheme class, from different parts of the tables
static vector<vector<std::uint32_t>> reps()
{
    vector<vector<std::uint32_t>> r(15);
    for (std::uint32_t c = 1; c < 0x110000; ++c) {
        if (c >= 0xD800 && c < 0xE000) continue;
        if (!uc::in14(c)) continue;
        auto& v = r[uc::gclass(c)];
        if (v.empty() || (v.size() == 1 && c > 0x1000 && uc::encode(c).size() != uc::encode(v[0]).size())) v.push_back(c);
    }
    r[0][0] = 'a';
    return r;
}

static void scalars()
{
    auto rep = reps();
    for (std::uint32_t c = 0; c < 0x110000; ++c) {
        if (c >= 0xD800 && c < 0xE000) continue;
        if (!nat::mine(c >> 8)) continue;
        auto s = uc::encode(c);
        auto p = gp::put(s);
        nat::at("scalar/" + hex(s));
        nat::state();
        auto d = u8::code_point::decode(p);
        if (!d || *d != c) nat::bad("decodes to " + std::to_string(c), d ? std::to_string(*d) : "nothing");
        nat::same(s.size(), u8::code_point::size(p), "size");
        nat::same(std::size_t(1), u8::code_point::count(p), "code points");
        nat::same(std::size_t(1), u8::count(p), "characters");
        nat::same(uc::white(c), u8::is_whitespace(p), "white space");
        nat::same(uc::white(c), u8::contains_whitespace(p), "contains white space");
        // The surrogate and out of table code points of later Unicode versions have the width their block has
        if (uc::in14(c)) nat::same(std::size_t(uc::prop(c).width), u8::terminal_width(p), "width");
        auto it = u8::code_point::iterator{p};
        if (*it != p) nat::bad("iterator at the whole code point", hex(*it));
        if (++it != u8::code_point::iterator{}) nat::bad("one code point", "more");
        if (!uc::in14(c)) continue;
        for (unsigned k = 0; k < 15; ++k)
            for (auto x : rep[k]) {
                auto e = uc::encode(x);
                auto check = [&](const string& l, uc::G lc, const string& r, uc::G rc) {
                    nat::step();
                    auto t = l + r;
                    auto n = uc::gbreak({lc, rc}, 1) ? l.size() : t.size();
                    auto got = (*u8::iterator{t}).size();
                    if (got != n) {
                        nat::at("pair/" + hex(t));
                        nat::bad("first character of " + std::to_string(n) + " bytes", std::to_string(got));
                    }
                };
                check(s, uc::gclass(c), e, uc::G(k));
                check(e, uc::G(k), s, uc::gclass(c));
            }
    }
}

static void sequences(unsigned maxlen)
{
    auto rep = reps();
    vector<string> one;
    for (auto& r : rep) one.push_back(uc::encode(r[0]));
    std::uint64_t n = 0;
    for (unsigned len = 1; len <= maxlen; ++len) {
        vector<unsigned> ix(len, 0);
        for (;;) {
            if (nat::mine(n++ / 64)) {
                string s;
                for (auto i : ix) s += one[i];
                nat::at("sequence/" + hex(s));
                clusters(s);
            }
            unsigned k = 0;
            while (k < len && ++ix[k] == one.size()) ix[k++] = 0;
            if (k == len) break;
        }
    }
    // Runs of flags after each class, up to the number of code points the library looks back over
    vector<string> ri;
    for (auto c : rep[uc::gRI]) ri.push_back(uc::encode(c));
    for (unsigned a = 0; a < one.size(); ++a)
        for (unsigned b = 0; b < one.size(); ++b)
            for (unsigned k = 0; k <= 15; ++k)
                for (unsigned m = 0; m <= 3; ++m)
                    if (nat::mine(a) && k + m + (a == uc::gRI) + (b == uc::gRI) <= 16) {
                        string s = one[a];
                        for (unsigned i = 0; i < k; ++i) s += ri[0];
                        s += one[b];
                        for (unsigned i = 0; i < m; ++i) s += ri[0];
                        nat::at("flags/" + hex(s));
                        clusters(s);
                    }
    // Emoji joined after each class and a run of extenders, as far back as the library looks
    for (unsigned a = 0; a < one.size(); ++a)
        for (unsigned b = 0; b < one.size(); ++b)
            for (unsigned k = 0; k <= 20; ++k)
                for (unsigned m = 0; m < one.size(); ++m)
                    if (nat::mine(a)) {
                        string s = one[a] + one[b];
                        for (unsigned i = 0; i < k; ++i) s += one[uc::gExtend];
                        s += one[uc::gZWJ] + one[uc::gPict] + one[m];
                        nat::at("emoji/" + hex(s));
                        clusters(s);
                    }
}

// Text iteration of anything at all
static void any(const string& s)
{
    auto p = gp::put(s);
    nat::state();
    string all;
    std::size_t n = 0;
    for (auto x : u8::code_point::iterator::range(p)) {
        all += string(x);
        ++n;
        nat::step();
        u8::code_point::decode(x);
        if (x.empty() || x.data() + x.size() > p.data() + p.size() || n > s.size()) {
            nat::bad("code points within the text", hex(x));
            return;
        }
    }
    if (all != s) nat::bad("code points that make up the text", hex(all));
    all.clear();
    for (auto& x : library(p)) all += x;
    if (all != s) nat::bad("characters that make up the text", hex(all));
    auto c = u8::count(p);
    if (c > s.size()) nat::bad("a count of at most the bytes", std::to_string(c));
    u8::code_point::count(p);
    u8::code_point::decode(p);
    u8::is_whitespace(p);
    u8::contains_whitespace(p);
    auto w = u8::terminal_width(p);
    if (w > 2 * s.size()) nat::bad("a width of at most twice the bytes", std::to_string(w));
}
static void malformed(unsigned maxlen, unsigned full)
{
    const string bytes("\x00\x20\x41\x7f\x80\xa0\xbf\xc0\xc2\xcc\xdf\xe0\xe2\xed\xef\xf0\xf4\xf8\xff", 19);
    string alpha[2];
    for (int i = 0; i < 256; ++i) alpha[0] += char(i);
    alpha[1] = bytes;
    std::uint64_t n = 0;
    for (int which = 0; which < 2; ++which)
        for (unsigned len = which ? full + 1 : 0; len <= (which ? maxlen : full); ++len) {
            vector<unsigned> ix(len, 0);
            for (;;) {
                if (nat::mine(n++ / 256)) {
                    string s;
                    for (auto i : ix) s += alpha[which][i];
                    nat::at("bytes/" + hex(s));
                    any(s);
                }
                unsigned k = 0;
                while (k < len && ++ix[k] == alpha[which].size()) ix[k++] = 0;
                if (k == len) break;
            }
        }
    // Every truncation of texts of valid code points, with valid text before and after
    auto rep = reps();
    for (unsigned a = 0; a < 15; ++a)
        for (unsigned b = 0; b < 15; ++b)
            for (unsigned c = 0; c < 15; ++c) {
                if (!nat::mine(n++)) continue;
                string s = uc::encode(rep[a].back()) + uc::encode(rep[b].back()) + uc::encode(rep[c].back());
                for (std::size_t i = 0; i <= s.size(); ++i)
                    for (std::size_t j = i; j <= s.size(); ++j) {
                        auto t = s.substr(0, i) + s.substr(j);
                        nat::at("cut/" + hex(t));
                        any(t);
                    }
            }
}

// Comparison of text by characters: the edit distance
static void distances(unsigned maxlen)
{
    vector<string> al{"a", "b", "e\xcc\x81", "\xc3\xa9", "\xf0\x9f\x87\xac\xf0\x9f\x87\xa7", "\xe6\xb0\xb4"};
    vector<vector<unsigned>> all{{}};
    for (std::size_t i = 0; i < all.size(); ++i)
        if (all[i].size() < maxlen)
            for (unsigned k = 0; k < al.size(); ++k) {
                auto v = all[i];
                v.push_back(k);
                all.push_back(v);
            }
    auto text = [&](const vector<unsigned>& v) {
        string s;
        for (auto i : v) s += al[i];
        return s;
    };
    for (std::size_t i = 0; i < all.size(); ++i) {
        if (!nat::mine(i)) continue;
        auto a = text(all[i]);
        for (auto& y : all) {
            auto& x = all[i];
            vector<vector<std::size_t>> d(x.size() + 1, vector<std::size_t>(y.size() + 1));
            for (std::size_t p = 0; p <= x.size(); ++p)
                for (std::size_t q = 0; q <= y.size(); ++q)
                    d[p][q] = !p ? q : !q ? p
                                          : std::min({d[p - 1][q] + 1, d[p][q - 1] + 1, d[p - 1][q - 1] + (x[p - 1] != y[q - 1])});
            auto b = text(y);
            nat::at("distance/" + hex(a) + "/" + hex(b));
            nat::state();
            nat::step(x.size() * y.size());
            nat::same(d[x.size()][y.size()], u8::levenshtein_distance(a, b), "distance");
            bool eq = std::equal(u8::iterator{a}, u8::iterator{}, u8::iterator{b}, u8::iterator{});
            nat::same(x == y, eq, "equal");
        }
    }
}

void explore()
{
    scalars();
    sequences(DEEP ? 7 : 6);
    malformed(DEEP ? 6 : 5, DEEP ? 3 : 2);
    distances(DEEP ? 5 : 4);
}
