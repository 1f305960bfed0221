#include <arg_router/arg_router.hpp>
#include "guardpage.hpp"
#include "native.hpp"
#include "unicode.hpp"

namespace u8 = arg_router::utility::utf8;
using std::string;
using std::string_view;
using std::vector;

#ifndef DEEP
#define DEEP 0
#endif

static string hex(string_view s)
{
    string r;
    char b[4];
    for (unsigned char c : s) std::snprintf(b, sizeof b, "%02x", c), r += b;
    return r;
}

struct Text {
    string s;
    vector<std::uint32_t> cp;
    vector<std::size_t> at;
    vector<uc::B> cls;
    vector<unsigned> w;
    vector<bool> white, may, must;  // may/must[i]: a break before code point i is permitted / found by the library
    std::size_t total = 0;

    explicit Text(string t, bool rules = true) : s(std::move(t))
    {
        cp = uc::decode(s, &at);
        for (auto c : cp) {
            auto& p = uc::prop(c);
            cls.push_back(uc::B(p.b));
            w.push_back(p.width);
            white.push_back(p.flags & 1);
            total += p.width;
        }
        may.assign(cp.size() + 1, true);
        must.assign(cp.size() + 1, true);
        for (std::size_t i = 1; rules && i < cp.size(); ++i) {
            may[i] = uc::lpermitted(cls, i);
            must[i] = uc::lexpected(cls, i);
        }
    }
};

static string lines_of(string_view s, std::size_t width)
{
    string r;
    std::size_t n = 0;
    for (auto it = u8::line_iterator{s, width}; it != u8::line_iterator{} && n <= s.size(); ++it, ++n) r += "[" + string(*it) + "]";
    return r;
}

// One text wrapped to one width
static void wrap(const Text& t, std::size_t width, string_view p)
{
    nat::state();
    std::size_t i = 0;  // code point the line starts at
    std::size_t n = 0;
    string shape;
    auto fail = [&](const string& what) { nat::bad(what, lines_of(p, width)); };
    for (auto it = u8::line_iterator{p, width}; it != u8::line_iterator{}; ++it) {
        auto line = *it;
        nat::step();
        if (++n > t.s.size()) return fail("at most as many lines as bytes");
        if (line.empty()) return fail("no empty line");
        // Only white space may have been dropped since the end of the previous line
        auto off = std::size_t(line.data() - p.data());
        if (off > p.size() || off + line.size() > p.size()) return fail("lines within the text");
        if (n == 1 && off != 0) return fail("the first line at the start of the text");
        while (i < t.cp.size() && t.at[i] < off && t.white[i]) ++i;
        if (i >= t.cp.size() || t.at[i] != off) return fail("only white space dropped between lines");
        auto e = i;
        std::size_t w = 0;
        while (e < t.cp.size() && t.at[e] < off + line.size()) w += t.w[e++];
        if (t.at[e] != off + line.size()) return fail("lines of whole code points");
        if (w > width) {
            auto k = i + 1;
            while (k < e && !t.w[k]) ++k;
            if (k != e) return fail("no line wider than " + std::to_string(width));
        }
        shape += std::to_string(e - i) + (e < t.cp.size() ? t.may[e] ? "|" : "!" : ".");
        if (e < t.cp.size()) {
            // The last break that fits
            std::size_t last = 0, sum = 0;
            for (auto k = i; k < t.cp.size(); ++k) {
                sum += t.w[k];
                if (sum > width) break;
                if (t.must[k + 1]) last = k + 1;
            }
            bool legal = t.may[e];
            for (auto k = e; !legal && k < t.cp.size() && t.white[k]; ++k) legal = t.may[k + 1];
            if (!legal && last) return fail("a break at code point " + std::to_string(last) + ", not at " + std::to_string(e));
            if (e < last) return fail("the line up to code point " + std::to_string(last) + ", not " + std::to_string(e));
        }
        i = e;
    }
    while (i < t.cp.size() && t.white[i]) ++i;
    if (i != t.cp.size()) fail("all of the text");
    if (width >= t.total && n > 1) fail("one line");
    nat::outcome(shape);
    nat::sample(shape);
}

static void widths(const Text& t, std::size_t most = 999)
{
    auto p = gp::put(t.s);
    nat::same(t.total, u8::terminal_width(p), "width");
    if (u8::line_iterator{p, 0} != u8::line_iterator{}) nat::bad("no lines in no columns", "some");
    for (std::size_t w = 1; w <= std::min(t.total + 1, most); ++w) {
        nat::at("wrap/" + std::to_string(w) + "/" + hex(t.s));
        wrap(t, w, p);
    }
}

static vector<string> reps(bool second)
{
    vector<string> r(uc::NB);
    for (std::uint32_t c = 1; c < 0x30000; ++c) {
        if (c >= 0xD800 && c < 0xE000) continue;
        if (!uc::in14(c)) continue;
        auto& s = r[uc::bclass(c)];
        if (s.empty() || (second && c > 0x2000 && s.size() < 3)) s = uc::encode(c);
    }
    r[uc::AL] = second ? "\xce\xb1" : "a";
    r[uc::BA] = second ? "\xe2\x80\x90" : "\xe2\x80\x90";
    r[uc::ID] = "\xe6\xb0\xb4";
    return r;
}

template <class F>
static void all(const vector<string>& al, unsigned minlen, unsigned maxlen, F f)
{
    std::uint64_t n = 0;
    for (unsigned len = minlen; len <= maxlen; ++len) {
        vector<unsigned> ix(len, 0);
        for (;;) {
            if (nat::mine(n++ / 16)) {
                string s;
                for (auto i : ix) s += al[i];
                nat::at("text/" + hex(s));
                f(s);
            }
            unsigned k = 0;
            while (k < len && ++ix[k] == al.size()) ix[k++] = 0;
            if (k == len) break;
        }
    }
}

// Every assigned code point next to every class, with a break before and after to fall back on
static void points()
{
    auto rep = reps(false);
    for (std::uint32_t c = 1; c < 0x110000; ++c) {
        if ((c >= 0xD800 && c < 0xE000) || !nat::mine(c >> 6) || !uc::in14(c) || c >= 0xE0000) continue;
        if ((c & 0xFFFE) == 0xFFFE || (c >= 0xFDD0 && c < 0xFDF0)) continue;  // noncharacters
        // Of the large uniform blocks only the ends
        if (uc::in14(c - 1) && uc::in14(c + 1) && c - uc::prop(c).first > 64 && uc::prop(c).last - c > 64) continue;
        auto s = uc::encode(c);
        for (auto& r : rep) {
            for (auto& x : {rep[uc::ID] + s + r + "aa", rep[uc::ID] + r + s + "aa"}) {
                nat::at("point/" + hex(x));
                widths(Text(x), 6);
            }
        }
    }
}

// Anything at all: terminates within the text (what counts as white space in malformed text is not defined)
static void any(const string& s)
{
    auto p = gp::put(s);
    for (std::size_t width = 1; width <= 4; ++width) {
        nat::at("bytes/" + std::to_string(width) + "/" + hex(s));
        nat::state();
        std::size_t pos = 0, n = 0;
        for (auto it = u8::line_iterator{p, width}; it != u8::line_iterator{}; ++it) {
            nat::step();
            auto line = *it;
            auto off = std::size_t(line.data() - p.data());
            if (line.empty() || off < pos || off + line.size() > s.size() || ++n > s.size()) {
                nat::bad("lines within the text, in order", lines_of(p, width));
                return;
            }
            pos = off + line.size();
        }
    }
}

void explore()
{
    // All sequences of classes
    for (int k = 0; k < 2; ++k) all(reps(k), 1, DEEP && !k ? 4 : 3, [](const string& s) { widths(Text(s)); });
    {
        auto rep = reps(false);
        // The classes of ordinary text and of the rules with context, longer
        vector<string> al;
        for (auto c : {uc::AL, uc::ID, uc::SP, uc::QU, uc::OP, uc::CM, uc::HY, uc::RI, uc::HL, uc::NS, uc::NU, uc::CL}) al.push_back(rep[c]);
        all(al, 4, DEEP ? 6 : 4, [](const string& s) { widths(Text(s)); });
        vector<string> few;
        for (auto c : {uc::AL, uc::ID, uc::SP, uc::QU, uc::RI, uc::CM}) few.push_back(rep[c]);
        all(few, 5, DEEP ? 8 : 7, [](const string& s) { widths(Text(s)); });
        all({rep[uc::RI], " ", "a"}, 8, DEEP ? 12 : 9, [](const string& s) { widths(Text(s)); });
        all({"a", " ", rep[uc::ID]}, 8, DEEP ? 12 : 9, [](const string& s) { widths(Text(s)); });
    }
    // Words
    all({"a", "bc ", "def ", "  ", "-x", "(y)", " \"z\" ", "w\xc3\xa9", "10%", "\xe6\xb0\xb4\xe3\x81\xa3", "e\xcc\x81"}, 1, DEEP ? 6 : 5,
        [](const string& s) { widths(Text(s)); });
    points();
    // Malformed text
    const string bytes("\x20\x41\x80\xbf\xc2\xcc\x81\xe6\xb0\xf0\x9f\xff\x0a", 13);
    vector<string> al;
    for (auto c : bytes) al.emplace_back(1, c);
    all(al, 1, DEEP ? 6 : 5, any);
}
