// Unicode oracle, written from UAX #14 and UAX #29 (14.0) over the properties in ucd.inc, which come
// from perl's Unicode database.  It shares nothing with arg_router.
#pragma once

#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>

namespace uc
{
enum G : std::uint8_t { gAny, gCR, gLF, gControl, gExtend, gZWJ, gRI, gPrepend, gSM, gL, gV, gT, gLV, gLVT, gPict };
enum B : std::uint8_t {
    AL, BA, BB, B2, BK, CB, CL, CM, CP, CR, EB, EM, EX, GL, H2, H3, HY, ID, HL, IN, IS, JL, JT, JV, LF, NL,
    NS, NU, OP, PO, PR, QU, RI, SP, SY, WJ, ZW, ZWJ, CJ, NB
};
struct R {
    std::uint32_t first, last;
    std::uint8_t g, b, width, flags;
};
inline constexpr R ranges[] = {
#include "ucd.inc"
};
inline const R& prop(std::uint32_t c)
{
    std::size_t a = 0, b = c < 0x250 ? 64 : sizeof ranges / sizeof *ranges;  // 64 ranges reach past U+0250
    while (b - a > 1) {
        auto m = (a + b) / 2;
        (ranges[m].first <= c ? a : b) = m;
    }
    return ranges[a];
}
inline bool in14(std::uint32_t c) { return !(prop(c).flags & 4); }
inline bool white(std::uint32_t c) { return prop(c).flags & 1; }
inline G gclass(std::uint32_t c)
{
    auto& r = prop(c);
    return (r.flags & 2) ? gPict : G(r.g);  // no pictograph has another class
}
inline B bclass(std::uint32_t c) { return B(prop(c).b); }

inline std::string encode(std::uint32_t c)
{
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) (s += char(0xC0 | c >> 6)) += char(0x80 | (c & 63));
    else if (c < 0x10000) ((s += char(0xE0 | c >> 12)) += char(0x80 | (c >> 6 & 63))) += char(0x80 | (c & 63));
    else
        (((s += char(0xF0 | c >> 18)) += char(0x80 | (c >> 12 & 63))) += char(0x80 | (c >> 6 & 63))) +=
            char(0x80 | (c & 63));
    return s;
}
// Well formed text only; anything else is taken byte by byte as U+FFFD of that length
inline std::vector<std::uint32_t> decode(std::string_view s, std::vector<std::size_t>* at = nullptr)
{
    std::vector<std::uint32_t> r;
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        std::size_t n = c < 0x80 ? 1 : c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1;
        if (at) at->push_back(i);
        if (i + n > s.size() || (c >= 0x80 && n == 1)) {
            r.push_back(0xFFFD);
            ++i;
            continue;
        }
        std::uint32_t v = n == 1 ? c : c & (0x7F >> n);
        for (std::size_t k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 63);
        r.push_back(v);
        i += n;
    }
    if (at) at->push_back(s.size());
    return r;
}
// As tables, so classes alone can be enumerated
inline bool gbreak(const std::vector<G>& c, std::size_t i)  // between i-1 and i
{
    auto a = c[i - 1], b = c[i];
    auto ctl = [](G g) { return g == gCR || g == gLF || g == gControl; };
    if (a == gCR && b == gLF) return false;                                              // GB3
    if (ctl(a) || ctl(b)) return true;                                                   // GB4, GB5
    if (a == gL && (b == gL || b == gV || b == gLV || b == gLVT)) return false;          // GB6
    if ((a == gLV || a == gV) && (b == gV || b == gT)) return false;                     // GB7
    if ((a == gLVT || a == gT) && b == gT) return false;                                 // GB8
    if (b == gExtend || b == gZWJ || b == gSM || a == gPrepend) return false;            // GB9, 9a, 9b
    if (a == gZWJ && b == gPict) {              // GB11, whose text may be beyond a window of 16 classes
        auto n = i - 1;
        while (n > 0 && i - n < 16 && c[n - 1] == gExtend) --n;
        return i - n < 16 && (n == 0 || c[n - 1] != gPict);
    }
    if (a == gRI && b == gRI) {                 // GB12, GB13
        std::size_t n = 0;
        while (n < i && c[i - 1 - n] == gRI) ++n;
        return n % 2 == 0;
    }
    return true;
}
inline std::vector<std::string> graphemes(const std::string& s)
{
    std::vector<std::size_t> at;
    auto cps = decode(s, &at);
    std::vector<G> c;
    for (auto x : cps) c.push_back(gclass(x));
    std::vector<std::string> r;
    for (std::size_t i = 0; i < c.size(); ++i) {
        if (!i || gbreak(c, i)) r.emplace_back();
        r.back() += s.substr(at[i], at[i + 1] - at[i]);
    }
    return r;
}
inline std::size_t width(const std::string& s)
{
    std::size_t n = 0;
    for (auto c : decode(s)) n += prop(c).width;
    return n;
}

// Whether UAX #14 permits a break between i-1 and i.  absorb: LB9's "treat a combining sequence as its
// base" also for the rules that look further back than the previous character.
inline bool lbreak(const std::vector<B>& raw, std::size_t i, bool absorb)
{
    auto cm = [](B b) { return b == CM || b == ZWJ; };
    auto hard = [](B b) { return b == BK || b == CR || b == LF || b == NL; };
    auto b = raw[i] == CJ ? NS : raw[i];
    auto p = raw[i - 1];
    if (p == BK || p == LF || p == NL) return true;   // LB4, LB5
    if (p == CR) return b != LF;                      // LB5
    if (hard(b)) return false;                        // LB6
    if (b == SP || b == ZW) return false;             // LB7
    {
        auto k = i;
        while (k && raw[k - 1] == SP) --k;
        if (k && raw[k - 1] == ZW) return true;       // LB8
    }
    if (p == ZWJ) return false;                       // LB8a
    if (cm(b)) {
        if (p != SP && p != ZW) return false;         // LB9
        b = AL;                                       // LB10
    }
    // Resolved classes before the break, nearest first
    std::vector<B> w;
    for (auto k = i; k-- > 0;) {
        if (cm(raw[k])) {
            auto j = k;
            while (j > 0 && cm(raw[j])) --j;
            bool lone = cm(raw[j]) || raw[j] == SP || raw[j] == ZW || hard(raw[j]);
            if (lone) {
                w.push_back(AL);
                continue;
            }
            if (absorb || w.empty()) {
                w.push_back(raw[j]);
                k = j;
                continue;
            }
            w.push_back(CM);
            continue;
        }
        w.push_back(raw[k]);
    }
    for (auto& x : w)
        if (x == CJ) x = NS;
    auto a = w[0];
    auto past = [&] {
        std::size_t k = 0;
        while (k < w.size() && w[k] == SP) ++k;
        return k < w.size() ? w[k] : NB;
    };
    auto al = [](B x) { return x == AL || x == HL; };
    if (a == WJ || b == WJ) return false;                                    // LB11
    if (a == GL) return false;                                               // LB12
    if (b == GL && a != SP && a != BA && a != HY) return false;              // LB12a
    if (b == CL || b == CP || b == EX || b == IS || b == SY) return false;   // LB13
    if (past() == OP) return false;                                          // LB14
    if (past() == QU && b == OP) return false;                               // LB15
    if ((past() == CL || past() == CP) && b == NS) return false;             // LB16
    if (past() == B2 && b == B2) return false;                               // LB17
    if (a == SP) return true;                                                // LB18
    if (a == QU || b == QU) return false;                                    // LB19
    if (a == CB || b == CB) return true;                                     // LB20
    if (b == BA || b == HY || b == NS || a == BB) return false;              // LB21
    if ((a == HY || a == BA) && w.size() > 1 && w[1] == HL) return false;    // LB21a
    if (a == SY && b == HL) return false;                                    // LB21b
    if (b == IN) return false;                                               // LB22
    if ((al(a) && b == NU) || (a == NU && al(b))) return false;              // LB23
    auto em = [](B x) { return x == ID || x == EB || x == EM; };
    if ((a == PR && em(b)) || (em(a) && b == PO)) return false;              // LB23a
    if (((a == PR || a == PO) && al(b)) || (al(a) && (b == PR || b == PO))) return false;  // LB24
    if ((a == CL || a == CP || a == NU) && (b == PO || b == PR)) return false;             // LB25
    if ((a == PO || a == PR) && (b == OP || b == NU)) return false;
    if ((a == HY || a == IS || a == NU || a == SY) && b == NU) return false;
    if (a == JL && (b == JL || b == JV || b == H2 || b == H3)) return false;  // LB26
    if ((a == JV || a == H2) && (b == JV || b == JT)) return false;
    if ((a == JT || a == H3) && b == JT) return false;
    auto ko = [](B x) { return x == JL || x == JV || x == JT || x == H2 || x == H3; };
    if ((ko(a) && b == PO) || (a == PR && ko(b))) return false;              // LB27
    if (al(a) && al(b)) return false;                                        // LB28
    if (a == IS && al(b)) return false;                                      // LB29
    if ((al(a) || a == NU) && b == OP) return false;                         // LB30 (East Asian brackets too)
    if (a == CP && (al(b) || b == NU)) return false;
    if (a == RI && b == RI) {                                                // LB30a
        std::size_t n = 0;
        while (n < w.size() && w[n] == RI) ++n;
        if (n % 2) return false;
    }
    if (a == EB && b == EM) return false;                                    // LB30b
    return true;                                                             // LB31
}
// Breaks the library is expected to find: it implements every rule above but LB8, LB10 and LB20, and never
// breaks after a combining mark or joiner ("LB8a and LB9, do not break after a combining character sequence
// or zero width joiner")
inline bool lexpected(const std::vector<B>& raw, std::size_t i)
{
    auto p = raw[i - 1];
    if (p == CM || p == ZWJ || !lbreak(raw, i, false)) return false;
    auto q = raw;
    for (auto& x : q)
        if (x == CB || x == ZW || x == BK || x == LF || x == NL || x == CR) return false;
    return true;
}
inline bool lpermitted(const std::vector<B>& raw, std::size_t i) { return lbreak(raw, i, true) || lbreak(raw, i, false); }
}  // namespace uc
