// Which tree a requested language selects, and how locale names are normalised.
#include <arg_router/arg_router.hpp>

#include "native.hpp"

#include <functional>
#include <set>

namespace ar = arg_router;
namespace arp = ar::policy;
namespace arml = ar::multi_lang;
using namespace ar::literals;

#ifndef DEPTH
#define DEPTH 5
#endif

static std::string picked;

#define LANG(ID, NAME)                              \
    template <>                                     \
    class arg_router::multi_lang::translation<ID> { \
    public:                                         \
        using name = NAME;                          \
        static const char* id() { return ID::get().data(); } \
    }
#define A(X) AR_STRING(X)
LANG(A("en_GB"), A("british"));
LANG(A("en"), A("english"));
LANG(A("fr"), A("french"));
LANG(A("en_gb"), A("lower"));
LANG(A("fr_FR"), A("france"));
LANG(A("\346\227\245\346\234\254"), A("japan"));

struct Factory {
    template <typename ID>
    auto operator()(arml::translation<ID>) const
    {
        using tr = arml::translation<ID>;
        return ar::root(arp::validation::default_validator, ar::flag(arp::long_name_t<typename tr::name>{}, arp::router{[](bool) { picked = tr::name::get(); }}));
    }
};

struct Set {
    std::vector<std::string> ids, names;
    std::function<void(std::string_view, const char*)> run;  // constructs for an id, then parses one argument
};
static std::vector<Set> sets;

template <typename... IDs>
void add()
{
    sets.push_back({{std::string(IDs::get())...}, {std::string(arml::translation<IDs>::name::get())...}, [](std::string_view id, const char* arg) {
                        auto r = arml::root<IDs...>(id, Factory{});
                        char* argv[] = {const_cast<char*>("prog"), const_cast<char*>(arg), nullptr};
                        r.parse(2, argv);
                    }});
}

template <std::size_t I>
using L = std::tuple_element_t<I, std::tuple<A("en_GB"), A("en"), A("fr"), A("en_gb"), A("fr_FR"), A("\346\227\245\346\234\254")>>;

template <std::size_t A_, std::size_t B_>
void two()
{
    if constexpr (A_ != B_) add<L<A_>, L<B_>>();
}
template <std::size_t A_, std::size_t B_, std::size_t C_>
void three()
{
    if constexpr (A_ != B_ && B_ != C_ && A_ != C_) add<L<A_>, L<B_>, L<C_>>();
}
template <std::size_t... I>
void all_two(std::index_sequence<I...>)
{
    (two<I / 6, I % 6>(), ...);
}
template <std::size_t... I>
void all_three(std::index_sequence<I...>)
{
    (three<I / 16, I / 4 % 4, I % 4>(), ...);
}

// the language with this very identifier, else the first
static std::size_t wanted(const Set& s, std::string_view id)
{
    for (std::size_t i = 0; i < s.ids.size(); ++i)
        if (s.ids[i] == id) return i;
    return 0;
}

static void check(const Set& s, std::string_view id, const std::string& why)
{
    std::string label = "languages";
    for (auto& i : s.ids) label += " " + i;
    nat::at(label + " requested '" + std::string(id) + "'" + why);
    auto w = wanted(s, id);
    nat::state();
    nat::outcome(label + "=" + std::to_string(w));
    // the selected tree understands its own name and no other
    for (std::size_t i = 0; i < s.names.size(); ++i) {
        if (i != w && i != (w + 1) % s.names.size()) continue;
        picked.clear();
        std::string got;
        try {
            s.run(id, ("--" + s.names[i]).c_str());
            got = picked;
        } catch (const ar::parse_exception&) {
            got = "error";
        }
        nat::step();
        nat::same(i == w ? s.names[i] : std::string("error"), got, ("--" + s.names[i]).c_str());
    }
    nat::sample(s.names[w]);
}

static void strings(const std::string& alphabet, std::size_t depth, const std::function<void(const std::string&)>& f)
{
    std::vector<std::string> now{""};
    f("");
    for (std::size_t d = 0; d < depth; ++d) {
        std::vector<std::string> next;
        for (auto& s : now)
            for (char c : alphabet) {
                next.push_back(s + c);
                f(next.back());
            }
        now = std::move(next);
    }
}

static std::string norm(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '.') break;
        r += c == '-' ? '_' : c;
    }
    return r;
}

void explore()
{
    all_two(std::make_index_sequence<36>{});
    all_three(std::make_index_sequence<64>{});
    add<L<0>, L<1>, L<2>, L<3>, L<4>, L<5>>();
    add<L<5>, L<4>, L<3>, L<2>, L<1>, L<0>>();
    std::uint64_t n = 0;
    for (auto& s : sets) {
        // every identifier up to a length, in a buffer that ends there and in one that goes on
        strings("en_GBfr", DEPTH, [&](const std::string& id) {
            if (!nat::mine(n++)) return;
            auto exact = std::vector<char>(id.begin(), id.end());
            check(s, std::string_view(exact.data(), exact.size()), "");
            if (n % 8 == 0) {
                auto more = id + "_GB";
                check(s, std::string_view(more).substr(0, id.size()), " (inside " + more + ")");
            }
        });
        // every single-byte change of a supported identifier
        for (auto& base : s.ids) {
            if (!nat::mine(n++)) continue;
            std::set<std::string> near;
            for (std::size_t i = 0; i <= base.size(); ++i) {
                near.insert(base.substr(0, i));
                near.insert(base.substr(i));
                if (i < base.size()) near.insert(base.substr(0, i) + base.substr(i + 1));
                for (int b = 0; b < 256; ++b) {
                    near.insert(base.substr(0, i) + char(b) + base.substr(i));
                    if (i < base.size()) near.insert(base.substr(0, i) + char(b) + base.substr(i + 1));
                }
            }
            near.insert(base + base);
            near.insert(base + std::string(300, 'x'));
            for (auto& id : near) check(s, id, "");
            // every spelling of it as a locale name
            for (int hyphens = 0; hyphens < 4; ++hyphens)
                for (auto enc : {"", ".", ".UTF-8", ".utf8", ".ISO-8859-1", ".a.b", ".x_y-z", "..", ".UTF-8@euro"}) {
                    auto loc = base;
                    int k = 0;
                    for (auto& c : loc)
                        if (c == '_' && (hyphens >> k++ & 1)) c = '-';
                    loc += enc;
                    auto iso = arml::iso_locale(loc);
                    nat::at("locale " + loc);
                    if (nat::same(base, std::string(iso.begin(), iso.end()), "iso_locale"))
                        check(s, iso, " from locale " + loc);
                }
        }
    }
    // normalisation itself
    auto iso = [&](const std::string& s) {
        if (!nat::mine(n++)) return;
        nat::at("iso_locale '" + s + "'");
        auto exact = std::vector<char>(s.begin(), s.end());
        auto r = arml::iso_locale(std::string_view(exact.data(), exact.size()));
        auto got = std::string(r.begin(), r.end());
        nat::state();
        nat::step();
        nat::same(norm(s), got, "normalised");
        auto r2 = arml::iso_locale(got);
        nat::same(got, std::string(r2.begin(), r2.end()), "normalised again");
        nat::outcome(got);
        nat::sample(got);
    };
    strings("aZ.-_@", DEPTH + 2, iso);
    for (int a = 0; a < 256; ++a)
        for (int b = 0; b < 256; ++b) iso(std::string("x") + char(a) + char(b) + "y-z");
}
