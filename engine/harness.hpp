// Everything a tree of the harness needs: canonical rendering of router arguments and the registry.
#pragma once
#include <arg_router/arg_router.hpp>

#include <cstdio>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <variant>
#include <vector>

namespace ar = arg_router;
namespace arp = arg_router::policy;
namespace ard = arg_router::dependency;
namespace arml = arg_router::multi_lang;
using namespace arg_router::literals;

namespace h
{
struct gp;
struct Out {
    std::string text;
    unsigned calls = 0;
};
extern thread_local Out* out;
extern thread_local std::function<void()>* in_router;

enum class colour { none, red, green, blue, other = 7 };

// a type whose conversion is given once for the whole program
struct gp {
    int v = 0;
};

inline void point([[maybe_unused]] int kind)
{
#ifdef H_SCHED
    h_point(kind);
#endif
}
// marks the library's code and the program's own
struct in_library {
#ifdef H_FAULT
    in_library() { h_lib(1); }
    ~in_library() { h_lib(-1); }
#else
    in_library() {}
#endif
};
struct in_program {
#ifdef H_FAULT
    in_program() { h_own(1); }
    ~in_program() { h_own(-1); }
#else
    in_program() {}
#endif
};
inline int custom_i(std::string_view s)
{
    point(2);
    return static_cast<int>(s.size());
}
inline gp custom_gp(std::string_view s)
{
    point(2);
    auto r = gp{};
    r.v = -static_cast<int>(s.size());
    return r;
}
inline colour custom_en(std::string_view s)
{
    point(2);
    return s == "red" ? colour::red : s == "green" ? colour::green : s == "blue" ? colour::blue : colour::other;
}

template <typename T>
struct rev_less {
    constexpr bool operator()(const T& a, const T& b) const { return b < a; }
};
template <typename T>
struct len_less {
    bool operator()(const T& a, const T& b) const { return a.size() < b.size(); }
};

inline std::string canon(bool v) { return v ? "b:1" : "b:0"; }
inline std::string canon(char v) { return std::string("c:") + v; }
inline std::string canon(signed char v) { return "i8:" + std::to_string(v); }
inline std::string canon(unsigned char v) { return "u8:" + std::to_string(v); }
inline std::string canon(short v) { return "i16:" + std::to_string(v); }
inline std::string canon(unsigned short v) { return "u16:" + std::to_string(v); }
inline std::string canon(int v) { return "i:" + std::to_string(v); }
inline std::string canon(unsigned v) { return "u:" + std::to_string(v); }
inline std::string canon(long v) { return "i64:" + std::to_string(v); }
inline std::string canon(unsigned long v) { return "u64:" + std::to_string(v); }
inline std::string canon(double v)
{
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", v);
    return std::string("d:") + b;
}
inline std::string canon(float v)
{
    char b[64];
    std::snprintf(b, sizeof b, "%.9g", static_cast<double>(v));
    return std::string("f:") + b;
}
template <typename A>
std::string canon(const std::basic_string<char, std::char_traits<char>, A>& v)
{
    return "s:" + std::string(v.begin(), v.end());
}
// std::filesystem::path
template <typename P, typename = decltype(std::declval<P>().lexically_normal()), typename = void>
std::string canon(const P& v)
{
    return "s:" + v.string();
}
inline std::string canon(std::string_view v) { return "sv:" + std::string(v); }
inline std::string canon(gp v) { return "gp:" + std::to_string(v.v); }
inline std::string canon(colour v) { return "en:" + std::to_string(static_cast<int>(v)); }
template <typename T>
std::string canon(const std::optional<T>& v);
template <typename T>
std::string type_name();
template <typename T>
struct opt_name {
    static std::string get() { return canon(T{}).substr(0, canon(T{}).find(':')); }
};
template <typename T>
struct opt_name<std::optional<T>> {
    static std::string get() { return "o<" + opt_name<T>::get() + ">"; }
};
template <typename T>
std::string type_name()
{
    return opt_name<T>::get();
}
template <typename T>
std::string canon(const std::optional<T>& v)
{
    auto t = "o<" + type_name<T>() + ">:";
    return v ? t + canon(*v) : t + "none";
}
template <typename T, typename A>
std::string canon(const std::vector<T, A>& v)
{
    auto r = "v<" + type_name<T>() + ">:[";
    for (const T& e : v) r += canon(e) + ";";
    return r + "]";
}
// deque, list
template <typename C, typename = decltype(std::declval<C&>().pop_front())>
std::string canon(const C& v)
{
    return canon(std::vector<typename C::value_type>(v.begin(), v.end()));
}
template <typename... T>
std::string canon(const std::variant<T...>& v)
{
    return "var" + std::to_string(v.index()) + "/" + std::visit([](const auto& x) { return canon(x); }, v);
}

template <typename... T>
void rec(const char* id, const T&... v)
{
    point(1);
    {
        in_program own;
        std::string s = std::string(id) + "(";
        ((s += canon(v) + ","), ...);
        s += ")";
        if (out) {
            out->text += s;
            ++out->calls;
        }
        if (in_router && *in_router) (*in_router)();
    }
    point(1);
}
// Coloured help without its colours: any SGR sequences, ending with the colours off
inline std::string plain(const std::string& s)
{
    std::string r;
    bool colour = false;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\033') {
            r += s[i];
            continue;
        }
        auto e = s.find_first_not_of("[0123456789;", i + 1);
        if (e == std::string::npos || s[e] != 'm' || s[i + 1] != '[') return "<other control sequences>" + s;
        auto code = s.substr(i + 2, e - i - 2);
        colour = code != "0" && code != "";
        i = e;
    }
    return colour ? "<colour left on>" + s : r;
}

template <typename Str>
void rec_help(const char* id, const Str& text)
{
    point(1);
    in_program own;
    if (out) {
        out->text += std::string(id) + "(help:" + plain(std::string(text.begin(), text.end())) + ",)";
        ++out->calls;
    }
}

struct Runner {
    virtual ~Runner() = default;
    virtual void parse(std::vector<char*>& argv, int entry) const = 0;
    virtual std::string help(int entry) const = 0;
    virtual std::unique_ptr<Runner> clone() const = 0;
    virtual std::unique_ptr<Runner> take() = 0;
};

// a container handed to parse() by the caller comes back as it was
template <typename V, typename F>
void unchanged(V& v, const F& f)
{
    const auto before = v;
    const auto check = [&] {
        if (v != before && out) out->text += "<caller's container modified>", out->calls += 2;
    };
    try {
        f();
    } catch (...) {
        check();
        throw;
    }
    check();
}

constexpr int entries = 7;

template <typename Root>
struct RunnerT : Runner {
    Root root;
    explicit RunnerT(Root r) : root(std::move(r)) {}
    void parse(std::vector<char*>& argv, int entry) const override
    {
#ifdef H_ONE_ENTRY
        entry = 0;
#endif
        if (entry == 0) {
            in_library l;
            root.parse(static_cast<int>(argv.size()) - 1, argv.data());
            return;
        }
#ifndef H_ONE_ENTRY
        if (entry == 6) {
            // started without even a program name
            auto none = std::make_unique<char*[]>(1);
            in_library l;
            if (argv.size() == 2)
                root.parse(0, none.get());
            else
                root.parse(static_cast<int>(argv.size()) - 1, argv.data());
        } else if (entry == 1) {
            std::vector<std::string_view> v(argv.begin() + 1, argv.end() - 1);
            unchanged(v, [&] { in_library l; root.parse(v); });
        } else if (entry == 2) {
            std::vector<std::string> v(argv.begin() + 1, argv.end() - 1);
            unchanged(v, [&] { in_library l; root.parse(v.begin(), v.end()); });
        } else if (entry == 3) {
            ar::vector<ar::parsing::token_type> v;
            for (std::size_t i = 1; i + 1 < argv.size(); ++i)
                v.push_back({ar::parsing::prefix_type::none, std::string_view{argv[i]}});
            in_library l;
            root.parse(std::move(v));
        } else if (entry == 4) {
            std::list<std::string> v(argv.begin() + 1, argv.end() - 1);
            unchanged(v, [&] { in_library l; root.parse(v); });
        } else if (entry == 5) {
            std::vector<const char*> v(argv.begin() + 1, argv.end() - 1);
            in_library l;
            root.parse(v.data(), v.data() + v.size());
        }
#endif
    }
    std::string help(int entry) const override
    {
        if (entry == 0) {
#ifdef H_FAULT
            // a stream with storage of its own
            static char text[1 << 16];
            struct Sink : std::streambuf {
                Sink() { setp(text, text + sizeof text); }
                std::size_t size() const { return std::size_t(pptr() - pbase()); }
            } sink;
            std::ostream s{&sink};
            {
                in_library l;
                root.help(s);
            }
            return plain(std::string(text, sink.size()));
#else
            ar::ostringstream s;
            root.help(s);
            auto t = s.str();
            return plain(std::string(t.begin(), t.end()));
#endif
        }
        auto t = [&] {
            in_library l;
            return root.help();
        }();
        return plain(std::string(t.begin(), t.end()));
    }
#ifdef H_ONE_ENTRY
    std::unique_ptr<Runner> clone() const override { return nullptr; }
    std::unique_ptr<Runner> take() override { return nullptr; }
#else
    std::unique_ptr<Runner> clone() const override { return std::make_unique<RunnerT>(root); }
    std::unique_ptr<Runner> take() override { return std::make_unique<RunnerT>(std::move(root)); }
#endif
};

using Maker = std::unique_ptr<Runner> (*)(unsigned);
void reg(const char* id, Maker m);

template <typename R>
R ret(R (*)(unsigned));

template <auto F>
std::unique_ptr<Runner> maker(unsigned cfg)
{
    return std::make_unique<RunnerT<std::decay_t<decltype(F(cfg))>>>(F(cfg));
}
}  // namespace h

#define REG(ID, FN) [[maybe_unused]] static const bool registered = (::h::reg(ID, &::h::maker<&FN>), true)

template <>
struct arg_router::parser<h::gp> {
    [[nodiscard]] static h::gp parse(std::string_view token)
    {
        if (token.empty() || token.front() == '!') {
            throw multi_lang_exception{error_code::failed_to_parse, parsing::token_type{parsing::prefix_type::none, token}};
        }
        if (token.front() == '?') {
            throw multi_lang_exception{static_cast<error_code>(1000), parsing::token_type{parsing::prefix_type::none, token}};
        }
        auto r = h::gp{};
        for (unsigned char c : token) r.v = r.v * 3 + c;
        return r;
    }
};
