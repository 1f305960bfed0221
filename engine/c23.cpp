// Every history of operations on a few value holders up to a depth, against plain models.
#include <arg_router/basic_types.hpp>
#include <arg_router/utility/dynamic_string_view.hpp>
#include <arg_router/utility/result.hpp>
#include <arg_router/utility/unsafe_any.hpp>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include "native.hpp"

#ifndef DEEP
#define DEEP 0
#endif
using std::string;
namespace u = arg_router::utility;

// ---- storage: every block from operator new is counted --------------------------------------
static long blocks = 0;
void* operator new(std::size_t n)
{
    if (auto p = std::malloc(n ? n : 1)) {
        ++blocks;
        return p;
    }
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept
{
    blocks -= p != nullptr;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n, std::align_val_t a)
{
    if (auto p = std::aligned_alloc(std::size_t(a), (n + std::size_t(a) - 1) / std::size_t(a) * std::size_t(a))) {
        ++blocks;
        return p;
    }
    throw std::bad_alloc();
}
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }

// ---- payloads -------------------------------------------------------------------------------
static std::set<const void*> live;  // every tracked object, at its address
static int throw_in = -1;           // the copy after this many throws
struct Boom {
};
template <std::size_t Pad, std::size_t Align = 8>
struct alignas(Align) Tracked {
    int v;
    const Tracked* self;
    char pad[Pad ? Pad : 1];
    explicit Tracked(int x) : v{x}, self{this} { born(); }
    Tracked(const Tracked& o) : v{o.v}, self{this}
    {
        o.ok("copied from");
        if (throw_in >= 0 && !throw_in--) throw Boom{};
        born();
    }
    Tracked(Tracked&& o) noexcept : v{o.v}, self{this}
    {
        o.ok("moved from");
        o.v = -1;
        born();
    }
    Tracked& operator=(const Tracked& o)
    {
        ok("assigned to"), o.ok("assigned from");
        v = o.v;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        ok("assigned to"), o.ok("assigned from");
        auto x = o.v;
        o.v = -1;
        v = x;
        return *this;
    }
    ~Tracked()
    {
        ok("destroyed");
        live.erase(this);
        self = nullptr;
    }
    bool operator==(const Tracked& o) const { return v == o.v; }
    void born()
    {
        std::memset(pad, 'p', sizeof pad);
        if (std::uintptr_t(this) % Align) nat::bad("an aligned object", "a misaligned object");
        if (!live.insert(this).second) nat::bad("fresh storage", "an object built over a live one");
    }
    void ok(const char* what) const
    {
        if (self != this || !live.count(this)) nat::bad("a live object", string("an object that is not alive is ") + what);
    }
    int read() const
    {
        ok("read");
        return v;
    }
};
using Small = Tracked<0>;      // as big as the internal storage can be, but its address matters
using Large = Tracked<100>;
using Wide = Tracked<8, 64>;   // over-aligned
struct Pair {
    long a, b;
    bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};
using Block = std::array<char, 40>;
static_assert(sizeof(Small) > 16 && sizeof(Pair) == 16);
struct Tiny {  // fits even the smallest storage and is found by its address
    int v;
    explicit Tiny(int x) : v{x} { live.insert(this); }
    Tiny(const Tiny& o) : v{o.read()} { live.insert(this); }
    Tiny(Tiny&& o) noexcept : v{o.read()} { live.insert(this), o.v = -1; }
    Tiny& operator=(const Tiny& o)
    {
        v = o.read();
        return *this;
    }
    ~Tiny()
    {
        if (!live.erase(this)) nat::bad("a live object", "an object that is not alive is destroyed");
    }
    int read() const
    {
        if (!live.count(this)) nat::bad("a live object", "an object that is not alive is read");
        return v;
    }
};

static const char* const literals[] = {"x", "a literal longer than any small object, which is held as a pointer"};
// type index -> operations
struct Ops {
    const char* name;
    bool tracked;
};
template <class Any, class T>
struct Kind {
    static int value(const T& t)
    {
        if constexpr (requires { t.read(); })
            return t.read();
        else if constexpr (std::is_same_v<T, Pair>)
            return t.a == -t.b ? int(t.a) : -99;
        else if constexpr (std::is_same_v<T, Block>) {
            for (auto c : t)
                if (c != t[0]) return -99;
            return t[0];
        } else
            return int(t);
    }
    static T make(int v)
    {
        if constexpr (std::is_same_v<T, Pair>)
            return {v, -v};
        else if constexpr (std::is_same_v<T, Block>) {
            T b;
            b.fill(char(v));
            return b;
        } else
            return T(v);
    }
    static void by_lvalue(Any& a, int v)
    {
        const T t = make(v);
        a = Any{t};
    }
    static void by_rvalue(Any& a, int v) { a = make(v); }
    static int get(Any& a)
    {
        auto& c = std::as_const(a);
        auto x = value(a.template get<T>());
        const auto& y = c.template get<T>();
        return x == value(y) ? x : -98;
    }
    static void write(Any& a, int v) { a.template get<T>() = make(v); }
    static int take(Any& a)
    {
        T t{std::move(a.template get<T>())};
        return value(t);
    }
    // what remains after take()
    static bool keeps() { return !requires(T t) { t.read(); }; }
    static bool tracked() { return requires(T t) { t.read(); }; }
};
template <class Any>
struct Funs {
    void (*by_lvalue)(Any&, int);
    void (*by_rvalue)(Any&, int);
    int (*get)(Any&);
    void (*write)(Any&, int);
    int (*take)(Any&);
    bool keeps, tracked;
    template <class T>
    static Funs of()
    {
        using K = Kind<Any, T>;
        return {K::by_lvalue, K::by_rvalue, K::get, K::write, K::take, K::keeps(), K::tracked()};
    }
};
template <class Any>
struct Literals {
    static void put(Any& a, int v)
    {
        if (v % 2)
            a = Any{"a literal longer than any small object, which is held as a pointer"};
        else
            a = Any{"x"};
    }
    static int get(Any& a)
    {
        auto s = a.template get<const char*>();
        return s == string(literals[0]) ? 0 : s == string(literals[1]) ? 1 : -99;
    }
};

struct Slot {
    int type = -1, v = 0;
    bool operator==(const Slot&) const = default;
};

// ---- unsafe_any -----------------------------------------------------------------------------
template <class Any>
struct AnyWorld {
    static constexpr unsigned max_slots = 3;
    using F = Funs<Any>;
    static const std::vector<F>& kinds()
    {
        static const std::vector<F> k = [] {
            std::vector<F> k{F::template of<int>(), F::template of<Pair>(), F::template of<Tiny>(), F::template of<Small>(), F::template of<Large>(), F::template of<Wide>(), F::template of<Block>()};
            k.push_back(F{Literals<Any>::put, Literals<Any>::put, Literals<Any>::get, Literals<Any>::put, Literals<Any>::get, true, false});
            return k;
        }();
        return k;
    }
    struct Op {
        string name;
        char what;
        int a, b, t;
    };
    unsigned slots;
    std::vector<Op> ops;
    const char* label;

    AnyWorld(const char* l, unsigned n) : slots{n}, label{l}
    {
        auto s = [](int i) { return std::to_string(i); };
        for (int i = 0; i < int(n); ++i) {
            for (int t = 0; t < int(kinds().size()); ++t) {
                ops.push_back({"new" + s(i) + "t" + s(t), 'l', i, 0, t});
                ops.push_back({"neu" + s(i) + "t" + s(t), 'r', i, 0, t});
            }
            for (int j = 0; j < int(n); ++j) {
                ops.push_back({s(i) + "=" + s(j), '=', i, j, 0});
                ops.push_back({s(i) + "=move" + s(j), 'm', i, j, 0});
                ops.push_back({s(i) + "=copythrows" + s(j), 'x', i, j, 0});
                if (i != j) {
                    ops.push_back({s(i) + "(" + s(j) + ")", 'c', i, j, 0});
                    ops.push_back({s(i) + "(move" + s(j) + ")", 'n', i, j, 0});
                }
                if (i <= j) ops.push_back({"swap" + s(i) + s(j), 's', i, j, 0});
            }
            ops.push_back({"reset" + s(i), '0', i, 0, 0});
            ops.push_back({"write" + s(i), 'w', i, 0, 0});
            ops.push_back({"take" + s(i), 't', i, 0, 0});
        }
    }
    bool possible(const Op& o, const std::vector<Slot>& m) const
    {
        if (o.what == 'w' || o.what == 't') return m[o.a].type >= 0;
        if (o.what == 'x') return m[o.b].type >= 3 && m[o.b].type <= 5;
        return true;
    }
    void apply(const Op& o, std::vector<Slot>& m, std::optional<Any>* r, int fresh) const
    {
        auto& A = *r[o.a];
        switch (o.what) {
        case 'l':
        case 'r':
            (o.what == 'l' ? kinds()[o.t].by_lvalue : kinds()[o.t].by_rvalue)(A, o.t == 7 ? fresh % 2 : fresh);
            m[o.a] = {o.t, o.t == 7 ? fresh % 2 : fresh};
            break;
        case '=':
            A = *r[o.b];
            m[o.a] = m[o.b];
            break;
        case 'm':
            A = std::move(*r[o.b]);
            if (o.a != o.b) m[o.a] = m[o.b], m[o.b] = {};
            break;
        case 'x': {
            throw_in = 0;
            bool threw = false;
            try {
                A = *r[o.b];
            } catch (const Boom&) {
                threw = true;
            }
            throw_in = -1;
            if (!threw) nat::bad("the exception of the copy", "no exception");
            break;
        }
        case 'c':
            r[o.a].reset();
            r[o.a].emplace(std::as_const(*r[o.b]));
            m[o.a] = m[o.b];
            break;
        case 'n':
            r[o.a].reset();
            r[o.a].emplace(std::move(*r[o.b]));
            m[o.a] = m[o.b];
            m[o.b] = {};
            break;
        case 's':
            swap(*r[o.a], *r[o.b]);
            std::swap(m[o.a], m[o.b]);
            break;
        case '0':
            A = Any{};
            m[o.a] = {};
            break;
        case 'w':
            if (m[o.a].type != 7) {
                kinds()[m[o.a].type].write(A, fresh);
                m[o.a].v = fresh;
            }
            break;
        case 't': {
            auto x = kinds()[m[o.a].type].take(A);
            if (x != m[o.a].v) nat::bad(std::to_string(m[o.a].v), "took " + std::to_string(x));
            if (!kinds()[m[o.a].type].keeps) m[o.a].v = -1;
            break;
        }
        }
    }
    void check(const std::vector<Slot>& m, std::optional<Any>* r) const
    {
        std::size_t alive = 0;
        for (unsigned i = 0; i < slots; ++i) {
            if (r[i]->has_value() != (m[i].type >= 0)) {
                nat::bad(m[i].type >= 0 ? "a value" : "no value", r[i]->has_value() ? "a value" : "no value");
                continue;
            }
            if (m[i].type < 0) continue;
            auto got = kinds()[m[i].type].get(*r[i]);
            if (got != m[i].v) nat::bad("slot " + std::to_string(i) + " holds " + std::to_string(m[i].v), std::to_string(got));
            alive += kinds()[m[i].type].tracked;
        }
        if (live.size() != alive) nat::bad(std::to_string(alive) + " stored objects", std::to_string(live.size()));
    }
    // runs one history from the beginning, checking after the last operation and after destruction
    bool run(const std::vector<int>& h, std::vector<Slot>& m) const
    {
        auto before = nat::bads;
        m.assign(slots, {});
        auto held = blocks;
        {
            std::optional<Any> r[max_slots];
            for (unsigned i = 0; i < slots; ++i) r[i].emplace();
            for (std::size_t k = 0; k < h.size(); ++k) apply(ops[h[k]], m, r, 10 + int(k));
            check(m, r);
        }
        if (!live.empty()) nat::bad("all destroyed", std::to_string(live.size()) + " objects left");
        live.clear();
        if (nat::bads == before && blocks != held) nat::bad("all storage released", std::to_string(blocks - held) + " blocks left");
        return nat::bads == before;
    }
    void go(std::vector<int>& h, unsigned depth, unsigned& firsts) const
    {
        std::vector<Slot> m;
        string at = label;
        for (auto x : h) at += " " + ops[x].name;
        nat::at(at);
        nat::state();
        if (!run(h, m) || !depth) {
            string o = label;
            for (auto& s : m) o += std::to_string(s.type) + ":" + std::to_string(s.v) + " ";
            nat::outcome(o);
            return;
        }
        for (int i = 0; i < int(ops.size()); ++i) {
            if (!possible(ops[i], m) || (h.empty() && !nat::mine(firsts++))) continue;
            nat::step();
            h.push_back(i);
            go(h, depth - 1, firsts);
            h.pop_back();
        }
    }
    void explore(unsigned depth) const
    {
        std::vector<int> h;
        unsigned firsts = 0;
        go(h, depth, firsts);
    }
};

// ---- dynamic_string_view --------------------------------------------------------------------
struct Text {
    string s;
    std::shared_ptr<std::vector<char>> outside;  // what a mere view looks at; freed when no view should need it
    bool known = true;
};
static std::shared_ptr<std::vector<char>> outside(const string& s) { return std::make_shared<std::vector<char>>(s.begin(), s.end()); }
static string text(int n, int fresh)
{
    string s;
    for (int i = 0; i < n; ++i) s += char('a' + (i + fresh * 7) % 26);
    return s;
}
struct DsvWorld {
    using D = u::dynamic_string_view;
    struct Op {
        string name;
        char what;
        int a, b, n;
    };
    unsigned slots;
    std::vector<Op> ops;
    explicit DsvWorld(unsigned n) : slots{n}
    {
        auto s = [](int i) { return std::to_string(i); };
        for (int i = 0; i < int(n); ++i) {
            for (int len : {0, 3, 40}) {
                ops.push_back({s(i) + "=view" + s(len), 'v', i, 0, len});
                ops.push_back({s(i) + "=string" + s(len), 'S', i, 0, len});
            }
            ops.push_back({s(i) + "=literal", 'C', i, 0, 0});
            ops.push_back({s(i) + "=string15", 'S', i, 0, 15});
            for (int len : {0, 2, 30}) ops.push_back({s(i) + "+=view" + s(len), '+', i, 0, len});
            ops.push_back({s(i) + "+=literal", 'L', i, 0, 0});
            ops.push_back({s(i) + "+=string", 'T', i, 0, 5});
            for (int j = 0; j < int(n); ++j) {
                ops.push_back({s(i) + "=" + s(j), '=', i, j, 0});
                ops.push_back({s(i) + "=move" + s(j), 'm', i, j, 0});
                if (i != j) ops.push_back({s(i) + "(" + s(j) + ")", 'c', i, j, 0}), ops.push_back({s(i) + "(move" + s(j) + ")", 'n', i, j, 0});
                if (i <= j) ops.push_back({"swap" + s(i) + s(j), 's', i, j, 0});
                ops.push_back({s(i) + "+=" + s(j), 'p', i, j, 0});
                ops.push_back({s(i) + "+=viewof" + s(j), 'P', i, j, 0});
                ops.push_back({s(i) + "=" + s(j) + "+" + s((j + 1) % n), 'q', i, j, 0});
                ops.push_back({s(i) + "=move" + s(j) + "+" + s(i), 'Q', i, j, 0});
            }
            ops.push_back({"own" + s(i), 'o', i, 0, 0});
        }
    }
    static void adopt(Text& t, const D& d)
    {
        // a moved-from object has some valid content
        t.s = string(std::string_view(d));
        t.known = d.internal_storage_size() != 0 || t.s.empty();
        if (!t.known) nat::bad("moved-from object empty or its own", "a view");
        t.outside.reset();
    }
    void apply(const Op& o, std::vector<Text>& m, std::optional<D>* r, int fresh) const
    {
        auto& d = *r[o.a];
        auto& t = m[o.a];
        // the old content is released only after the operation
        auto keep = t;
        switch (o.what) {
        case 'v': {
            Text n;
            n.s = text(o.n, fresh);
            n.outside = outside(n.s);
            d = std::string_view{n.outside->data(), n.s.size()};
            t = n;
            break;
        }
        case 'C':
            d = "literal";
            t = {"literal", nullptr};
            break;
        case 'S': {
            arg_router::string s(text(o.n, fresh));
            d = std::move(s);
            t = {text(o.n, fresh), nullptr};
            s = "overwritten";
            break;
        }
        case '+': {
            auto out = outside(text(o.n, fresh));
            d += std::string_view{out->data(), out->size()};
            t = {t.s + text(o.n, fresh), nullptr};
            break;
        }
        case 'L':
            d += "++";
            t = {t.s + "++", nullptr};
            break;
        case 'T': {
            arg_router::string s(text(o.n, fresh));
            d += s;
            t = {t.s + text(o.n, fresh), nullptr};
            break;
        }
        case '=':
            d = *r[o.b];
            t = m[o.b];
            break;
        case 'm':
            d = std::move(*r[o.b]);
            if (o.a != o.b) t = m[o.b], adopt(m[o.b], *r[o.b]);
            break;
        case 'c':
            r[o.a].reset();
            r[o.a].emplace(std::as_const(*r[o.b]));
            t = m[o.b];
            break;
        case 'n':
            r[o.a].reset();
            r[o.a].emplace(std::move(*r[o.b]));
            t = m[o.b];
            adopt(m[o.b], *r[o.b]);
            break;
        case 's':
            swap(d, *r[o.b]);
            std::swap(t, m[o.b]);
            break;
        case 'p':
            d += *r[o.b];
            t = {t.s + m[o.b].s, nullptr};
            break;
        case 'P':
            d += std::string_view(*r[o.b]);
            t = {t.s + m[o.b].s, nullptr};
            break;
        case 'q': {
            auto& x = m[o.b];
            auto& y = m[(o.b + 1) % slots];
            auto s = x.s + y.s;
            d = *r[o.b] + *r[(o.b + 1) % slots];
            t = {s, nullptr};
            break;
        }
        case 'Q': {
            auto s = m[o.b].s + (o.a == o.b ? string() : t.s);
            if (o.a == o.b) {
                d = std::move(d) + std::string_view("!");
                s += "!";
                t = {s, nullptr};
            } else {
                d = std::move(*r[o.b]) + d;
                t = {s, nullptr};
                adopt(m[o.b], *r[o.b]);
            }
            break;
        }
        case 'o':
            d.convert_to_internal_storage();
            t.outside.reset();
            break;
        }
    }
    void check(const std::vector<Text>& m, std::optional<D>* r) const
    {
        for (unsigned i = 0; i < slots; ++i) {
            const D& d = *r[i];
            std::string_view v = d;
            string got(v);
            if (got != m[i].s) {
                nat::bad("slot " + std::to_string(i) + " is " + m[i].s, got);
                continue;
            }
            if (string(d.begin(), d.end()) != got || d.size() != got.size() || d.empty() != got.empty()) nat::bad("one text " + got, "size, empty or iterators differ");
            if (d.internal_storage_size() && d.internal_storage_size() != got.size()) nat::bad("internal text " + got, "internal storage of another size");
            if (m[i].outside && !got.empty() && (d.internal_storage_size() || v.data() != m[i].outside->data())) nat::bad("a mere view " + got, "a copy");
            if (!m[i].outside && !got.empty() && got != "literal" && !d.internal_storage_size()) nat::bad("an owned text " + got, "a view");
            std::ostringstream os;
            os << d;
            if (os.str() != got) nat::bad("printed " + got, os.str());
            for (unsigned j = 0; j < slots; ++j)
                if ((d == *r[j]) != (m[i].s == m[j].s) || (d != *r[j]) == (m[i].s == m[j].s)) nat::bad("comparison of " + got + " with " + m[j].s, "wrong");
        }
    }
    bool run(const std::vector<int>& h, std::vector<Text>& m) const
    {
        auto before = nat::bads;
        m.assign(slots, {});
        std::optional<D> r[3];
        for (unsigned i = 0; i < slots; ++i) r[i].emplace();
        for (std::size_t k = 0; k < h.size(); ++k) apply(ops[h[k]], m, r, int(k));
        check(m, r);
        return nat::bads == before;
    }
    void go(std::vector<int>& h, unsigned depth, unsigned& firsts) const
    {
        std::vector<Text> m;
        string at = "dynamic_string_view";
        for (auto x : h) at += " " + ops[x].name;
        nat::at(at);
        nat::state();
        if (!run(h, m) || !depth) {
            string o;
            for (auto& s : m) o += s.s + (s.outside ? "'," : ",");
            nat::outcome(o);
            return;
        }
        for (int i = 0; i < int(ops.size()); ++i) {
            if (h.empty() && !nat::mine(firsts++)) continue;
            nat::step();
            h.push_back(i);
            go(h, depth - 1, firsts);
            h.pop_back();
        }
    }
    void explore(unsigned depth) const
    {
        std::vector<int> h;
        unsigned firsts = 0;
        go(h, depth, firsts);
    }
};

// ---- result ---------------------------------------------------------------------------------
struct Err : std::runtime_error {
    explicit Err(int x) : std::runtime_error("error " + std::to_string(x)), t{x} {}
    Small t;
};
struct MoveOnly {
    std::unique_ptr<Large> p;
    explicit MoveOnly(int v) : p{std::make_unique<Large>(v)} {}
    bool operator==(const MoveOnly& o) const { return p && o.p ? *p == *o.p : !p == !o.p; }
};
template <class T>
static T make(int v)
{
    return T(v);
}
static int value_of(int v) { return v; }
static int value_of(const Large& v) { return v.read(); }
static int value_of(const MoveOnly& v) { return v.p ? v.p->read() : -1; }
static int gone(const int&, int v) { return v; }
template <class T>
static int gone(const T&, int)
{
    return -1;
}

template <class T>
struct ResultWorld {
    using R = u::result<T, Err>;
    struct M {
        bool ok = true;
        int v = 0;
    };
    struct Op {
        string name;
        char what;
        int a, b;
    };
    static constexpr bool copies = std::is_copy_constructible_v<T>;
    unsigned slots;
    std::vector<Op> ops;
    const char* label;
    ResultWorld(const char* l, unsigned n) : slots{n}, label{l}
    {
        auto s = [](int i) { return std::to_string(i); };
        for (int i = 0; i < int(n); ++i) {
            ops.push_back({s(i) + "=value", 'v', i, 0});
            ops.push_back({s(i) + "=error", 'e', i, 0});
            ops.push_back({"extract" + s(i), 'x', i, 0});
            ops.push_back({"get" + s(i), 'g', i, 0});
            ops.push_back({"throw" + s(i), 't', i, 0});
            ops.push_back({"write" + s(i), 'w', i, 0});
            for (int j = 0; j < int(n); ++j) {
                if (copies) ops.push_back({s(i) + "=" + s(j), '=', i, j});
                if (i != j) ops.push_back({s(i) + "=move" + s(j), 'm', i, j});
                if (copies && i != j) ops.push_back({s(i) + "(" + s(j) + ")", 'c', i, j});
                if (i != j) ops.push_back({s(i) + "(move" + s(j) + ")", 'n', i, j});
                if (i < j) ops.push_back({"swap" + s(i) + s(j), 's', i, j});
            }
        }
    }
    template <class F>
    static std::pair<bool, int> attempt(F f)
    {
        try {
            return {true, f()};
        } catch (const Err& e) {
            if (e.what() != "error " + std::to_string(e.t.read()) && e.t.read() != -1) return {false, -97};
            return {false, e.t.read()};
        }
    }
    static void expect(const M& m, std::pair<bool, int> got, const char* what)
    {
        if (got != std::pair{m.ok, m.v}) nat::bad(string(m.ok ? "value " : "error ") + std::to_string(m.v), string(what) + (got.first ? " value " : " error ") + std::to_string(got.second));
    }
    static void left(R& r, M& m)
    {
        if (m.ok)
            m.v = gone(*r.get_if(), m.v);
        else
            m.v = -1;
    }
    void apply(const Op& o, std::vector<M>& m, std::optional<R>* r, int fresh) const
    {
        auto& x = *r[o.a];
        switch (o.what) {
        case 'v':
            x = make<T>(fresh);
            m[o.a] = {true, fresh};
            break;
        case 'e':
            x = Err(fresh);
            m[o.a] = {false, fresh};
            break;
        case 'x':
            expect(m[o.a], attempt([&] { return value_of(x.extract()); }), "extract()");
            left(x, m[o.a]);
            break;
        case 'g': expect(m[o.a], attempt([&] { return value_of(std::as_const(x).get()); }), "get()"); break;
        case 't':
            expect(m[o.a].ok ? M{true, 0} : m[o.a], attempt([&] {
                       x.throw_exception();
                       return 0;
                   }),
                   "throw_exception()");
            break;
        case 'w':
            if (auto p = x.get_if()) {
                *p = make<T>(fresh);
                m[o.a].v = fresh;
            }
            break;
        case '=':
            if constexpr (copies) {
                x = *r[o.b];
                m[o.a] = m[o.b];
            }
            break;
        case 'm':
            x = std::move(*r[o.b]);
            m[o.a] = m[o.b];
            left(*r[o.b], m[o.b]);
            break;
        case 'c':
            if constexpr (copies) {
                r[o.a].reset();
                r[o.a].emplace(std::as_const(*r[o.b]));
                m[o.a] = m[o.b];
            }
            break;
        case 'n':
            r[o.a].reset();
            r[o.a].emplace(std::move(*r[o.b]));
            m[o.a] = m[o.b];
            left(*r[o.b], m[o.b]);
            break;
        case 's':
            std::swap(x, *r[o.b]);
            std::swap(m[o.a], m[o.b]);
            break;
        }
    }
    void check(const std::vector<M>& m, std::optional<R>* r) const
    {
        for (unsigned i = 0; i < slots; ++i) {
            auto& x = *r[i];
            const auto& c = x;
            if (x.has_result() != m[i].ok || x.has_error() == m[i].ok || bool(x) != m[i].ok || !x == m[i].ok || !x.get_if() == m[i].ok || !c.get_if() == m[i].ok) nat::bad(m[i].ok ? "a result" : "an error", "the other");
            if (m[i].ok && x.get_if() && (value_of(*x.get_if()) != m[i].v || value_of(*c.get_if()) != m[i].v)) nat::bad("value " + std::to_string(m[i].v), std::to_string(value_of(*c.get_if())));
            expect(m[i], attempt([&] { return value_of(c.get()); }), "get()");
            for (unsigned j = 0; j < slots; ++j) {
                bool same = m[i].ok && m[j].ok && m[i].v == m[j].v;
                if ((c == *r[j]) != same || (c != *r[j]) == same) nat::bad("comparison", "wrong");
            }
            if (m[i].v >= 0) {
                auto v = make<T>(m[i].v), w = make<T>(m[i].v + 1);
                if ((c == v) != m[i].ok || (v == c) != m[i].ok || (c != v) == m[i].ok || (v != c) == m[i].ok || c == w || w == c) nat::bad("comparison with the value", "wrong");
            }
        }
    }
    bool run(const std::vector<int>& h, std::vector<M>& m) const
    {
        auto before = nat::bads;
        m.assign(slots, {});
        auto held = blocks;
        {
            std::optional<R> r[3];
            for (unsigned i = 0; i < slots; ++i) r[i].emplace(make<T>(0));
            for (std::size_t k = 0; k < h.size(); ++k) apply(ops[h[k]], m, r, 10 + int(k));
            check(m, r);
        }
        if (!live.empty()) nat::bad("all destroyed", std::to_string(live.size()) + " objects left");
        live.clear();
        if (nat::bads == before && blocks != held) nat::bad("all storage released", std::to_string(blocks - held) + " blocks left");
        return nat::bads == before;
    }
    void go(std::vector<int>& h, unsigned depth, unsigned& firsts) const
    {
        std::vector<M> m;
        string at = label;
        for (auto x : h) at += " " + ops[x].name;
        nat::at(at);
        nat::state();
        if (!run(h, m) || !depth) {
            string o = label;
            for (auto& s : m) o += (s.ok ? "v" : "e") + std::to_string(s.v);
            nat::outcome(o);
            return;
        }
        for (int i = 0; i < int(ops.size()); ++i) {
            if (h.empty() && !nat::mine(firsts++)) continue;
            nat::step();
            h.push_back(i);
            go(h, depth - 1, firsts);
            h.pop_back();
        }
    }
    void explore(unsigned depth) const
    {
        std::vector<int> h;
        unsigned firsts = 0;
        go(h, depth, firsts);
    }
};

void explore()
{
    AnyWorld<u::unsafe_any>("unsafe_any", 2).explore(3 + DEEP);
    AnyWorld<u::unsafe_any>("unsafe_any", 3).explore(2 + DEEP);
    AnyWorld<u::unsafe_any_t<>>("unsafe_any_t<>", 2).explore(2 + DEEP);
    AnyWorld<u::unsafe_any_t<128>>("unsafe_any_t<128>", 2).explore(2 + DEEP);
    DsvWorld(2).explore(3 + DEEP);
    DsvWorld(3).explore(2 + DEEP);
    ResultWorld<int>("result<int>", 2).explore(4 + DEEP);
    ResultWorld<Large>("result<large>", 3).explore(3);
    ResultWorld<MoveOnly>("result<move-only>", 2).explore(4 + DEEP);
}
