// Storage of a parse or of generated help: where it comes from, that all of it goes back, and what
// an allocator failing at each of its calls, or the program's own functions failing, does.
#include "native.hpp"

#include <pty.h>
#include <sys/ioctl.h>

#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>

namespace h
{
struct alloc_failed : std::bad_alloc {
    const char* what() const noexcept override { return "allocation failed"; }
};
struct user_failed {
};
struct Out {
    std::string text;
    unsigned calls = 0;
};
thread_local Out* out = nullptr;
thread_local std::function<void()>* in_router = nullptr;
struct Runner {
    virtual ~Runner() = default;
    virtual void parse(std::vector<char*>& argv, int entry) const = 0;
    virtual std::string help(int entry) const = 0;
    virtual std::unique_ptr<Runner> clone() const = 0;
    virtual std::unique_ptr<Runner> take() = 0;
};
using Maker = std::unique_ptr<Runner> (*)(unsigned);
static std::map<std::string, Maker>& makers()
{
    static std::map<std::string, Maker> m;
    return m;
}
void reg(const char* id, Maker m) { makers()[id] = m; }
}  // namespace h
std::optional<std::string> guarded(const std::function<void()>& f);

namespace st
{
static int lib, own;
static unsigned taken, fail_at = ~0u;  // calls of the configured allocator by the library
static bool sticky, failed;
static long live, bytes;
static char error[256];
static char foreign[256];
static const char* exempt = "";
static unsigned points, throw_at = ~0u;
static long global_live;  // storage from operator new asked for by the library
struct Head {
    std::size_t n;
    const void* tag;
    unsigned long magic;
    unsigned long pad;
};
static bool inside() { return lib > 0 && own == 0; }
}  // namespace st

extern "C" {
void h_lib(int d) { st::lib += d; }
void h_own(int d) { st::own += d; }
void h_point(int kind)
{
    if (!kind || !st::inside()) return;
    if (st::points++ == st::throw_at) throw h::user_failed{};
}
void* h_take(std::size_t n, const void* tag)
{
    if (st::inside()) {
        auto k = st::taken++;
        if (k == st::fail_at || (st::sticky && k > st::fail_at && st::fail_at != ~0u)) {
            st::failed = true;
            throw h::alloc_failed{};
        }
    }
    auto p = static_cast<st::Head*>(std::malloc(sizeof(st::Head) + n));
    if (!p) _exit(3);
    *p = {n, tag, 0x5ca1ab1e, 0};
    ++st::live;
    st::bytes += long(n);
    return p + 1;
}
void h_give(void* q, std::size_t n, const void* tag)
{
    if (!q) {
        std::snprintf(st::error, sizeof st::error, "released a null pointer of %zu bytes", n);
        return;
    }
    auto p = static_cast<st::Head*>(q) - 1;
    if (p->magic != 0x5ca1ab1e) {
        std::snprintf(st::error, sizeof st::error, "released storage that is not there (%zu bytes)", n);
        return;
    }
    if (p->n != n || p->tag != tag) std::snprintf(st::error, sizeof st::error, "took %zu bytes and released %zu%s", p->n, n, p->tag == tag ? "" : " as another type");
    p->magic = 0;
    --st::live;
    st::bytes -= long(n);
    std::free(p);
}
// std::allocator inside the library, for something that is not the program's
void h_std_alloc(const char* what)
{
    if (!st::inside() || st::foreign[0]) return;
    auto t = std::strstr(what, "[with T = ");
    if (t) what = t + 10;
    auto n = std::strcspn(what, ";]");
    for (auto e = st::exempt; *e;) {
        auto m = std::strcspn(e, ";");
        if (m == n && !std::strncmp(e, what, n)) return;
        e += m + (e[m] == ';');
    }
    std::snprintf(st::foreign, sizeof st::foreign, "%.*s", int(n), what);
}
}

static void* global_take(std::size_t n)
{
    auto p = static_cast<unsigned long*>(std::malloc(n + 16));
    if (!p) _exit(3);
    *p = st::inside();
    st::global_live += long(*p);
    return p + 2;
}
static void global_give(void* q)
{
    if (!q) return;
    auto p = static_cast<unsigned long*>(q) - 2;
    st::global_live -= long(*p);
    std::free(p);
}
void* operator new(std::size_t n) { return global_take(n); }
void* operator new[](std::size_t n) { return global_take(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return global_take(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return global_take(n); }
void operator delete(void* p) noexcept { global_give(p); }
void operator delete[](void* p) noexcept { global_give(p); }
void operator delete(void* p, std::size_t) noexcept { global_give(p); }
void operator delete[](void* p, std::size_t) noexcept { global_give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { global_give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { global_give(p); }

using std::string;
using std::vector;

struct Line {
    vector<string> argv;
    int help = -1;
    string name;
};

static string dec(const string& s)
{
    if (s == "%") return "";
    string r;
    for (std::size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%') {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else
            r += s[i];
    return r;
}

static string go(const h::Runner& r, const Line& l, int entry)
{
    h::Out o;
    vector<string> s{"prog"};
    vector<char*> p;
    for (auto& a : l.argv) s.push_back(a);
    for (auto& a : s) p.push_back(a.data());
    p.push_back(nullptr);
    auto old = h::out;
    h::out = &o;
    string t;
    try {
        if (l.help >= 0) t = r.help(l.help);
        else {
            auto e = guarded([&] { r.parse(p, entry); });
            t = e ? "E:" + *e : o.calls == 1 ? o.text : "CALLS " + std::to_string(o.calls) + ":" + o.text;
        }
    } catch (const h::alloc_failed&) {
        t = "allocation failure";
    } catch (const h::user_failed&) {
        t = "program's failure";
    } catch (const std::exception& e) {
        t = string("X:") + e.what();
    } catch (...) {
        t = "X:?";
    }
    h::out = old;
    if (st::lib || st::own) {
        st::lib = st::own = 0;
        t += " (not left)";
    }
    return t;
}

static void columns(unsigned n)
{
    static int master = -1, slave = -1;
    if (master < 0 && openpty(&master, &slave, nullptr, nullptr, nullptr)) _exit(3);
    struct winsize w {};
    w.ws_col = static_cast<unsigned short>(n);
    w.ws_row = 24;
    if (ioctl(slave, TIOCSWINSZ, &w)) _exit(3);
    dup2(slave, 0);
}

struct Run {
    string got;
    unsigned taken, points;
    bool ok;
};
// one call with everything it took accounted for
static Run once(const h::Runner& r, const Line& l, int entry, unsigned fail_at, bool sticky, unsigned throw_at)
{
    st::fail_at = fail_at;
    st::sticky = sticky;
    st::throw_at = throw_at;
    st::taken = st::points = 0;
    st::failed = false;
    st::error[0] = st::foreign[0] = 0;
    auto live = st::live, bytes = st::bytes, global = st::global_live;
    Run x{go(r, l, entry), 0, 0, true};
    x.taken = st::taken;
    x.points = st::points;
    st::fail_at = st::throw_at = ~0u;
    nat::step();
    auto bad = [&](const string& want, const string& got) {
        if (x.ok) nat::bad(want, got);
        x.ok = false;
    };
    if (st::error[0]) bad("storage goes back as it was taken", st::error);
    if (st::live != live || st::bytes != bytes)
        bad("all storage taken is released", std::to_string(st::live - live) + " allocations of " + std::to_string(st::bytes - bytes) + " bytes are not");
    if (st::global_live != global) bad("all storage taken is released", std::to_string(st::global_live - global) + " uses of operator new are not");
    if (st::foreign[0]) bad("storage comes from the configured allocator", string("std::allocator is used for ") + st::foreign);
    st::live = live;
    st::bytes = bytes;
    st::global_live = global;
    return x;
}

static void all(const string& tree, const h::Runner& r, const Line& l, int entry, unsigned cols, bool failures)
{
    columns(cols);
    auto what = tree + " [" + l.name + "] entry " + std::to_string(entry) + " columns " + std::to_string(cols);
    nat::at(what);
    nat::state();
    st::error[0] = st::foreign[0] = 0;
    st::fail_at = st::throw_at = ~0u;
    auto warm = go(r, l, entry);
    nat::at(what);
    auto x = once(r, l, entry, ~0u, false, ~0u);
    if (x.got != warm) nat::bad(warm, x.got);
    nat::outcome(std::to_string(x.taken) + " " + std::to_string(x.points) + " " + x.got.substr(0, 20));
    nat::sample(std::to_string(x.taken) + " allocations");
    if (!failures) return;
    for (int sticky = 0; sticky < 2; ++sticky)
        for (unsigned k = 0; k < x.taken; ++k) {
            nat::at(what + (sticky ? " failing from allocation " : " failing at allocation ") + std::to_string(k));
            nat::state();
            auto y = once(r, l, entry, k, sticky, ~0u);
            if (!st::failed) nat::bad("the same allocations", "fewer of them");
            else if (y.ok && y.got != "allocation failure" && y.got != warm) nat::bad("allocation failure", y.got);
        }
    for (unsigned k = 0; k < x.points; ++k) {
        nat::at(what + " the program's function failing at call " + std::to_string(k));
        nat::state();
        auto y = once(r, l, entry, ~0u, false, k);
        if (y.ok && y.got != "program's failure") nat::bad("program's failure", y.got);
    }
    nat::at(what + " after the failures");
    auto z = once(r, l, entry, ~0u, false, ~0u);
    if (z.ok && z.got != warm) nat::bad(warm, z.got);
}

void explore()
{
    std::ifstream in(std::getenv("C30_PLAN"));
    std::unique_ptr<h::Runner> r;
    string tree, exempt;
    static char ex[256];
    std::uint64_t n = 0;
    for (string l; std::getline(in, l);) {
        std::istringstream s(l);
        string k, v;
        s >> k >> v;
        if (k == "tree") {
            unsigned cfg;
            s >> cfg;
            std::getline(s >> std::ws, exempt);
            tree = v;
            std::snprintf(ex, sizeof ex, "%s", exempt.c_str());
            st::exempt = ex;
            r = h::makers().at(tree)(cfg);
            continue;
        }
        int entry = 0;
        unsigned cols = 0;
        s >> entry >> cols;
        if (!nat::mine(n++)) continue;
        Line x;
        x.name = v;
        if (v.substr(0, 5) == "@HELP") x.help = v[5] - '0';
        else if (v != "@") {
            std::istringstream a(v);
            for (string t; std::getline(a, t, ',');) x.argv.push_back(dec(t));
        }
        all(tree, *r, x, entry, cols, k == "f");
    }
}
