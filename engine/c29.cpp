// Two parses of one tree at once, under a controlled scheduler.
//
// The trees are compiled with the compiler's memory access instrumentation; this file is its run
// time.  Two threads hand a baton to each other, so that one runs at a time and every execution is
// reproducible.
//  - races: every access of the instrumented code is recorded with vector clocks.  Without
//    conflicting unordered accesses all interleavings of two parses are equivalent.
//  - schedules: all executions of two parses with up to PREEMPT preemptions at scheduling points
//    (storage taken from or returned to the configured allocator, router and conversion calls,
//    synchronisation).
//  - nesting: a parse inside each router or conversion call of another.
#include "native.hpp"

#include <dlfcn.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <sys/syscall.h>

#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>

// -------------------------------------------------------------------------------------------------
// the runtime: no library code below may be called from here

namespace rt
{
using u8 = unsigned char;
using u32 = std::uint32_t;
using up = std::uintptr_t;

struct Cell {
    up key;
    u32 w[2][8], r[2][8];
};
constexpr std::size_t cells_n = 1u << 19;
static Cell* cells;

struct Sync {
    up key;
    u32 vc[2];
    int owner;  // mutex: thread holding it + 1
};
constexpr std::size_t syncs_n = 1u << 12;
static Sync* syncs;

thread_local int self = -1;      // 0, 1: the two parses
thread_local bool busy = false;  // inside the run time
static bool recording = false;
static u32 vc[2][2];
static up stack_lo[2], stack_hi[2];
struct Range {
    up lo, hi;
};
static Range foreign[256];  // data of shared objects: not the library's
static int foreign_n;
static up rodata_lo, rodata_hi;

static char report[512];
static std::uint64_t accesses, shared_cells, sync_ops, points;
static bool full;

static bool outside(up a)
{
    if (a >= stack_lo[self] && a < stack_hi[self]) return true;
    if (a >= rodata_lo && a < rodata_hi) return true;
    for (int i = 0; i < foreign_n; ++i)
        if (a >= foreign[i].lo && a < foreign[i].hi) return true;
    return false;
}

static Cell* cell(up key, bool make)
{
    auto h = (key * 0x9E3779B97F4A7C15ull) >> 40;
    for (std::size_t i = 0; i < cells_n; ++i) {
        auto& c = cells[(h + i) & (cells_n - 1)];
        if (c.key == key) return &c;
        if (!c.key) {
            if (!make) return nullptr;
            if (shared_cells > cells_n / 2) {
                full = true;
                return nullptr;
            }
            c.key = key;
            ++shared_cells;
            return &c;
        }
    }
    return nullptr;
}

static void access(up a, std::size_t n, bool write, void* pc)
{
    if (self < 0 || busy || !recording || !n) return;
    busy = true;
    if (!outside(a)) {
        ++accesses;
        int me = self, other = 1 - self;
        for (up g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
            auto c = cell(g, true);
            if (!c) break;
            for (up b = std::max(a, g << 3); b < std::min(a + n, (g + 1) << 3); ++b) {
                int k = b & 7;
                if (!report[0] && (c->w[other][k] > vc[me][other] || (write && c->r[other][k] > vc[me][other]))) {
                    Dl_info d{};
                    dladdr(pc, &d);
                    std::snprintf(report, sizeof report, "%s of memory another parse %s without synchronisation (in %s+%zx)", write ? "write" : "read",
                                  c->w[other][k] > vc[me][other] ? "writes" : "reads", d.dli_sname ? d.dli_sname : "?",
                                  d.dli_saddr ? std::size_t(up(pc) - up(d.dli_saddr)) : 0);
                }
                (write ? c->w : c->r)[me][k] = vc[me][me];
            }
        }
    }
    busy = false;
}
// memory given back or handed out anew holds nothing of what was there before
static void forget(up a, std::size_t n)
{
    if (!recording || busy || !cells) return;
    busy = true;
    for (up g = a >> 3; n && g <= (a + n - 1) >> 3; ++g)
        if (auto c = cell(g, false)) std::memset(c->w, 0, sizeof c->w + sizeof c->r);
    busy = false;
}

static Sync& sync_of(up a)
{
    for (std::size_t i = (a >> 2) & (syncs_n - 1);; i = (i + 1) & (syncs_n - 1)) {
        if (syncs[i].key == a) return syncs[i];
        if (!syncs[i].key) {
            syncs[i].key = a;
            return syncs[i];
        }
    }
}
static void acquire(up a)
{
    if (self < 0) return;
    auto& s = sync_of(a);
    for (int i = 0; i < 2; ++i) vc[self][i] = std::max(vc[self][i], s.vc[i]);
}
static void release(up a)
{
    if (self < 0) return;
    auto& s = sync_of(a);
    for (int i = 0; i < 2; ++i) s.vc[i] = std::max(s.vc[i], vc[self][i]);
    ++vc[self][self];
}

// the baton
static volatile int turn = -1;
static bool alive[2], blocked[2];
static u32 switch_at[8];
static int switches, next_switch;
static u32 step;
static bool deadlock;

static void futex_wait(volatile int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int* p) { syscall(SYS_futex, p, FUTEX_WAKE, 16, nullptr, nullptr, 0); }
static void hand_to(int t)
{
    __atomic_store_n(&turn, t, __ATOMIC_SEQ_CST);
    futex_wake(&turn);
}
static void wait_for(int t)
{
    for (int i = 0; i < 200; ++i)
        if (__atomic_load_n(&turn, __ATOMIC_SEQ_CST) == t) return;
    for (;;) {
        auto v = __atomic_load_n(&turn, __ATOMIC_SEQ_CST);
        if (v == t) return;
        futex_wait(&turn, v);
    }
}
static void point()
{
    if (self < 0 || busy) return;
    ++points;
    auto now = step++;
    if (next_switch < switches && switch_at[next_switch] == now) {
        ++next_switch;
        int other = 1 - self;
        if (alive[other] && !blocked[other]) {
            hand_to(other);
            wait_for(self);
        }
    }
}
// the other has to run for this one to go on
static bool blocked_here()
{
    int other = 1 - self;
    if (!alive[other] || blocked[other]) {
        deadlock = true;
        std::snprintf(report, sizeof report, "deadlock");
        return false;
    }
    blocked[self] = true;
    hand_to(other);
    wait_for(self);
    blocked[self] = false;
    return !deadlock;
}
static void unblock()
{
    blocked[0] = blocked[1] = false;
}
static thread_local std::function<void(int)>* hook = nullptr;
}  // namespace rt

extern "C" {
void h_point(int kind)
{
    rt::point();
    if (kind && rt::hook && *rt::hook) (*rt::hook)(kind);
}

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                            \
    void __tsan_read##N(void* a) { rt::access(rt::up(a), N, false, PC); }                \
    void __tsan_write##N(void* a) { rt::access(rt::up(a), N, true, PC); }                \
    void __tsan_unaligned_read##N(void* a) { rt::access(rt::up(a), N, false, PC); }      \
    void __tsan_unaligned_write##N(void* a) { rt::access(rt::up(a), N, true, PC); }      \
    void __tsan_volatile_read##N(void* a) { rt::access(rt::up(a), N, false, PC); }       \
    void __tsan_volatile_write##N(void* a) { rt::access(rt::up(a), N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, unsigned long n) { rt::access(rt::up(a), n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { rt::access(rt::up(a), n, true, PC); }
void __tsan_vptr_update(void** a, void*) { rt::access(rt::up(a), 8, true, PC); }
void __tsan_vptr_read(void** a) { rt::access(rt::up(a), 8, false, PC); }

// atomics order what their memory order says they do (relaxed: nothing)
static void sync_op(volatile void* a, int order, bool load, bool store)
{
    if (rt::self < 0) return;
    ++rt::sync_ops;
    rt::point();
    if (load && (order == 1 || order == 2 || order == 4 || order == 5)) rt::acquire(rt::up(a));
    if (store && (order == 3 || order == 4 || order == 5)) rt::release(rt::up(a));
}
#define ATOMIC(B, T)                                                                                                                                     \
    T __tsan_atomic##B##_load(const volatile T* a, int o) { sync_op((void*)a, o, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }             \
    void __tsan_atomic##B##_store(volatile T* a, T v, int o) { sync_op(a, o, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                    \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int o) { sync_op(a, o, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }           \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int o) { sync_op(a, o, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }           \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int o) { sync_op(a, o, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }           \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int o) { sync_op(a, o, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }           \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int o) { sync_op(a, o, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }             \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int o) { sync_op(a, o, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }           \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int o) { sync_op(a, o, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }         \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int o, int) { sync_op(a, o, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int o, int) { sync_op(a, o, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int o, int) { sync_op(a, o, true, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// initialisation of function-local statics
int __cxa_guard_acquire(unsigned char* g)
{
    if (rt::self >= 0) {
        ++rt::sync_ops;
        rt::point();
    }
    for (;;) {
        if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) {
            rt::acquire(rt::up(g));
            return 0;
        }
        if (!g[1]) {
            g[1] = 1;
            return 1;
        }
        if (rt::self < 0 || !rt::blocked_here()) return 1;
    }
}
void __cxa_guard_release(unsigned char* g)
{
    rt::release(rt::up(g));
    g[1] = 0;
    __atomic_store_n(g, 1, __ATOMIC_RELEASE);
    rt::unblock();
}
void __cxa_guard_abort(unsigned char* g)
{
    g[1] = 0;
    rt::unblock();
}

// locks
#define LOCK(NAME, TRY, T)                             \
    int __real_##NAME(T*);                             \
    int TRY(T*);                                       \
    int __wrap_##NAME(T* m)                            \
    {                                                  \
        if (rt::self < 0) return __real_##NAME(m);     \
        ++rt::sync_ops;                                \
        rt::point();                                   \
        int r;                                         \
        while ((r = TRY(m)) != 0)                      \
            if (!rt::blocked_here()) _exit(77);        \
        rt::acquire(rt::up(m));                        \
        return r;                                      \
    }
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    rt::release(rt::up(m));
    auto r = __real_pthread_mutex_unlock(m);
    rt::unblock();
    rt::point();
    return r;
}
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    rt::release(rt::up(m));
    auto r = __real_pthread_rwlock_unlock(m);
    rt::unblock();
    rt::point();
    return r;
}

void* __real_memcpy(void*, const void*, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n)
{
    rt::access(rt::up(s), n, false, PC);
    rt::access(rt::up(d), n, true, PC);
    return __real_memcpy(d, s, n);
}
void* __real_memmove(void*, const void*, std::size_t);
void* __wrap_memmove(void* d, const void* s, std::size_t n)
{
    rt::access(rt::up(s), n, false, PC);
    rt::access(rt::up(d), n, true, PC);
    return __real_memmove(d, s, n);
}
void* __real_memset(void*, int, std::size_t);
void* __wrap_memset(void* d, int c, std::size_t n)
{
    rt::access(rt::up(d), n, true, PC);
    return __real_memset(d, c, n);
}
int __real_memcmp(const void*, const void*, std::size_t);
int __wrap_memcmp(const void* a, const void* b, std::size_t n)
{
    rt::access(rt::up(a), n, false, PC);
    rt::access(rt::up(b), n, false, PC);
    return __real_memcmp(a, b, n);
}
std::size_t __real_strlen(const char*);
std::size_t __wrap_strlen(const char* a)
{
    auto n = __real_strlen(a);
    rt::access(rt::up(a), n + 1, false, PC);
    return n;
}

void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void __libc_free(void*);
std::size_t malloc_usable_size(void*);
void* malloc(std::size_t n)
{
    auto p = __libc_malloc(n);
    if (p) rt::forget(rt::up(p), malloc_usable_size(p));
    return p;
}
void* calloc(std::size_t n, std::size_t m)
{
    auto p = __libc_calloc(n, m);
    if (p) rt::forget(rt::up(p), malloc_usable_size(p));
    return p;
}
void* realloc(void* q, std::size_t n)
{
    if (q) rt::forget(rt::up(q), malloc_usable_size(q));
    auto p = __libc_realloc(q, n);
    if (p) rt::forget(rt::up(p), malloc_usable_size(p));
    return p;
}
void free(void* p)
{
    if (p) rt::forget(rt::up(p), malloc_usable_size(p));
    __libc_free(p);
}
}

// -------------------------------------------------------------------------------------------------
// the explorer

namespace h
{
struct Out {
    std::string text;
    unsigned calls = 0;
};
thread_local Out* out = nullptr;
thread_local std::function<void()>* in_router = nullptr;
struct Runner {
    virtual ~Runner() = default;
    virtual void parse(std::vector<char*>& argv, int entry) const = 0;
    virtual std::string help(int entry) const = 0;
    virtual std::unique_ptr<Runner> clone() const = 0;
    virtual std::unique_ptr<Runner> take() = 0;
};
using Maker = std::unique_ptr<Runner> (*)(unsigned);
static std::map<std::string, Maker>& makers()
{
    static std::map<std::string, Maker> m;
    return m;
}
void reg(const char* id, Maker m) { makers()[id] = m; }
}  // namespace h
std::optional<std::string> guarded(const std::function<void()>& f);

using std::string;
using std::vector;

struct Line {
    vector<string> argv;
    int help = -1;
    bool base = false;
    string name, alone;
    unsigned hooks = 0;  // router and conversion calls when alone
};
struct Tree {
    string id;
    unsigned cfg = 0;
    vector<Line> lines;
};

static string dec(const string& s)
{
    if (s == "%") return "";
    string r;
    for (std::size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%') {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else
            r += s[i];
    return r;
}

// a command line in memory of its own
struct Args {
    vector<string> s;
    vector<char*> p;
    explicit Args(const Line& l)
    {
        s.push_back("prog");
        for (auto& a : l.argv) s.push_back(a);
        for (auto& a : s) p.push_back(a.data());
        p.push_back(nullptr);
    }
};

static string go(const h::Runner& r, const Line& l, Args& a)
{
    h::Out o;
    auto old = h::out;
    h::out = &o;
    string s;
    try {
        if (l.help >= 0) s = r.help(l.help);
        else {
            auto e = guarded([&] { r.parse(a.p, 0); });
            s = e ? "E:" + *e : o.calls == 1 ? o.text : "CALLS " + std::to_string(o.calls) + ":" + o.text;
        }
    } catch (const std::exception& e) {
        s = string("X:") + e.what();
    } catch (...) {
        s = "X:?";
    }
    h::out = old;
    return s;
}

// two threads of one process
struct Job {
    const h::Runner* r = nullptr;
    const Line* l = nullptr;
    Args* a = nullptr;
    string got;
};
static Job job[2];
static volatile int start[2], ended;

static void* body(void* p)
{
    int me = int(long(p));
    for (int seen = 0;;) {
        while (__atomic_load_n(&start[me], __ATOMIC_SEQ_CST) == seen) rt::futex_wait(&start[me], seen);
        seen = __atomic_load_n(&start[me], __ATOMIC_SEQ_CST);
        if (seen < 0) return nullptr;
        rt::wait_for(me);
        rt::self = me;
        auto s = go(*job[me].r, *job[me].l, *job[me].a);
        rt::self = -1;
        job[me].got = std::move(s);
        rt::alive[me] = false;
        rt::unblock();
        if (rt::alive[1 - me]) rt::hand_to(1 - me);
        else {
            rt::hand_to(-1);
            __atomic_store_n(&ended, 1, __ATOMIC_SEQ_CST);
            rt::futex_wake(&ended);
        }
    }
}
static pthread_t threads[2];
static void start_threads()
{
    for (int i = 0; i < 2; ++i) {
        start[i] = 0;
        constexpr std::size_t size = 4u << 20;
        auto m = static_cast<char*>(mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        rt::stack_lo[i] = rt::up(m);
        rt::stack_hi[i] = rt::up(m) + size;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, m, size);
        if (pthread_create(&threads[i], &at, body, reinterpret_cast<void*>(long(i)))) _exit(3);
    }
}
// runs both jobs, the given thread first, with preemptions at the given steps
static void execute(int first, const vector<unsigned>& at)
{
    static int round = 0;
    ++round;
    rt::switches = int(at.size());
    for (std::size_t i = 0; i < at.size(); ++i) rt::switch_at[i] = at[i];
    rt::next_switch = 0;
    rt::step = 0;
    rt::deadlock = false;
    rt::alive[0] = rt::alive[1] = true;
    rt::blocked[0] = rt::blocked[1] = false;
    rt::vc[0][0] = rt::vc[1][1] = 1;
    rt::vc[0][1] = rt::vc[1][0] = 0;
    __atomic_store_n(&ended, 0, __ATOMIC_SEQ_CST);
    __atomic_store_n(&rt::turn, -1, __ATOMIC_SEQ_CST);
    for (int i = 0; i < 2; ++i) {
        __atomic_store_n(&start[i], round, __ATOMIC_SEQ_CST);
        rt::futex_wake(&start[i]);
    }
    rt::hand_to(first);
    while (!__atomic_load_n(&ended, __ATOMIC_SEQ_CST)) rt::futex_wait(&ended, 0);
}

static int phdr(dl_phdr_info* i, std::size_t, void*)
{
    bool exe = !i->dlpi_name || !*i->dlpi_name;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        auto& h = i->dlpi_phdr[k];
        if (h.p_type != PT_LOAD) continue;
        rt::Range r{i->dlpi_addr + h.p_vaddr, i->dlpi_addr + h.p_vaddr + h.p_memsz};
        if (exe && (h.p_flags & PF_W)) continue;
        if (rt::foreign_n < 256) rt::foreign[rt::foreign_n++] = r;
    }
    return 0;
}

// runs f in a process in which nothing has been parsed yet; returns what it writes
static string pristine(const std::function<void(string&)>& f)
{
    int p[2];
    if (pipe(p)) _exit(3);
    auto pid = fork();
    if (!pid) {
        close(p[0]);
        string s;
        alarm(60);
        f(s);
        std::size_t n = 0;
        while (n < s.size()) {
            auto k = write(p[1], s.data() + n, s.size() - n);
            if (k <= 0) break;
            n += std::size_t(k);
        }
        _exit(0);
    }
    close(p[1]);
    string r;
    char b[65536];
    for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) r.append(b, std::size_t(k));
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    if (st) r = "DIED " + std::to_string(st);
    return r;
}

static void races(const Tree& t, const Line& a, const Line& b, bool warm)
{
    nat::at("races " + t.id + " [" + a.name + "] with [" + b.name + (warm ? "] (not the first)" : "]"));
    for (int first = 0; first < 2; ++first) {
        if (first && &a == &b) break;
        auto r = pristine([&](string& s) {
            auto tree = h::makers()[t.id](t.cfg);
            Args x(a), y(b);
            if (warm) {
                go(*tree, a, x);
                go(*tree, b, y);
            }
            rt::cells = static_cast<rt::Cell*>(mmap(nullptr, sizeof(rt::Cell) * rt::cells_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            start_threads();
            job[0] = {tree.get(), &a, &x, ""};
            job[1] = {tree.get(), &b, &y, ""};
            rt::recording = true;
            execute(first, {});
            rt::recording = false;
            std::ostringstream o;
            o << rt::accesses << ' ' << rt::sync_ops << ' ' << rt::full << '\n' << rt::report << '\n' << (job[0].got == a.alone && job[1].got == b.alone ? "" : job[0].got + " / " + job[1].got);
            s = o.str();
        });
        std::istringstream i(r);
        unsigned long acc = 0, syncs = 0, full = 0;
        if (r.substr(0, 4) == "DIED") {
            nat::bad("both parses end", r);
            return;
        }
        string l, rest;
        i >> acc >> syncs >> full;
        std::getline(i, l);
        std::getline(i, l);
        std::getline(i, rest, '\0');
        nat::step(acc);
        nat::state();
        if (full) nat::bad("the accesses fit the tables", "they do not");
        if (!l.empty()) nat::bad("no unsynchronised access to shared memory", l);
        if (!rest.empty()) nat::bad(a.alone + " / " + b.alone, rest);
        nat::sample(std::to_string(acc) + " accesses, " + std::to_string(syncs) + " synchronisations");
        nat::outcome("accesses " + std::to_string(acc));
    }
}

static void schedules(const Tree& t, const Line& a, const Line& b, unsigned bound)
{
    auto what = "schedules " + t.id + " [" + a.name + "] with [" + b.name + "]";
    nat::at(what);
    auto r = pristine([&](string& s) {
        alarm(0);
        auto tree = h::makers()[t.id](t.cfg);
        Args x(a), y(b);
        start_threads();
        job[0] = {tree.get(), &a, &x, ""};
        job[1] = {tree.get(), &b, &y, ""};
        unsigned long runs = 0;
        auto one = [&](int first, const vector<unsigned>& at) {
            execute(first, at);
            ++runs;
            nat::slot->transitions = nat::slot->transitions + rt::step;
            nat::slot->cases = nat::slot->cases + 1;
            if (s.empty() && (rt::deadlock || job[0].got != a.alone || job[1].got != b.alone)) {
                std::ostringstream o;
                o << "thread " << first << " first, preempted at";
                for (auto k : at) o << ' ' << k;
                o << (rt::deadlock ? " deadlock: " : ": ") << job[0].got << " / " << job[1].got;
                s = o.str();
            }
            return rt::step;
        };
        for (int first = 0; first < 2 && s.empty(); ++first) {
            auto n = one(first, {});
            for (unsigned i = 0; i < n && s.empty(); ++i) {
                if (bound < 1) break;
                auto m = one(first, {i});
                if (rt::next_switch == 0) break;  // past the first thread's points: nothing to preempt
                for (unsigned j = i + 1; j < m && bound > 1 && s.empty(); ++j) {
                    auto l = one(first, {i, j});
                    for (unsigned k = j + 1; k < l && bound > 2 && s.empty(); ++k) one(first, {i, j, k});
                }
            }
        }
        nat::slot->states = nat::slot->states + runs;
    });
    if (!r.empty()) nat::bad(a.alone + " / " + b.alone, r);
    nat::sample("as alone");
}

// b inside every router or conversion call of a
static void nested(const Tree& t, const Line& a, const Line& b, const Line* c)
{
    nat::at("nesting " + t.id + " [" + b.name + "] inside [" + a.name + "]" + (c ? " with [" + c->name + "] inside that" : ""));
    auto r = pristine([&](string& s) {
        auto tree = h::makers()[t.id](t.cfg);
        for (unsigned k = 0; k < a.hooks && s.empty(); ++k)
            for (unsigned k2 = 0; k2 < (c ? b.hooks : 1) && s.empty(); ++k2) {
                unsigned n = 0;
                string in, in2;
                std::function<void(int)> f, g;
                f = [&](int) {
                    if (n++ != k) return;
                    Args y(b);
                    unsigned m = 0;
                    g = [&](int) {
                        if (!c || m++ != k2) return;
                        Args z(*c);
                        rt::hook = nullptr;
                        in2 = go(*tree, *c, z);
                        rt::hook = &g;
                    };
                    rt::hook = &g;
                    in = go(*tree, b, y);
                    rt::hook = &f;
                };
                rt::hook = &f;
                Args x(a);
                auto out = go(*tree, a, x);
                rt::hook = nullptr;
                nat::slot->transitions = nat::slot->transitions + 1;
                nat::slot->states = nat::slot->states + 1;
                if (out != a.alone || in != b.alone || (c && in2 != c->alone))
                    s = "at call " + std::to_string(k) + ": " + out + " / " + in + (c ? " / " + in2 : "");
            }
    });
    if (!r.empty()) nat::bad(a.alone + " / " + b.alone, r);
    nat::sample("as alone");
}

#ifndef PREEMPT
#define PREEMPT 2
#endif

void explore()
{
    dl_iterate_phdr(phdr, nullptr);
    rt::syncs = static_cast<rt::Sync*>(mmap(nullptr, sizeof(rt::Sync) * rt::syncs_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    vector<Tree> trees;
    std::ifstream in(std::getenv("C29_PLAN"));
    for (string l; std::getline(in, l);) {
        std::istringstream s(l);
        string k, v;
        s >> k >> v;
        if (k == "tree") {
            trees.push_back({v, 0, {}});
            s >> trees.back().cfg;
        } else {
            Line x;
            x.base = k == "b";
            if (v.substr(0, 5) == "@HELP") x.help = v[5] - '0';
            else if (v != "@") {
                std::istringstream a(v);
                for (string t; std::getline(a, t, ',');) x.argv.push_back(dec(t));
            }
            x.name = v;
            trees.back().lines.push_back(std::move(x));
        }
    }
    std::uint64_t n = 0;
    for (auto& t : trees) {
        // what each gives alone, in a process of its own
        for (auto& l : t.lines) {
            auto r = pristine([&](string& s) {
                auto tree = h::makers()[t.id](t.cfg);
                unsigned hooks = 0;
                std::function<void(int)> f = [&](int) { ++hooks; };
                rt::hook = &f;
                Args x(l);
                s = go(*tree, l, x);
                rt::hook = nullptr;
                s = std::to_string(hooks) + " " + s;
            });
            l.hooks = unsigned(std::atoi(r.c_str()));
            l.alone = r.substr(r.find(' ') + 1);
            if (r.substr(0, 4) == "DIED") {
                nat::at(t.id + " " + l.name + " alone");
                nat::bad("the parse ends", r);
                return;
            }
        }
        vector<const Line*> base;
        for (auto& l : t.lines)
            if (l.base) base.push_back(&l);
        for (std::size_t i = 0; i < t.lines.size(); ++i) {
            if (!nat::mine(n++)) continue;
            races(t, t.lines[i], t.lines[i], false);
            races(t, t.lines[i], t.lines[(i + 7) % t.lines.size()], false);
            races(t, t.lines[i], t.lines[i], true);
        }
        for (auto a : base)
            for (auto b : base) {
                if (nat::mine(n++)) {
                    races(t, *a, *b, true);
                    races(t, *a, *b, false);
                }
                if (a <= b && nat::mine(n++)) schedules(t, *a, *b, PREEMPT);
            }
        for (auto& a : t.lines)
            for (auto& b : t.lines) {
                if (!a.hooks || !nat::mine(n++)) continue;
                nested(t, a, b, nullptr);
            }
        for (auto a : base)
            for (auto b : base)
                for (auto c : base)
                    if (a->hooks && b->hooks && nat::mine(n++)) nested(t, *a, *b, c);
    }
}
