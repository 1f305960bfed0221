// Runs an exhaustive enumeration in several processes: a crash, hang or violation in one is reported
// with the case it was at.  The including program defines explore().
#pragma once

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace nat
{
struct Slot {
    volatile std::uint64_t cases, transitions, states, beat;
    volatile std::uint64_t done;
    char at[2048];
};
inline Slot* slot = nullptr;
inline FILE* out = nullptr;
inline unsigned worker = 0, workers = 1;
inline std::unordered_set<std::string> outcomes;
inline unsigned bads = 0;
inline std::uint64_t next_sample = 1;

inline std::string esc(std::string_view s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s)
        if (c < 32 || c > 126 || c == '\\') {
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else
            r += char(c);
    return r;
}
// Names the case being run
inline void at(std::string_view s)
{
    auto n = std::min(s.size(), sizeof slot->at - 1);
    std::memcpy(slot->at, s.data(), n);
    slot->at[n] = 0;
    slot->cases = slot->cases + 1;
}
inline void state(std::uint64_t n = 1) { slot->states = slot->states + n; }
inline void step(std::uint64_t n = 1) { slot->transitions = slot->transitions + n; }
inline void outcome(const std::string& s)
{
    if (outcomes.size() < 100000) outcomes.insert(s);
}
// Keeps a few cases, ever more thinly spaced
inline void sample(const std::string& what)
{
    if (slot->cases >= next_sample) {
        next_sample = slot->cases * 4 + 1;
        std::fprintf(out, "SAMPLE %s: %s\n", esc(slot->at).c_str(), esc(what).c_str());
    }
}
inline void bad(const std::string& want, const std::string& got)
{
    if (++bads <= 20) {
        std::fprintf(out, "BAD %s\t%s\t%s\n", esc(slot->at).c_str(), esc(want).c_str(), esc(got).c_str());
        std::fflush(out);
    }
}
template <class A, class B>
bool same(const A& want, const B& got, const char* what)
{
    if (want == got) return true;
    if constexpr (std::is_arithmetic_v<A>)
        bad(std::string(what) + " " + std::to_string(want), std::to_string(got));
    else
        bad(std::string(what) + " " + std::string(want), std::string(got));
    return false;
}
inline bool mine(std::uint64_t i) { return i % workers == worker; }
}  // namespace nat

void explore();

int main(int argc, char** argv)
{
    using namespace nat;
    std::string dir = argv[1];
    workers = unsigned(std::atoi(argv[2]));
    unsigned limit = unsigned(std::atoi(argv[3]));
    auto* slots = static_cast<Slot*>(
        mmap(nullptr, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids;
    for (unsigned w = 0; w < workers; ++w) {
        auto p = fork();
        if (!p) {
            worker = w;
            slot = slots + w;
            out = std::fopen((dir + "/w" + std::to_string(w)).c_str(), "w");
            explore();
            std::fprintf(out, "OUTCOMES %zu\n", outcomes.size());
            for (auto& o : outcomes) std::fprintf(out, "OUT %s\n", esc(o).substr(0, 300).c_str());
            std::fclose(out);
            slot->done = 1;
            _exit(0);
        }
        pids.push_back(p);
    }
    // A worker that stays at one case for too long hangs there
    std::vector<std::uint64_t> last(workers, 0);
    std::vector<unsigned> still(workers, 0);
    unsigned alive = workers;
    while (alive) {
        timespec ts{0, 50000000};
        nanosleep(&ts, nullptr);
        for (unsigned w = 0; w < workers; ++w) {
            if (!pids[w]) continue;
            int st;
            if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
                pids[w] = 0;
                --alive;
                if (!slots[w].done) std::printf("DEAD %d\t%s\n", st, esc(slots[w].at).c_str());
                continue;
            }
            if (slots[w].cases != last[w] || slots[w].transitions != slots[w].beat) {
                last[w] = slots[w].cases;
                slots[w].beat = slots[w].transitions;
                still[w] = 0;
            } else if (++still[w] > limit * 20) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &st, 0);
                pids[w] = 0;
                --alive;
                std::printf("HANG 0\t%s\n", esc(slots[w].at).c_str());
            }
        }
    }
    for (unsigned w = 0; w < workers; ++w)
        std::printf("STAT %llu %llu %llu\n", (unsigned long long)slots[w].cases, (unsigned long long)slots[w].transitions,
                    (unsigned long long)slots[w].states);
    return 0;
}
