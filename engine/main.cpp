// Explorer.  Reads a plan, enumerates every command line of it, runs each on the real tree and
// compares with the reference model (or with another command line, or with a given outcome).
#include "model.hpp"

#include <fcntl.h>
#include <poll.h>
#include <pty.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <unordered_set>

namespace h
{
struct Out {
    std::string text;
    unsigned calls = 0;
};
thread_local Out* out = nullptr;
thread_local std::function<void()>* in_router = nullptr;
struct Runner {
    virtual ~Runner() = default;
    virtual void parse(std::vector<char*>& argv, int entry) const = 0;
    virtual std::string help(int entry) const = 0;
    virtual std::unique_ptr<Runner> clone() const = 0;
    virtual std::unique_ptr<Runner> take() = 0;
};
using Maker = std::unique_ptr<Runner> (*)(unsigned);
static std::map<std::string, Maker>& makers()
{
    static std::map<std::string, Maker> m;
    return m;
}
void reg(const char* id, Maker m) { makers()[id] = m; }
}  // namespace h

// defined where the library's headers are visible: runs f, returns the text of a parse_exception,
// rethrows anything else
std::optional<std::string> guarded(const std::function<void()>& f);

using std::string;
using std::vector;
using Argv = vector<string>;

static string dec(const string& s)
{
    if (s == "%") return "";
    string r;
    for (std::size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%') {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else r += s[i];
    return r;
}
static string enc(const string& s)
{
    if (s.empty()) return "%";
    string r;
    for (unsigned char c : s)
        if (std::isalnum(c) || std::strchr("-_.:", c)) r += static_cast<char>(c);
        else {
            char b[4];
            std::snprintf(b, sizeof b, "%%%02X", c);
            r += b;
        }
    return r;
}
static string enc(const Argv& a)
{
    string r;
    for (auto& s : a) r += (r.empty() ? "" : ",") + enc(s);
    return r.empty() ? "@" : r;
}
static Argv dec_argv(const string& s)
{
    Argv r;
    if (s == "@") return r;
    std::stringstream ss(s);
    string t;
    while (std::getline(ss, t, ',')) r.push_back(dec(t));
    return r;
}

struct TreeDef {
    m::Node root;
    std::map<int, string> msgs;
};
static std::map<string, std::unique_ptr<TreeDef>> trees;

static m::Node parse_node(std::stringstream& ss)
{
    static const std::map<string, m::K> kinds{
        {"mode", m::K::mode}, {"flag", m::K::flag}, {"count", m::K::count}, {"arg", m::K::arg},
        {"marg", m::K::marg}, {"pos", m::K::pos}, {"fwd", m::K::fwd}, {"oneof", m::K::oneof},
        {"agroup", m::K::agroup}, {"help", m::K::help}};
    string k;
    ss >> k;
    m::Node n;
    n.k = kinds.at(k);
    string f;
    while (ss >> f) {
        auto e = f.find('=');
        auto key = f.substr(0, e), v = dec(f.substr(e + 1));
        if (key == "id") n.id = v;
        else if (key == "lng") n.lng = v;
        else if (key == "sht") n.sht = v;
        else if (key == "none") n.none = v, n.has_none = true;
        else if (key == "disp") n.disp = v, n.has_disp = true;
        else if (key == "err") n.err = v, n.has_err = true;
        else if (key == "desc") n.desc = v;
        else if (key == "sep") n.sep = v;
        else if (key == "endm") n.endm = v;
        else if (key == "pname") n.pname = v;
        else if (key == "pver") n.pver = v;
        else if (key == "pintro") n.pintro = v;
        else if (key == "padd") n.padd = v;
        else if (key == "type") n.type = v;
        else if (key == "minc") n.minc = std::stoull(v);
        else if (key == "maxc") n.maxc = std::stoull(v);
        else if (key == "required") n.required = true;
        else if (key == "def") n.def = v;
        else if (key == "minv") n.minv = v;
        else if (key == "maxv") n.maxv = v;
        else if (key == "cmp") n.cmp = v;
        else if (key == "ct") n.ct_bounds = true;
        else if (key == "ub") n.unsigned_bounds = true;
        else if (key == "alias") n.alias.push_back(v);
        else if (key == "dep") n.dep.push_back(v);
        else if (key == "en") n.en = std::stoi(v);
        else if (key == "en_req") n.en_req = true;
        else if (key == "en_def") n.en_def = v;
        else if (key == "custom") n.custom = true;
        else if (key == "flatten") n.flatten = true;
        else if (key == "indent") n.indent = std::stoul(v);
        else if (key == "off") n.offset = std::stoul(v);
        else {
            std::cerr << "bad key " << key << "\n";
            std::exit(2);
        }
    }
    return n;
}

struct Item {
    string kind, tree;
    unsigned cfg = 0;
    std::size_t cols = 0;
    int minlen = 0, maxlen = 0;
    bool distinct = false;
    vector<Argv> alphabet;
    Argv prefix, suffix;
    string stem;
    struct Line {
        Argv a, b;
        string expect;
        bool has_expect = false, rel = false;
    };
    vector<Line> lines;
    vector<int> entry{0};
    string mode = "model";  // model | total | class
};
static vector<Item> items;

static void read_plan(const char* path)
{
    std::ifstream in(path);
    string line;
    TreeDef* cur = nullptr;
    vector<m::Node*> stack;
    Item* it = nullptr;
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        string w;
        if (!(ss >> w)) continue;
        if (w == "prefixes") {
            string a, b;
            ss >> a >> b;
            m::pfx = {dec(a), dec(b)};
        } else if (w == "tree") {
            string id;
            ss >> id;
            trees[id] = std::make_unique<TreeDef>();
            cur = trees[id].get();
        } else if (w == "n") {
            std::size_t d;
            ss >> d;
            auto n = parse_node(ss);
            // walk to the parent: last child at each depth
            auto p = &cur->root;
            for (std::size_t i = 1; i < d; ++i) p = &p->ch.back();
            p->ch.push_back(n);
        } else if (w == "msg") {
            int c;
            string t;
            ss >> c >> t;
            cur->msgs[c] = dec(t);
        } else if (w == "end") {
            m::finalise(cur->root);
        } else if (w == "item") {
            items.emplace_back();
            it = &items.back();
            ss >> it->kind >> it->tree >> it->cfg >> it->cols;
            string f;
            while (ss >> f) {
                auto e = f.find('=');
                auto key = f.substr(0, e), v = f.substr(e + 1);
                if (key == "len") {
                    auto d = v.find("..");
                    it->minlen = std::stoi(v.substr(0, d));
                    it->maxlen = std::stoi(v.substr(d + 2));
                } else if (key == "distinct") it->distinct = v == "1";
                else if (key == "prefix") it->prefix = dec_argv(v);
                else if (key == "suffix") it->suffix = dec_argv(v);
                else if (key == "stem") it->stem = dec(v);
                else if (key == "mode") it->mode = v;
                else if (key == "entry") {
                    it->entry.clear();
                    for (char c : v) it->entry.push_back(c - '0');
                }
            }
        } else if (w == "a") {
            string v;
            ss >> v;
            it->alphabet.push_back(dec_argv(v));
        } else if (w == "l") {
            Item::Line l;
            string v, op, x;
            ss >> v;
            l.a = dec_argv(v);
            if (ss >> op >> x) {
                if (op == "=") l.expect = dec(x), l.has_expect = true;
                else l.b = dec_argv(x), l.rel = true;
            }
            it->lines.push_back(l);
        }
    }
}

// -------------------------------------------------------------------------------------------------

struct Slot {
    unsigned long long tick;
    std::size_t len;
    char text[1 << 16];
};

static std::uint64_t fnv(const string& s, std::uint64_t x = 1469598103934665603ull)
{
    for (unsigned char c : s) x = (x ^ c) * 1099511628211ull;
    return x ^ (x >> 29);
}

struct Context {
    std::unordered_set<std::uint64_t> states, outcomes;
    unsigned long long traces = 0, transitions = 0, helps = 0;
    vector<string> samples;
    FILE* res = nullptr;
    Slot* slot = nullptr;
    int mismatches = 0;
};
static Context cx;
static int pty_master = -1, pty_slave = -1;

static void set_columns(std::size_t cols)
{
    static std::size_t now = static_cast<std::size_t>(-2);
    if (cols == now) return;
    now = cols;
    if (cols == 0) {
        int fd = open("/dev/null", O_RDONLY);
        dup2(fd, 0);
        close(fd);
        return;
    }
    if (pty_master < 0) {
        if (openpty(&pty_master, &pty_slave, nullptr, nullptr, nullptr) != 0) {
            std::perror("openpty");
            _exit(3);
        }
    }
    struct winsize ws {};
    ws.ws_col = static_cast<unsigned short>(cols);
    ws.ws_row = 24;
    if (ioctl(pty_slave, TIOCSWINSZ, &ws) != 0) {
        std::perror("TIOCSWINSZ");
        _exit(3);
    }
    dup2(pty_slave, 0);
}

static string outcome_of(const std::function<void()>& f)
{
    h::Out o;
    h::out = &o;
    string r;
    try {
        auto e = guarded(f);
        if (e) r = (o.calls ? "CALLED+" : "") + string(e->empty() ? "E!" : "E:") + *e;
        else r = o.calls == 1 ? o.text : o.calls == 0 ? "NOTHING" : "MULTIPLE:" + o.text;
    } catch (const std::exception& e) {
        r = string("X:") + e.what();
    } catch (...) {
        r = "X:unknown exception";
    }
    h::out = nullptr;
    return r;
}

// In a history the tokens of every command line lie at the same addresses, as in a program that reads its lines into
// one buffer: nothing may be remembered by the address of a token
static string run(const h::Runner& r, const Argv& argv, int entry, bool reuse = false)
{
    static char slot[32][64];
    // otherwise every token in its own heap block, so that an overrun is visible to a memory checker
    vector<std::unique_ptr<char[]>> store;
    vector<char*> p;
    auto put = [&](const string& s) {
        if (reuse && p.size() < 32 && s.size() < 64) {
            std::memset(slot[p.size()], 0, 64);
            std::memcpy(slot[p.size()], s.c_str(), s.size());
            p.push_back(slot[p.size()]);
            return;
        }
        store.emplace_back(new char[s.size() + 1]);
        std::memcpy(store.back().get(), s.c_str(), s.size() + 1);
        p.push_back(store.back().get());
    };
    put("prog");
    for (auto& a : argv) put(a);
    p.push_back(nullptr);
    auto before = p;
    auto o = outcome_of([&] { r.parse(p, entry); });
    // the caller's tokens are untouched
    auto same = p == before && !std::strcmp(p[0], "prog");
    for (std::size_t i = 0; same && i < argv.size(); ++i) same = !std::memcmp(p[i + 1], argv[i].c_str(), argv[i].size() + 1);
    return same ? o : "X:caller's tokens modified, " + o;
}

static string fresh(const string& tree, unsigned cfg, const Argv& argv, int entry)
{
    auto it = h::makers().find(tree);
    if (it == h::makers().end()) {
        std::cerr << "no tree " << tree << "\n";
        _exit(4);
    }
    return run(*it->second(cfg), argv, entry);
}

static m::World world(const Item& it)
{
    m::World w;
    w.cfg = it.cfg;
    w.columns = it.cols;
    auto& msgs = trees.at(it.tree)->msgs;
    if (!msgs.empty())
        w.translate = [&msgs](const m::Err& e) {
            auto f = msgs.find(e.code);
            return m::format_message(f == msgs.end() ? m::default_message(e.code) : f->second, e.toks);
        };
    return w;
}

static void report(std::size_t item, const Item& it, const string& what, const string& expected, const string& got,
                   int entry)
{
    ++cx.mismatches;
    std::fprintf(cx.res, "BAD %zu %s %u %zu %d %s %s %s\n", item, it.tree.c_str(), it.cfg, it.cols, entry,
                 what.c_str(), enc(expected).c_str(), enc(got).c_str());
    std::fflush(cx.res);
}

static void note(std::size_t item, const Item& it, const string& what, int entry)
{
    auto& s = *cx.slot;
    auto t = std::to_string(item) + " " + it.tree + " " + std::to_string(it.cfg) + " " + std::to_string(it.cols) +
             " " + std::to_string(entry) + " " + what;
    if (t.size() >= sizeof s.text) t.resize(sizeof s.text - 1);
    s.len = t.size();
    std::memcpy(s.text, t.data(), t.size());
    __atomic_add_fetch(&s.tick, 1, __ATOMIC_SEQ_CST);
}

static string classify(const Item& it, const string& o)
{
    if (o.compare(0, 2, "E!") == 0) return "E:" + o.substr(2);  // the message asked for is empty
    if (o.compare(0, 2, "E:") != 0) return o;
    if (it.mode == "class") return "rejected";
    if (it.mode == "kind") return o.substr(0, o.find(':', 2));
    return o;
}

static void count(const Item& it, const string& key, const string& got)
{
    ++cx.traces;
    if (cx.states.size() < (4u << 20)) cx.states.insert(fnv(it.tree + "\1" + std::to_string(it.cfg) + "\1" + std::to_string(it.cols) + "\1" + key));
    cx.outcomes.insert(fnv(it.tree + "\1" + got));
    if (cx.samples.size() < 400 && (cx.traces < 20 || cx.traces % 997 == 0))
        cx.samples.push_back(it.tree + "/" + std::to_string(it.cfg) + " " + key + " => " + enc(got.substr(0, 120)));
}

static bool well_formed_total(const string& got)
{
    return got.compare(0, 2, "E:") == 0 || (got.compare(0, 2, "X:") != 0 && got != "NOTHING" &&
                                            got.compare(0, 9, "MULTIPLE:") != 0 &&
                                            got.compare(0, 7, "CALLED+") != 0 && got.compare(0, 2, "E!") != 0);
}

static string expected_for(const Item& it, const Argv& argv)
{
    return m::predict(trees.at(it.tree)->root, world(it), argv);
}

// one command line, all requested entry points
static void one(std::size_t idx, const Item& it, const Argv& argv)
{
    auto key = enc(argv);
    for (auto entry : it.entry) {
        note(idx, it, key, entry);
        auto got = fresh(it.tree, it.cfg, argv, entry);
        count(it, key, got);
        if (it.mode == "total") {
            if (!well_formed_total(got)) report(idx, it, key, "one router call or one parse error", got, entry);
            continue;
        }
        auto want = expected_for(it, argv);
        if (classify(it, got) != classify(it, want)) report(idx, it, key, want, got, entry);
    }
}

// A history of events on one tree instance and its copies.  An event is a command line, or starts with a
// control token: \1h prints help, \1c copies the tree and continues on the copy, \1m moves it, \1s switches to
// the next instance, \1n<cfg> makes a new tree of the same
// type with other run-time switches, \1e<n> supplies the rest of the event through entry point n.
static void run_history(const Item& it, const vector<const Argv*>& seq, string& gots, string& wants)
{
    vector<std::unique_ptr<h::Runner>> all;
    vector<Item> its{it};  // one description per instance: they differ in the switches
    its[0].lines.clear();
    its[0].alphabet.clear();
    all.push_back(h::makers().at(it.tree)(it.cfg));
    std::size_t cur = 0, n = 0;
    for (auto ev : seq) {
        string got, want;
        auto ctl = !ev->empty() && (*ev)[0].size() >= 2 && (*ev)[0][0] == '\1' ? (*ev)[0][1] : '\0';
        if (ctl == 'h') {
            auto e = static_cast<int>(n++ % 2);
            try {
                auto err = guarded([&] { got = all[cur]->help(e); });
                if (err) got = "E:" + *err;
            } catch (...) {
                got = "X:help";
            }
            want = m::predict_help(trees.at(it.tree)->root, world(its[cur]));
        } else if (ctl == 'c') {
            all.push_back(all[cur]->clone());
            its.push_back(Item{its[cur]});
            cur = all.size() - 1;
        } else if (ctl == 'm') {
            auto t = all[cur]->take();
            all[cur] = std::move(t);
        } else if (ctl == 'n') {
            its.push_back(Item{its[cur]});
            its.back().cfg = static_cast<unsigned>((*ev)[0][2] - '0');
            all.push_back(h::makers().at(it.tree)(its.back().cfg));
            cur = all.size() - 1;
        } else if (ctl == 's') {
            cur = (cur + 1) % all.size();
        } else {
            auto argv = *ev;
            auto entry = it.entry[n++ % it.entry.size()];
            if (ctl == 'e') {
                entry = argv[0][2] - '0';
                argv.erase(argv.begin());
            }
            got = run(*all[cur], argv, entry, true);
            want = expected_for(its[cur], argv);
        }
        gots += (gots.empty() ? "" : " ; ") + got;
        wants += (wants.empty() ? "" : " ; ") + want;
    }
}

static void history(std::size_t idx, const Item& it, const vector<const Argv*>& seq)
{
    string key;
    for (auto a : seq) key += (key.empty() ? "" : ";") + enc(*a);
    if (key.empty()) return;
    note(idx, it, key, it.entry[0]);
    string wants, gots;
    run_history(it, seq, gots, wants);
    count(it, key, gots);
    if (gots != wants) report(idx, it, key, wants, gots, it.entry[0]);
}

static bool enough() { return cx.mismatches >= 20; }

static void do_item(std::size_t idx, unsigned w, unsigned W)
{
    auto& it = items[idx];
    set_columns(it.cols);
    if (it.kind == "seq" || it.kind == "hist" || it.kind == "cat") {
        vector<std::size_t> pick;
        vector<bool> used(it.alphabet.size());
        unsigned long long n = 0;
        std::function<void()> go = [&] {
            if (enough()) return;
            if (static_cast<int>(pick.size()) >= it.minlen && n++ % W == w) {
                if (!pick.empty()) ++cx.transitions;
                if (it.kind == "hist") {
                    vector<const Argv*> seq;
                    for (auto p : pick) seq.push_back(&it.alphabet[p]);
                    history(idx, it, seq);
                } else {
                    Argv argv = it.prefix;
                    if (it.kind == "cat") {
                        // one token, made of fragments
                        string t = it.stem;
                        for (auto p : pick) t += it.alphabet[p].empty() ? "" : it.alphabet[p][0];
                        argv.push_back(t);
                    } else for (auto p : pick) argv.insert(argv.end(), it.alphabet[p].begin(), it.alphabet[p].end());
                    argv.insert(argv.end(), it.suffix.begin(), it.suffix.end());
                    one(idx, it, argv);
                }
            }
            if (static_cast<int>(pick.size()) == it.maxlen) return;
            for (std::size_t i = 0; i < it.alphabet.size(); ++i) {
                if (it.distinct && used[i]) continue;
                used[i] = true;
                pick.push_back(i);
                go();
                pick.pop_back();
                used[i] = false;
            }
        };
        go();
    } else if (it.kind == "list") {
        for (std::size_t i = w; i < it.lines.size(); i += W) {
            if (enough()) return;
            auto& l = it.lines[i];
            if (!l.has_expect && !l.rel) {
                one(idx, it, l.a);
                continue;
            }
            auto key = enc(l.a);
            for (auto entry : it.entry) {
                note(idx, it, key, entry);
                auto got = fresh(it.tree, it.cfg, l.a, entry);
                count(it, key, got);
                string want;
                if (l.rel) {
                    note(idx, it, enc(l.b), entry);
                    want = fresh(it.tree, it.cfg, l.b, entry);
                    count(it, enc(l.b), want);
                    ++cx.transitions;
                    key += "~" + enc(l.b);
                } else want = l.expect;
                if (classify(it, got) != classify(it, want))
                    report(idx, it, key, want, got, entry);
            }
        }
    } else if (it.kind == "help") {
        if (idx % W != w) return;
        for (int e = 0; e < 2; ++e) {
            note(idx, it, "HELP", e);
            string got;
            auto err = guarded([&] { got = h::makers().at(it.tree)(it.cfg)->help(e); });
            if (err) got = "E:" + *err;
            ++cx.helps;
            count(it, "HELP", got);
            auto want = m::predict_help(trees.at(it.tree)->root, world(it));
            if (got != want) report(idx, it, "HELP", want, got, e);
        }
    } else {
        std::cerr << "bad item kind " << it.kind << "\n";
        _exit(2);
    }
}

static void worker(unsigned w, unsigned W, const string& dir, Slot* slot)
{
    cx.slot = slot;
    cx.res = std::fopen((dir + "/w" + std::to_string(w)).c_str(), "w");
    for (std::size_t i = 0; i < items.size(); ++i) {
        do_item(i, w, W);
        if (enough()) break;
    }
    std::fprintf(cx.res, "STAT %llu %llu %llu\n", cx.traces, cx.transitions, cx.helps);
    for (auto& s : cx.samples) std::fprintf(cx.res, "SAMPLE %s\n", s.c_str());
    std::fclose(cx.res);
    auto dump = [&](const char* n, auto& set) {
        auto f = std::fopen((dir + "/" + n + std::to_string(w)).c_str(), "wb");
        vector<std::uint64_t> v(set.begin(), set.end());
        std::fwrite(v.data(), 8, v.size(), f);
        std::fclose(f);
    };
    dump("s", cx.states);
    dump("o", cx.outcomes);
    _exit(0);
}

// replay: tree cfg cols entry what  -> prints the outcome and the prediction
static int replay(char** a)
{
    Item it;
    it.tree = a[0];
    it.cfg = static_cast<unsigned>(std::stoul(a[1]));
    it.cols = std::stoul(a[2]);
    int entry = std::stoi(a[3]);
    string what = a[4];
    set_columns(it.cols);
    string got, want;
    if (what == "HELP") {
        auto err = guarded([&] { got = h::makers().at(it.tree)(it.cfg)->help(entry); });
        if (err) got = "E:" + *err;
        want = m::predict_help(trees.at(it.tree)->root, world(it));
    } else if (what.find(';') != string::npos || what.compare(0, 3, "%01") == 0) {
        std::stringstream ss(what);
        string t;
        vector<Argv> evs;
        while (std::getline(ss, t, ';')) evs.push_back(dec_argv(t));
        vector<const Argv*> seq;
        for (auto& e : evs) seq.push_back(&e);
        it.entry = {entry};
        run_history(it, seq, got, want);
    } else if (auto t = what.find('~'); t != string::npos) {
        got = fresh(it.tree, it.cfg, dec_argv(what.substr(0, t)), entry);
        want = fresh(it.tree, it.cfg, dec_argv(what.substr(t + 1)), entry);
    } else {
        auto argv = dec_argv(what);
        got = fresh(it.tree, it.cfg, argv, entry);
        want = trees.count(it.tree) ? expected_for(it, argv) : "";
    }
    std::printf("GOT %s\nWANT %s\n", enc(got).c_str(), enc(want).c_str());
    return 0;
}

int main(int argc, char** argv)
{
    if (argc >= 8 && string(argv[1]) == "replay") {
        read_plan(argv[2]);
        return replay(argv + 3);
    }
    if (argc < 4) return 2;
    read_plan(argv[1]);
    string dir = argv[2];
    unsigned W = static_cast<unsigned>(std::stoul(argv[3]));
    auto slots = static_cast<Slot*>(
        mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    vector<pid_t> pids(W);
    for (unsigned w = 0; w < W; ++w) {
        pids[w] = fork();
        if (pids[w] == 0) worker(w, W, dir, &slots[w]);
    }
    vector<unsigned long long> last(W, 0);
    using clk = std::chrono::steady_clock;
    vector<clk::time_point> since(W, clk::now());
    unsigned alive = W;
    int limit = argc > 4 ? std::stoi(argv[4]) : 30;
    while (alive) {
        for (unsigned w = 0; w < W; ++w) {
            if (!pids[w]) continue;
            int st;
            if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
                pids[w] = 0;
                --alive;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                    std::printf("DEAD %d %s\n", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st),
                                string(slots[w].text, slots[w].len).c_str());
                continue;
            }
            auto t = __atomic_load_n(&slots[w].tick, __ATOMIC_SEQ_CST);
            if (t != last[w]) last[w] = t, since[w] = clk::now();
            else if (t && clk::now() - since[w] > std::chrono::seconds(limit)) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &st, 0);
                pids[w] = 0;
                --alive;
                std::printf("HANG 0 %s\n", string(slots[w].text, slots[w].len).c_str());
            }
        }
        usleep(5000);
    }
    auto uniq = [&](const char* n) {
        vector<std::uint64_t> all;
        for (unsigned w = 0; w < W; ++w) {
            std::ifstream f(dir + "/" + n + std::to_string(w), std::ios::binary);
            std::uint64_t v;
            while (f.read(reinterpret_cast<char*>(&v), 8)) all.push_back(v);
        }
        std::sort(all.begin(), all.end());
        return static_cast<std::size_t>(std::unique(all.begin(), all.end()) - all.begin());
    };
    auto s = uniq("s"), o = uniq("o");
    std::printf("UNIQ %zu %zu\n", s, o);
    return 0;
}
