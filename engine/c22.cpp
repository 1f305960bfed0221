// Every history of edits of a dynamic_token_adapter up to a depth, against a list with a boundary.
#include <arg_router/parsing/dynamic_token_adapter.hpp>
#include <memory>
#include "native.hpp"

namespace parsing = arg_router::parsing;
using parsing::dynamic_token_adapter;
using parsing::token_type;
using tokens_t = arg_router::vector<token_type>;

#ifndef DEPTH
#define DEPTH 4
#endif
#ifndef START
#define START 2
#endif

// The specification: one sequence, the first `boundary` elements of which are processed
struct Model {
    std::vector<token_type> seq;
    std::size_t boundary;
    void reach(std::size_t n)  // elements before n are processed
    {
        boundary = std::max(boundary, std::min(n, seq.size()));
    }
};
struct Real {
    tokens_t p, u;
    dynamic_token_adapter a;
    Real(const tokens_t& p0, const tokens_t& u0) : p{p0}, u{u0}, a{p, u} {}
    // the copy edits its own lists
    Real(const Real& o) : p{o.p}, u{o.u}, a{p, u} {}
};

// distinct values, prefixes too, each in its own heap block
static std::vector<std::unique_ptr<char[]>> texts;
static token_type value(std::size_t i)
{
    while (texts.size() <= i) {
        auto n = texts.size();
        auto s = std::make_unique<char[]>(3);
        s[0] = char('a' + n % 26), s[1] = char('a' + n / 26 % 26), s[2] = char('0' + n / 676);
        texts.push_back(std::move(s));
    }
    return token_type{parsing::prefix_type(i % 3), std::string_view{texts[i].get(), 3}};
}
static std::string show(const std::vector<token_type>& v, std::size_t boundary)
{
    std::string r;
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (i == boundary) r += "|";
        r += std::to_string(int(v[i].prefix)) + std::string(v[i].name) + " ";
    }
    return boundary >= v.size() ? r + "|" : r;
}
static std::string path;
static unsigned top, firsts;  // histories are divided among the workers by their first edit

static void expect(bool b, const Model& m, const char* what)
{
    if (!b) nat::bad(show(m.seq, m.boundary), what);
}

static void compare(const Model& m, Real& r)
{
    // the lists themselves
    std::vector<token_type> got(r.p.begin(), r.p.end());
    got.insert(got.end(), r.u.begin(), r.u.end());
    if (got != m.seq || r.p.size() != m.boundary) {
        nat::bad(show(m.seq, m.boundary), show(got, r.p.size()));
        return;
    }
    auto& a = r.a;
    const auto n = std::ptrdiff_t(m.seq.size());
    expect(&a.processed() == &r.p && &a.unprocessed() == &r.u, m, "other containers");
    expect(a.size() == m.seq.size() && a.empty() == m.seq.empty(), m, "size or empty differ");
    expect(a == dynamic_token_adapter(r.p, r.u) && !(a != dynamic_token_adapter(r.p, r.u)), m, "unequal adapters");
    // iteration
    std::ptrdiff_t k = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++k)
        if (k >= n || !(*it == m.seq[k]) || it->name.data() != m.seq[k].name.data()) return nat::bad(show(m.seq, m.boundary), "pre-increment iteration differs at " + std::to_string(k));
    expect(k == n, m, "iteration has a different length");
    k = 0;
    for (auto it = a.begin(); it != a.end(); ++k) {
        auto old = it++;
        if (k >= n || !(*old == m.seq[k]) || old == it) return nat::bad(show(m.seq, m.boundary), "post-increment iteration differs at " + std::to_string(k));
    }
    expect(k == n, m, "iteration has a different length");
    for (const auto& x : a) {
        (void)x;
        --k;
    }
    expect(k == 0, m, "range for has a different length");
    // random access and comparison
    for (std::ptrdiff_t i = 0; i <= n; ++i) {
        auto it = a.begin() + i;
        expect((it == a.end()) == (i == n) && (it != a.end()) == (i != n) && (a.end() == it) == (i == n), m, "comparison with end differs");
        if (i < n) expect(a.begin()[i] == m.seq[i] && *(i + a.begin()) == m.seq[i], m, "indexing differs");
        for (std::ptrdiff_t j = 0; j <= n; ++j) {
            auto jt = a.begin();
            jt += j;
            expect((it == jt) == (i == j) && (it != jt) == (i != j) && (it < jt) == (i < j) && (it > jt) == (i > j) && (it <= jt) == (i <= j) && (it >= jt) == (i >= j), m, "iterator comparison differs");
            if (j < n) {
                auto x = it, y = it;
                x += j - i, y -= i - j;
                expect(*x == m.seq[j] && *y == m.seq[j] && it[j - i] == m.seq[j] && *(it - (i - j)) == m.seq[j] && *((j - i) + it) == m.seq[j], m, "iterator arithmetic differs");
            }
            if (i >= j && i - j < n) expect(*(it - jt) == m.seq[i - j], m, "iterator difference differs");
        }
        if (i) {
            auto b = it, c = it;
            auto d = b--;
            --c;
            expect(*b == m.seq[i - 1] && b == c && d == it, m, "decrement differs");
        }
    }
}

static void go(const Model& m, Real& r, unsigned depth);

template <class M, class R>
static void child(const Model& m, Real& r, unsigned depth, const std::string& name, M model, R real)
{
    if (depth == top && !nat::mine(firsts++)) return;
    auto keep = path.size();
    path += name;
    nat::at(path);
    nat::step();
    Model m2 = m;
    auto r2 = std::make_unique<Real>(r);
    model(m2);
    real(*r2, m2);
    auto before = nat::bads;
    compare(m2, *r2);
    nat::outcome(std::to_string(m2.boundary) + "/" + std::to_string(m2.seq.size()) + name);
    if (depth > 1 && nat::bads == before) go(m2, *r2, depth - 1);
    path.resize(keep);
}

static void go(const Model& m, Real& r, unsigned depth)
{
    nat::state();
    const auto n = std::ptrdiff_t(m.seq.size());
    const auto fresh = 200 + depth * 8;
    // an iterator to element i from before any edits made, from begin, or from counting
    for (std::ptrdiff_t i = 0; i <= n; ++i) {
        const auto at = "@" + std::to_string(i) + " ";
        if (i < n) {
            child(m, r, depth, "set" + at, [&](Model& x) { x.reach(i + 1), x.seq[i] = value(fresh); },
                  [&](Real& x, Model& y) {
                      auto it = x.a.begin() + i;
                      it.set(value(fresh));
                      expect(*it == y.seq[i], y, "the iterator set does not show the value");
                  });
        }
        child(m, r, depth, "transfer" + at, [&](Model& x) { x.reach(i + 1); },
              [&](Real& x, Model& y) {
                  auto it = x.a.begin() + i;
                  x.a.transfer(it);
                  if (i < n) expect(*it == y.seq[i], y, "the iterator moved");
              });
        child(m, r, depth, "erase" + at,
              [&](Model& x) {
                  if (i < n) {
                      x.seq.erase(x.seq.begin() + i);
                      x.boundary -= i < std::ptrdiff_t(x.boundary);
                  }
              },
              [&](Real& x, Model& y) {
                  auto it = x.a.erase(x.a.begin() + i);
                  auto left = std::ptrdiff_t(y.seq.size());
                  expect((it == x.a.end()) == (i >= left) && (i >= left || *it == y.seq[i]), y, "erase does not return the element after");
              });
        for (std::ptrdiff_t len = -1; len <= 2; ++len) {
            auto cnt = len < 0 ? 1 : len;
            child(m, r, depth, (len < 0 ? "insert" : "insert" + std::to_string(len)) + at,
                  [&](Model& x) {
                      x.reach(i);
                      for (std::ptrdiff_t k = 0; k < cnt; ++k) x.seq.insert(x.seq.begin() + i + k, value(fresh + k));
                      x.boundary += cnt;
                  },
                  [&](Real& x, Model& y) {
                      std::vector<token_type> v;
                      for (std::ptrdiff_t k = 0; k < cnt; ++k) v.push_back(value(fresh + k));
                      auto it = len < 0 ? x.a.insert(x.a.begin() + i, v[0]) : x.a.insert(x.a.begin() + i, v.begin(), v.end());
                      if (cnt) expect(it == x.a.begin() + i && *it == y.seq[i], y, "insert does not return the inserted element");
                  });
        }
    }
    // end() itself
    child(m, r, depth, "transfer@end ", [&](Model& x) { x.reach(n); }, [&](Real& x, Model&) { x.a.transfer(x.a.end()); });
    child(m, r, depth, "transfer@-1 ", [&](Model&) {}, [&](Real& x, Model&) { x.a.transfer(x.a.begin() - 1); });
    child(m, r, depth, "erase@end ", [&](Model&) {}, [&](Real& x, Model& y) { expect(x.a.erase(x.a.end()) == x.a.end(), y, "erase(end()) is not end()"); });
    for (std::ptrdiff_t len = -1; len <= 2; ++len) {
        auto cnt = len < 0 ? 1 : len;
        child(m, r, depth, (len < 0 ? "insert" : "insert" + std::to_string(len)) + "@end ",
              [&](Model& x) {
                  x.reach(n);
                  for (std::ptrdiff_t k = 0; k < cnt; ++k) x.seq.push_back(value(fresh + k));
                  x.boundary = x.seq.size();
              },
              [&](Real& x, Model& y) {
                  std::vector<token_type> v;
                  for (std::ptrdiff_t k = 0; k < cnt; ++k) v.push_back(value(fresh + k));
                  auto it = len < 0 ? x.a.insert(x.a.end(), v[0]) : x.a.insert(x.a.end(), v.begin(), v.end());
                  if (cnt) expect(it != x.a.end() && *it == y.seq[n], y, "insert at end() does not return the inserted element");
              });
    }
    // edits through iterators made before other edits (they address positions)
    if (n >= 2) {
        for (std::ptrdiff_t i = 0; i < n; ++i)
            for (std::ptrdiff_t j = 0; j < n; ++j)
                child(m, r, depth, "set@" + std::to_string(i) + "," + std::to_string(j) + " ",
                      [&](Model& x) { x.reach(std::max(i, j) + 1), x.seq[i] = value(fresh), x.seq[j] = value(fresh + 1); },
                      [&](Real& x, Model&) {
                          auto a = x.a.begin() + i, b = x.a.begin() + j;
                          a.set(value(fresh));
                          b.set(value(fresh + 1));
                      });
    }
}

void explore()
{
    for (std::size_t p = 0; p <= START; ++p)
        for (std::size_t u = 0; u <= START; ++u)
            for (unsigned shared = 0; shared < 2; ++shared) {
                Model m;
                tokens_t pv, uv;
                for (std::size_t k = 0; k < p + u; ++k) m.seq.push_back(value(shared ? 0 : k)), (k < p ? pv : uv).push_back(value(shared ? 0 : k));
                m.boundary = p;
                Real r(pv, uv);
                path = "[" + show(m.seq, m.boundary) + "] ";
                nat::at(path);
                compare(m, r);
                go(m, r, top = shared ? 2 : DEPTH);
            }
}
