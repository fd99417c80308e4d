// Steps taken by the calls of large containers.  Built with
// -fsanitize-coverage=trace-pc-guard: every basic block entered is one step, so the
// numbers depend on the program and its input alone, not on the machine's speed.
// STEP_S elements per segment, STEP_B entries per index node.
// usage: steps OUT SEED SIZE...
#include <cstdint>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <list>
#include <string>
#include <vector>
#include "boost/segmented_tree/seq.hpp"
namespace st = boost::segmented_tree;

static unsigned long steps, budget = ~0ul;
static FILE* F;
static char now[64];
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  for (; a < b; ++a) *a = 1;
}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  if (++steps == budget) {  // far beyond anything allowed
    fprintf(F, "{\"op\":\"endless\",\"in\":\"%s\",\"n\":0,\"m\":0,\"d\":0,\"g\":0,\"hg\":0,\"st\":0,\"cm\":0}\n", now);
    fflush(F);
    _Exit(0);
  }
}

struct E {
  int v;
  E(int x = 0) : v(x) {}
  E(E const& o) : v(o.v) {}
  E(E&& o) noexcept : v(o.v) {}
  E& operator=(E const& o) { v = o.v; return *this; }
  E& operator=(E&& o) noexcept { v = o.v; return *this; }
  ~E() { v = -1; }
};
static unsigned long cmps;
static bool operator==(E const& a, E const& b) { ++cmps; return a.v == b.v; }
static bool operator<(E const& a, E const& b) { ++cmps; return a.v < b.v; }

using Seq = st::seq<E, std::allocator<E>, STEP_S * sizeof(E), 16 + 16 * STEP_B>;
static uint64_t rng = 1;
__attribute__((no_sanitize("coverage"))) static size_t R(size_t n) {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return n ? (rng >> 8) % n : 0;
}
static size_t sink;

// n: elements concerned (the larger container), m: elements transferred, d: distance, g: calls or segments
static void emit(char const* op, size_t n, size_t m, size_t d, size_t g, size_t h, unsigned long st_) {
  auto cap = [](unsigned long x) { return x > 2000000000ul ? 2000000000ul : x; };
  fprintf(F, "{\"op\":\"%s\",\"in\":\"\",\"n\":%zu,\"m\":%zu,\"d\":%zu,\"g\":%zu,\"hg\":%zu,\"st\":%lu,\"cm\":%lu}\n", op, n, m, d, g, h, cap(st_), cap(cmps));
}
template <typename Fn> static unsigned long run(char const* op, Fn f) {
  snprintf(now, sizeof now, "%s", op);
  cmps = 0;
  steps = 0;
  budget = 1500000000ul;
  f();
  unsigned long r = steps;
  budget = ~0ul;
  return r;
}
// one call, measured
template <typename Fn> static void one(char const* op, Seq const& s, size_t n, size_t m, Fn f) {
  size_t h = s.height();
  auto r = run(op, f);
  emit(op, n, m, 0, 1, std::max(h, s.height()), r);
}
// several calls: the most any of them took
template <typename Fn> static void most(char const* op, Seq const& s, size_t times, Fn f) {
  unsigned long top = 0;
  size_t h = s.height(), n = s.size();
  for (size_t k = 0; k < times; ++k) {
    auto r = run(op, [&] { f(k); });
    if (r > top) top = r;
  }
  emit(op, std::max(n, s.size()), 1, 0, times, std::max(h, s.height()), top);
}
// every edit while a container grows or shrinks: the most any took, by powers of two
struct Top {
  char const* op;
  size_t cls = 0;
  unsigned long top = 0;
  void flush() { if (cls && top) { cmps = 0; emit(op, cls, 1, 0, 1, 0, top); } top = 0; }
  template <typename Fn> void one(Seq const& s, Fn f) {
    size_t c = 1;
    while (c < s.size() + 1) c *= 2;
    if (c != cls) { flush(); cls = c; }
    auto r = run(op, f);
    if (r > top) top = r;
  }
  ~Top() { flush(); }
};
static void fill(Seq& s, size_t n, int shape) {
  Top in{shape == 2 ? "insert" : "push"}, out{"erase"};
  size_t mid = R(100);
  for (size_t k = 0; s.size() < n; ++k) {
    size_t p = R(s.size() + 1);
    if (shape == 0) in.one(s, [&] { s.push_back(E((int)k)); });
    else if (shape == 1) in.one(s, [&] { s.push_front(E((int)k)); });
    else if (shape == 2) in.one(s, [&] { s.insert(s.nth(p), E((int)k)); });
    else in.one(s, [&] { s.insert(s.nth(s.size() * mid / 100), E((int)k)); });
  }
  if (shape == 3) for (size_t k = n / 2; k; --k) { size_t p = R(s.size()); out.one(s, [&] { s.erase(s.nth(p)); }); }
}
static void drain(Seq& s, int shape) {
  Top out{shape < 2 ? "pop" : "erase"};
  size_t mid = R(100);
  while (!s.empty()) {
    size_t p = shape == 2 ? R(s.size()) : s.size() * mid / 100;
    if (shape == 0) out.one(s, [&] { s.pop_back(); });
    else if (shape == 1) out.one(s, [&] { s.pop_front(); });
    else out.one(s, [&] { s.erase(s.nth(p)); });
  }
}
__attribute__((no_sanitize("coverage"))) static size_t place(Seq const& s, size_t k, size_t extra) {
  size_t n = s.size() + extra;
  static size_t at;
  switch (k % 5) {
    case 0: return 0;
    case 1: return n - 1;
    case 2: at = R(n); return at;
    case 3: return at < n ? at : n - 1;
    default: return R(n);
  }
}

static void scale(size_t N, int shape) {
  Seq s;
  fill(s, N, shape);
  Seq const& c = s;
  size_t n = s.size();
  // lookups
  most("nth", s, 300, [&](size_t k) { sink += s.nth(place(s, k, 1)).current() != nullptr; });
  most("nth", s, 300, [&](size_t k) { sink += c.nth(place(s, k, 1)).current() != nullptr; });
  most("index", s, 300, [&](size_t k) { sink += (size_t)s[place(s, k, 0)].v; });
  most("index", s, 300, [&](size_t k) { sink += (size_t)c[place(s, k, 0)].v; });
  most("at", s, 300, [&](size_t k) { sink += (size_t)s.at(place(s, k, 0)).v; });
  most("at", s, 300, [&](size_t k) { sink += (size_t)c.at(place(s, k, 0)).v; });
  most("front", s, 8, [&](size_t k) { sink += (size_t)(k & 1 ? s.front().v : c.front().v); });
  most("back", s, 8, [&](size_t k) { sink += (size_t)(k & 1 ? s.back().v : c.back().v); });
  most("begin", s, 8, [&](size_t k) { sink += k & 1 ? s.cbegin() == s.begin() : c.begin() == s.rend().base(); });
  most("end", s, 8, [&](size_t k) { sink += k & 1 ? s.cend() == s.end() : c.end() == s.rbegin().base(); });
  most("penultimate", s, 8, [&](size_t k) { sink += k & 1 ? s.cpenultimate() == s.penultimate() : c.penultimate() == s.cpenultimate(); });
  // constant
  auto i1 = s.nth(R(n)), i2 = s.nth(R(n));
  most("size", s, 4, [&](size_t) { sink += s.size() + c.height() + c.empty() + c.max_size(); });
  most("index_of", s, 4, [&](size_t) { sink += s.index_of(i1) + c.index_of(Seq::const_iterator(i2)); });
  most("compare_it", s, 4, [&](size_t) { sink += (i1 == i2) + (i1 != i2) + (i1 < i2) + (i1 > i2) + (i1 <= i2) + (i1 >= i2) + (size_t)(i1 - i2); });
  most("deref", s, 4, [&](size_t) { sink += (size_t)(*i1).v + (size_t)i2->v + (i1.begin() <= i1.current()) + (i1.current() < i1.end()); });
  most("get_allocator", s, 4, [&](size_t) { auto a = s.get_allocator(); (void)a; sink += &s.get_stored_allocator() != nullptr; });
  {
    Seq t;
    fill(t, n / 3, 0);
    most("swap", s, 4, [&](size_t k) { if (k & 1) s.swap(t); else { using std::swap; swap(s, t); } });
    most("move", s, 1, [&](size_t) { Seq u(std::move(s)); Seq v; v = std::move(u); s = std::move(v); });
    most("move", s, 1, [&](size_t) { Seq u(std::move(s), s.get_allocator()); s.swap(u); });
    most("empty", s, 1, [&](size_t) { Seq u; u.clear(); u.swap(u); });
  }
  // traversal
  n = s.size();
  size_t segs = 0;
  one("walk", s, n, n, [&] { for (auto i = s.begin(), e = s.end(); i != e; ++i) sink += (size_t)(*i).v; });
  one("walk", s, n, n, [&] { for (auto i = c.begin(), e = c.end(); i != e; i++) sink += (size_t)i->v; });
  one("walk", s, n, n, [&] { for (auto i = s.end(), e = s.begin(); i != e;) sink += (size_t)(*--i).v; });
  one("walk", s, n, n, [&] { for (auto i = c.rbegin(), e = c.rend(); i != e; ++i) sink += (size_t)(*i).v; });
  for (auto i = s.begin(), e = s.end(); i != e; i.move_after_segment()) ++segs;
  one("segwalk", s, n, segs, [&] { for (auto i = s.begin(), e = s.end(); i != e; i.move_after_segment()) sink += i.end() != i.begin(); });
  one("segwalk", s, n, segs, [&] { for (auto i = c.begin(), e = c.end(); i != e; i = i.after_segment()) sink += i.end() != i.begin(); });
  one("segwalk", s, n, segs, [&] { for (auto i = s.penultimate();;) { sink += 1; if (s.index_of(i) == (size_t)(i.current() - i.begin())) break; i.move_before_segment(); } });
  one("segwalk", s, n, segs, [&] { for (auto i = c.penultimate();;) { sink += 1; if (s.index_of(i) == (size_t)(i.current() - i.begin())) break; i = i.before_segment(); } });
  for (size_t d : {size_t(2), size_t(3) + STEP_S, n / 50 + 1, n / 7 + 1}) {
    if (d >= n) continue;
    size_t g = n / d;
    auto h = s.height();
    auto r = run("jump", [&] { auto i = s.begin(); for (size_t k = 0; k < g; ++k) i += (std::ptrdiff_t)d; sink += s.index_of(i); });
    emit("jump", n, 0, d, g, h, r);
    r = run("jump", [&] { auto i = c.end(); for (size_t k = 0; k < g; ++k) i -= (std::ptrdiff_t)d; sink += s.index_of(i); });
    emit("jump", n, 0, d, g, h, r);
    r = run("jump", [&] { auto i = s.begin(); for (size_t k = 0; k < g; ++k) { sink += (size_t)i[(std::ptrdiff_t)d - 1].v; i = i + (std::ptrdiff_t)d; } });
    emit("jump", n, 0, d, g, h, r);
    size_t q = 0;
    r = run("segjump", [&] { for (auto i = s.begin();;) { size_t b = s.index_of(i) + (size_t)(i.end() - i.current()); if (b + d >= n) break; i.move_after_segment(d); ++q; } });
    emit("segjump", n, 0, d, q + 1, h, r);
    q = 0;
    r = run("segjump", [&] { for (auto i = s.penultimate();;) { size_t b = s.index_of(i) - (size_t)(i.current() - i.begin()); if (b < d + 1) break; i.move_before_segment(d); ++q; } });
    emit("segjump", n, 0, d, q + 1, h, r);
  }
  most("hop", s, 300, [&](size_t k) { auto i = s.nth(place(s, k, 1)); size_t p = s.index_of(i), q = R(n + 1); i += (std::ptrdiff_t)q - (std::ptrdiff_t)p; sink += s.index_of(i); });
  // single edits
  most("insert", s, 400, [&](size_t k) { E x((int)k); s.insert(s.nth(place(s, k, 1)), x); });
  most("insert", s, 400, [&](size_t k) { s.insert(s.nth(place(s, k, 1)), E((int)k)); });
  most("emplace", s, 200, [&](size_t k) { s.emplace(s.nth(place(s, k, 1)), (int)k); });
  most("push", s, 200, [&](size_t k) { E x(3); switch (k % 6) { case 0: s.push_back(x); break; case 1: s.push_front(x); break; case 2: s.push_back(E(1)); break; case 3: s.push_front(E(2)); break; case 4: s.emplace_back(4); break; default: s.emplace_front(5); } });
  most("erase", s, 800, [&](size_t k) { if (s.size() > 1) s.erase(s.nth(place(s, k, 0))); });
  most("pop", s, 200, [&](size_t k) { if (s.size() > 1) { if (k & 1) s.pop_back(); else s.pop_front(); } });
  most("insert", s, 300, [&](size_t) { s.insert(s.nth(s.size() / 2), E(7)); });
  most("erase", s, 300, [&](size_t) { if (s.size() > 1) s.erase(s.nth(s.size() / 2)); });
  // bulk
  for (size_t m : {size_t(1), size_t(40), N / 20 + 1}) {
    n = s.size();
    std::vector<E> src(m, E(9));
    std::list<E> lst(m, E(9));
    one("insn", s, n + m, m, [&] { s.insert(s.nth(R(n + 1)), m, E(5)); });
    one("insr", s, n + 2 * m, m, [&] { s.insert(s.nth(R(n + 1)), src.begin(), src.end()); });
    one("insr", s, n + 3 * m, m, [&] { s.insert(s.nth(R(n + 1)), lst.begin(), lst.end()); });
    size_t p = R(s.size() - m);
    one("err", s, n + 3 * m, m, [&] { s.erase(s.nth(p), s.nth(p + m)); });
    one("err", s, n + 2 * m, m, [&] { s.erase(s.nth(s.size() - m), s.end()); });
    one("err", s, n + m, m, [&] { s.erase(s.begin(), s.nth(m)); });
    one("resize", s, n + m, m, [&] { s.resize(n + m); });
    one("resize", s, n + m, m, [&] { s.resize(n); });
    one("resize", s, n + m, m, [&] { s.resize(n + m, E(3)); });
    one("resize", s, n + m, m, [&] { s.resize(n, E(3)); });
    one("resize", s, n, 1, [&] { s.resize(n); });
    Seq t;
    fill(t, m, 0);
    one("splice", s, n + m, m, [&] { s.splice(s.nth(R(n + 1)), t); });
    fill(t, m, 1);
    one("splice", s, n + 2 * m, m, [&] { s.splice(s.nth(R(n + 1)), std::move(t)); });
    size_t q = R(s.size() - m);
    one("splicer", s, n + 2 * m, m, [&] { t.splice(t.begin(), s, s.nth(q), s.nth(q + m)); });
    one("splicer", s, n + 2 * m, m, [&] { s.splice(s.end(), std::move(t), t.begin(), t.end()); });
    for (int k = 0; k < 20; ++k) {
      one("splice1", s, n + 2 * m, 1, [&] { t.splice(t.end(), s, s.nth(R(s.size()))); });
      one("splice1", s, n + 2 * m, 1, [&] { s.splice(s.nth(R(s.size() + 1)), std::move(t), t.nth(R(t.size()))); });
    }
    one("assign", t, m, m, [&] { t.assign(m, E(4)); });
    one("assign", t, m, m, [&] { t.assign(src.begin(), src.end()); });
    one("assign", t, m, m, [&] { t.assign(lst.begin(), lst.end()); });
    one("assign", t, 2 * m, 2 * m, [&] { t.assign(2 * m, E(4)); });
    one("assign", t, 2 * m, 2 * m, [&] { t.assign(m, E(4)); });
    s.erase(s.begin(), s.nth(s.size() - n));
  }
  n = s.size();
  {
    one("copy", s, n, n, [&] { Seq t(s); sink += t.size(); });
    Seq t;
    one("copy", s, n, n, [&] { t = s; });
    one("copy", s, n, n, [&] { t = s; });
    for (int k = 0; k < 30; ++k) { t.insert(t.nth(R(n)), E(1)); t.erase(t.nth(R(n))); }
    t = s;
    one("equal", s, n, n, [&] { sink += s == t; });
    one("equal", s, n, n, [&] { sink += s != t; });
    one("less", s, n, n, [&] { sink += s < t; });
    one("less", s, n, n, [&] { sink += s >= t; });
    one("less", s, n, n, [&] { sink += s > t; });
    one("less", s, n, n, [&] { sink += s <= t; });
    one("sort", t, n, n, [&] { t.sort(); });
    Seq u(t);
    one("sort", t, n, n, [&] { t.sort([](E const& a, E const& b) { ++cmps; return b.v < a.v; }); });
    one("reverse", t, n, n, [&] { t.reverse(); });
    one("merge", t, 2 * n, n, [&] { t.merge(u); });
    Seq w;
    fill(w, 10, 0);
    w.sort();
    t.sort();
    n = t.size();
    one("merge", t, n + 10, 10, [&] { t.merge(std::move(w)); });
    n = t.size();
    one("unique", t, n, n, [&] { t.unique(); });
    n = t.size();
    one("remove", t, n, n, [&] { t.remove_if([](E const& x) { return x.v % 3 == 0; }); });
    n = t.size();
    one("remove", t, n, n, [&] { t.remove(E(77)); });
    n = t.size();
    one("clear", t, n, n, [&] { t.clear(); });
    {
      Seq x(s);
      drain(x, (shape + 1) % 4);
      for (int k = 0; k < 3; ++k) {
        // up and down again
        Top in{"insert"}, out{"erase"};
        size_t mid = R(101);
        for (size_t j = 0; j < 400; ++j) { size_t p = x.size() * mid / 100; in.one(x, [&] { x.insert(x.nth(p), E(1)); }); }
        for (size_t j = 0; j < 400; ++j) { size_t p = (x.size() - 1) * mid / 100; out.one(x, [&] { x.erase(x.nth(p)); }); }
      }
    }
    one("make", t, n, n, [&] { Seq x(n, E(2)); sink += x.size(); });
    one("make", t, n, n, [&] { Seq x(n); sink += x.size(); });
    one("clear", s, s.size(), s.size(), [&] { Seq x(std::move(s)); });
  }
}

int main(int argc, char** argv) {
  F = fopen(argv[1], "w");
  if (!F || argc < 4) return 9;
  rng = (uint64_t)atol(argv[2]) * 0x9E3779B97F4A7C15u + 88172645463325252u;
  for (int k = 3; k < argc; ++k)
    for (int shape = 0; shape < 4; ++shape) scale((size_t)atol(argv[k]), shape);
  fclose(F);
  return 0;
}
