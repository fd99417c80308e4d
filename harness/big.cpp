// Large containers: contents as runs of consecutive values.
// usage: prog script out
#include <boost/segmented_tree/seq.hpp>
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#ifndef BIG_ELEM
#define BIG_ELEM 0
#define BIG_S 3
#define BIG_B 3
#endif
typedef long long ll;
static ll g_moves, g_copies, g_allocs, g_fail, g_live, g_seg, g_node, g_hit, g_bad, g_reads, g_steps;
struct Fail : std::bad_alloc {};

struct Cnt {  // counted element
  int v;
  Cnt* me;
  explicit Cnt(int x) : v(x), me(this) { ++g_live; }
  Cnt(Cnt const& o) : v(o.v), me(this) { ++g_live; ++g_copies; if (o.me != &o) v = -77; }
  Cnt(Cnt&& o) noexcept : v(o.v), me(this) { ++g_live; ++g_moves; if (o.me != &o) v = -77; o.v = -5; }
  Cnt& operator=(Cnt const& o) { ++g_copies; v = o.v; return *this; }
  Cnt& operator=(Cnt&& o) noexcept { ++g_moves; int t = o.v; o.v = -5; v = t; return *this; }
  ~Cnt() { --g_live; v = -9; }
  int val() const { return me == this ? v : -78; }
};
struct Plain {
  int v;
  explicit Plain(int x) : v(x) {}
  int val() const { return v; }
};
#if BIG_ELEM
typedef Cnt E;
#else
typedef Plain E;
#endif
inline bool operator<(E const& a, E const& b) { return a.v < b.v; }
inline bool operator==(E const& a, E const& b) { return a.v == b.v; }

static std::map<char*, size_t> g_blocks;  // live blocks and their sizes
template <typename T> struct Al {
  typedef T value_type;
  typedef std::true_type propagate_on_container_move_assignment;
  Al() {}
  template <typename U> Al(Al<U> const&) {}
  T* allocate(size_t n) {
    if (g_fail > 0 && --g_fail == 0) { g_hit = 1; throw Fail(); }
    ++g_allocs;
    ++(std::is_same<T, E>::value ? g_seg : g_node);
    void* p = malloc(n * sizeof(T));
    if (!p) abort();
    g_blocks[(char*)p] = n * sizeof(T);
    return (T*)p;
  }
  void deallocate(T* p, size_t n) {
    auto it = g_blocks.find((char*)p);
    if (it == g_blocks.end() || it->second != n * sizeof(T)) g_bad = 1;
    if (it != g_blocks.end()) g_blocks.erase(it);
    --(std::is_same<T, E>::value ? g_seg : g_node);
    free(p);
  }
  friend bool operator==(Al const&, Al const&) { return true; }
  friend bool operator!=(Al const&, Al const&) { return false; }
};
typedef boost::segmented_tree::seq<E, Al<E>, BIG_S * sizeof(E), 16 + 16ull * BIG_B> Seq;
typedef Seq::iterator It;

static int fd;
static int cur_hist;
static char const* cur_op = "";
static void on_signal(int s) {
  char b[200];
  int n = snprintf(b, sizeof b, "{\"h\":%d,\"op\":\"%s\",\"in\":\"%s\"}\n", cur_hist, s == SIGALRM ? "hang" : "crash", cur_op);
  if (write(fd, b, (size_t)n) < 0) {}
  _exit(0);
}

struct Runs {
  std::vector<std::pair<ll, ll>> r;
  void add(ll v) {
    if (!r.empty() && r.back().first + r.back().second == v) ++r.back().second;
    else r.push_back({v, 1});
  }
  std::string str() const {
    std::string s = "[";
    for (auto& x : r) { if (s.size() > 1) s += ','; s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }
    return s + "]";
  }
};
// values descending when read backwards: collected reversed
static std::string back(Seq& q, ll cap) {
  std::vector<ll> v;
  It i = q.end(), f = q.begin();
  while (i != f && (ll)v.size() <= cap) { --i; v.push_back(i->val()); }
  Runs r;
  for (size_t k = v.size(); k--;) r.add(v[k]);
  return r.str();
}
static std::string list(std::vector<ll> const& v) {
  std::string s = "[";
  for (ll x : v) { if (s.size() > 1) s += ','; s += std::to_string(x); }
  return s + "]";
}

struct Src {  // forward iterator over consecutive values
  typedef std::forward_iterator_tag iterator_category;
  typedef E value_type;
  typedef std::ptrdiff_t difference_type;
  typedef E const* pointer;
  typedef E reference;
  ll v;
  E operator*() const { ++g_reads; return E((int)v); }
  Src& operator++() { ++v; ++g_steps; return *this; }
  Src operator++(int) { Src t = *this; ++v; ++g_steps; return t; }
  friend bool operator==(Src a, Src b) { return a.v == b.v; }
  friend bool operator!=(Src a, Src b) { return a.v != b.v; }
};

struct Once : Src {  // the same, single pass
  typedef std::input_iterator_tag iterator_category;
  explicit Once(ll x) : Src{x} {}
  Once& operator++() { ++v; ++g_steps; return *this; }
  struct Proxy { ll x; E operator*() const { ++g_reads; return E((int)x); } };
  Proxy operator++(int) { Proxy t{v}; ++v; ++g_steps; return t; }
};
// everything a container holds: its own bytes and every block
static unsigned long long hash_all(std::vector<std::unique_ptr<Seq>> const& q) {
  unsigned long long h = 1469598103934665603ull;
  auto eat = [&](char const* p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; };
  for (int k = 1; k <= 2; ++k) eat((char const*)q[k].get(), sizeof(Seq));
  for (auto& b : g_blocks) {
    eat((char const*)&b.first, sizeof b.first);
    // words, then what is left
    size_t w = b.second / 8;
    for (size_t i = 0; i < w; ++i) { unsigned long long x; memcpy(&x, b.first + 8 * i, 8); h = (h ^ x) * 1099511628211ull; }
    eat(b.first + 8 * w, b.second % 8);
  }
  return h;
}
// equal neighbours counted
static std::string same(Seq& q, ll p, ll e) {
  std::vector<ll> r;
  It i = q.nth((size_t)p);
  for (; p < e; ++p, ++i) {
    ll v = i->val();
    if (!r.empty() && r[r.size() - 2] == v) ++r.back();
    else { r.push_back(v); r.push_back(1); }
  }
  return list(r);
}
static std::string runs(Seq& q, ll p, ll e) {
  Runs r;
  It i = q.nth((size_t)p);
  for (; p < e; ++p, ++i) r.add(i->val());
  return r.str();
}

int main(int argc, char** argv) {
  if (argc < 3) return 95;
  fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0) return 94;
  signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGFPE, on_signal); signal(SIGILL, on_signal);
  std::ifstream in(argv[1]);
  std::string line;
  std::vector<std::unique_ptr<Seq>> q(3);
  std::mt19937 rng;
  int samples = 40;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string op;
    is >> op;
    if (op.empty()) continue;
    std::vector<ll> a;
    for (ll x; is >> x;) a.push_back(x);
    auto A = [&](size_t i) { return i < a.size() ? a[i] : 0; };
    if (op == "H") {
      cur_hist = (int)A(0);
      alarm(120);
      for (int s = 1; s <= 2; ++s) q[s].reset(new Seq);
      g_fail = 0;
      continue;
    }
    if (op == "seed") { rng.seed((unsigned)A(0)); continue; }
    if (op == "F") { g_fail = A(0); g_hit = 0; continue; }
    static std::string held;
    held = op;
    cur_op = held.c_str();
    Seq& s = *q[A(0) == 2 ? 2 : 1];
    Seq& t = *q[A(0) == 2 ? 1 : 2];
    ll n = (ll)s.size(), m = (ll)t.size();
    // positions are taken modulo what there is
    auto pos = [&](ll x, ll k) { return k <= 0 ? 0 : ((x % k) + k) % k; };
    ll done = 0, ret = -1, cm = 0, cc = 0, ca = -100, cx0 = 0;
    std::string out = "ok", x = "[]";
    ll tot = 0;
    g_reads = g_steps = 0;
    std::vector<ll> hd;
    auto one = [&](std::function<void()> f) {
      ll h = (ll)s.height();
      g_moves = g_copies = g_allocs = 0;
      f();
      cm = std::max(cm, g_moves);
      cc = std::max(cc, g_copies);
      ca = std::max(ca, g_allocs - h);
      cx0 = std::max(cx0, g_allocs);
      tot += g_copies;
      ++done;
    };
    std::vector<ll> aa{A(0) == 2 ? 2 : 1};
    g_copies = 0;
    // iterators kept across a transfer
    std::vector<std::pair<ll, It>> ks, kt;
    auto keep = [&] {
      for (int z = 0; z < 6; ++z) {
        ll i = z == 0 ? 0 : z == 1 ? n : z == 2 ? n - 1 : n ? (ll)(rng() % n) : 0, j = z == 0 ? 0 : z == 1 ? m : z == 2 ? m - 1 : m ? (ll)(rng() % m) : 0;
        if (i >= 0 && i < n) ks.push_back({i, s.nth((size_t)i)});
        if (j >= 0 && j < m) kt.push_back({j, t.nth((size_t)j)});
      }
    };
    std::string hs = "[]", ht = "[]";
    auto kept = [&](std::vector<std::pair<ll, It>> const& k, Seq& c) {
      std::string o2 = "[";
      for (auto& y : k) {
        It i = y.second;
        std::vector<ll> row{y.first, (ll)c.index_of(i), i->val(), (ll)(i - c.begin()), (ll)(c.end() - i), (i == c.nth((size_t)y.first)) + 2 * (&*i == &c[(size_t)y.first])};
        ++i;
        row.push_back((ll)c.index_of(i));
        i -= (ptrdiff_t)(y.first + 1);
        row.push_back(i == c.begin());
        if (o2.size() > 1) o2 += ',';
        o2 += list(row);
      }
      return o2 + "]";
    };
    try {
      if (op == "psh") {  // side k v
        ll k = A(2), v = A(3);
        aa.insert(aa.end(), {A(1), k, v});
        for (ll i = 0; i < k; ++i) {
          if (A(1) == 0) one([&] { s.push_back(E((int)(v + i))); });
          else one([&] { s.push_front(E((int)(v + k - 1 - i))); });
        }
      } else if (op == "insk") {  // p k v mode
        ll p = pos(A(1), n + 1), k = A(2), v = A(3), mode = A(4);
        aa.insert(aa.end(), {p, k, v, mode});
        It it = s.nth((size_t)p);
        for (ll i = 0; i < k; ++i) {
          if (mode == 0) { one([&] { it = s.insert(it, E((int)(v + i))); }); ret = (ll)s.index_of(it); ++it; }
          else if (mode == 1) { one([&] { it = s.insert(it, E((int)(v + k - 1 - i))); }); ret = (ll)s.index_of(it); }
          else { one([&] { it = s.emplace(s.nth((size_t)(p + i)), (int)(v + i)); }); ret = (ll)s.index_of(it); }
        }
        if (k) ret = it == s.begin() + (mode == 0 ? ret + 1 : ret) ? ret : -2;
      } else if (op == "popk") {  // side k
        ll k = std::min(A(2), n);
        aa.insert(aa.end(), {A(1), k});
        for (ll i = 0; i < k; ++i) { if (A(1) == 0) one([&] { s.pop_back(); }); else one([&] { s.pop_front(); }); }
      } else if (op == "erk") {  // p k mode
        ll p = pos(A(1), n + 1), k = std::min(A(2), n - p);
        aa.insert(aa.end(), {p, k, A(3)});
        It it = s.nth((size_t)p);
        for (ll i = 0; i < k; ++i) {
          if (A(3) == 0) one([&] { it = s.erase(it); });
          else one([&] { it = s.erase(s.nth((size_t)(p + k - 1 - i))); });
          ret = (ll)s.index_of(it);
        }
        if (k) ret = it == s.begin() + ret ? ret : -2;
      } else if (op == "err") {  // p q
        ll p = pos(A(1), n + 1), e = pos(A(2), n + 1);
        if (p > e) std::swap(p, e);
        aa.insert(aa.end(), {p, e});
        It it = s.erase(s.begin() + p, s.end() - (n - e));
        ret = (ll)s.index_of(it);
        if (it != s.nth((size_t)ret)) ret = -2;
      } else if (op == "insr") {  // p k v
        ll p = pos(A(1), n + 1);
        aa.insert(aa.end(), {p, A(2), A(3)});
        It it = A(4) ? s.insert(s.nth((size_t)p), Once(A(3)), Once(A(3) + A(2))) : s.insert(s.nth((size_t)p), Src{A(3)}, Src{A(3) + A(2)});
        aa.push_back(A(4));
        ret = (ll)s.index_of(it);
        if (it != s.begin() + ret) ret = -2;
      } else if (op == "asr") {  // k v
        aa.insert(aa.end(), {A(1), A(2)});
        aa.push_back(A(3));
        if (A(3)) s.assign(Once(A(2)), Once(A(2) + A(1)));
        else s.assign(Src{A(2)}, Src{A(2) + A(1)});
      } else if (op == "cut") {  // resize downwards
        ll k = pos(A(1), n + 1);
        aa.push_back(k);
        s.erase(s.nth((size_t)k), s.end());
      } else if (op == "cpa") { s = t; }
      else if (op == "mva") { keep(); g_moves = g_copies = g_allocs = 0; s = std::move(t); cm = g_moves + g_copies + g_allocs; hs = kept(kt, s); }
      else if (op == "mvc") {
        int k = A(0) == 2 ? 2 : 1;
        keep();
        q[k].reset();
        g_moves = g_copies = g_allocs = 0;
        Seq* c = new Seq(std::move(t));
        cm = g_moves + g_copies + g_allocs;
        q[k].reset(c);
        hs = kept(kt, *q[k]);
      }
      else if (op == "swp") { keep(); g_moves = g_copies = g_allocs = 0; s.swap(t); cm = g_moves + g_copies + g_allocs; hs = kept(kt, s); ht = kept(ks, t); }
      else if (op == "clr") { s.clear(); }
      else if (op == "spl") { ll p = pos(A(1), n + 1); aa.push_back(p); s.splice(s.nth((size_t)p), t); }
      else if (op == "spr") {
        ll p = pos(A(1), n + 1), x = pos(A(2), m + 1), y = pos(A(3), m + 1);
        if (x > y) std::swap(x, y);
        aa.insert(aa.end(), {p, x, y});
        s.splice(s.nth((size_t)p), t, t.nth((size_t)x), t.nth((size_t)y));
      } else if (op == "srt") { s.sort(); }
      else if (op == "srtg") { ll k = A(1) > 0 ? A(1) : 1; aa.push_back(k); s.sort([=](E const& u, E const& w) { return u.v / k < w.v / k; }); }
      else if (op == "mrgg") {
        ll k = A(1) > 0 ? A(1) : 1;
        aa.push_back(k);
        auto by = [=](E const& u, E const& w) { return u.v / k < w.v / k; };
        s.sort(by); t.sort(by);
        if (A(2)) s.merge(std::move(t), by); else s.merge(t, by);
      }
      else if (op == "mrg") { s.sort(); t.sort(); s.merge(t); }
      else if (op == "rmi") { ll lo = A(1), hi = A(2); aa.insert(aa.end(), {lo, hi}); ll calls = 0; s.remove_if([&](E const& e) { ++calls; return lo <= e.v && e.v < hi; }); g_reads = calls; }
      else if (op == "uni") {  // keeps the first of every group of k values
        ll k = A(1) > 0 ? A(1) : 1;
        aa.push_back(k);
        ll calls = 0;
        s.unique([&](E const& u, E const& w) { ++calls; return u.v / k == w.v / k; });
        g_reads = calls;
      }
      else if (op == "rev") {  // there and back: what was read backwards in between
        s.reverse();
        Runs r;
        for (auto i = s.rbegin(), e2 = s.rend(); i != e2; ++i) r.add(i->val());
        x = "{\"r\":" + r.str() + ",\"ends\":" + (n ? list({s.front().val(), s.back().val(), s[(size_t)(n / 2)].val()}) : std::string("[]")) + "}";
        s.reverse();
      }
      else if (op == "dup") {  // p k i: k copies of element i put in at p, and taken out again
        if (n) {
          ll p = pos(A(1), n + 1), k = A(2), i = pos(A(3), n);
          aa.insert(aa.end(), {p, k, i, A(4)});
          if (A(4) == 0) { It it = s.insert(s.nth((size_t)p), (size_t)k, s[(size_t)i]); ret = (ll)s.index_of(it); }
          else { p = aa[1] = n; ret = n; s.resize((size_t)(n + k), s[(size_t)i]); }
          tot = g_copies;
          x = "{\"a\":" + runs(s, 0, p) + ",\"b\":" + same(s, p, p + k) + ",\"z\":" + runs(s, p + k, (ll)s.size()) + "}";
          It it = s.erase(s.nth((size_t)p), s.nth((size_t)(p + k)));
          if ((ll)s.index_of(it) != p) ret = -2;
        }
      }
      else if (op == "ins1") {  // p i: element i inserted at p, k times over
        if (n) {
          ll p = pos(A(1), n + 1), i = pos(A(2), n), k = std::min(A(3), 60ll);
          aa.insert(aa.end(), {p, i, k});
          for (ll z = 0; z < k; ++z) one([&] { s.insert(s.nth((size_t)p), s[(size_t)i]); });
        }
      }
      else if (op == "cpc") {  // a copy, then changes to the copy
        Seq u(t);
        std::string first = runs(u, 0, (ll)u.size());
        for (int z = 0; z < 20 && u.size(); ++z) { u[rng() % u.size()].v += 3; u.erase(u.nth(rng() % u.size())); u.push_front(E(7)); u.insert(u.nth(rng() % (u.size() + 1)), E(9)); }
        if (u.size()) u.erase(u.begin(), u.nth(u.size() / 2));
        x = "{\"c\":" + first + "}";
      }
      else if (op == "cmp") {  // against a copy that differs by d in element i, or is shorter
        ll i = n ? pos(A(1), n) : 0, d = A(2);
        aa.insert(aa.end(), {i, d});
        Seq u;
        if (n) {
          // another arrangement of the same contents
          ll h = pos(A(3), n + 1);
          u.insert(u.end(), s.nth((size_t)h), s.end());
          u.insert(u.begin(), s.begin(), s.nth((size_t)h));
          if (d == 99) u.erase(u.nth((size_t)i), u.end());
          else u[(size_t)i].v += (int)d;
        }
        Seq const &cs = s, &ct = t, &cu = u;
        auto six = [](Seq const& l, Seq const& r) { return list({l == r, l != r, l < r, l <= r, l > r, l >= r}); };
        x = "{\"u\":" + six(cs, cu) + ",\"v\":" + six(cu, cs) + ",\"t\":" + six(cs, ct) + "}";
      }
      else if (op == "rnd") {  // k: random single edits; what they leave is taken over, not judged
        for (ll i = 0; i < A(1); ++i) {
          if (s.size() && rng() % 2) s.erase(s.nth(rng() % s.size()));
          else s.insert(s.nth(rng() % (s.size() + 1)), E((int)(1000000000 + (int)(rng() % 1000000) * 2)));
        }
      } else { fprintf(stderr, "unknown %s\n", op.c_str()); return 96; }
    } catch (Fail&) { out = "alloc"; }
    if (!done) tot = std::max(tot, g_copies);
    ll hit = g_hit;
    g_fail = 0;
    g_hit = 0;
    ll rd = g_reads, st = g_steps;
    g_moves = g_copies = g_allocs = 0;
    unsigned long long hash = hash_all(q);
    std::string o = "{\"h\":" + std::to_string(cur_hist) + ",\"op\":\"" + op + "\",\"a\":" + list(aa) + ",\"out\":\"" + out + "\",\"hit\":" + std::to_string(hit) +
                    ",\"done\":" + std::to_string(done) + ",\"ret\":" + std::to_string(ret) + ",\"cost\":" + list({cm, cc, ca, cx0}) +
                    ",\"live\":" + std::to_string(BIG_ELEM ? g_live : -1) + ",\"blk\":" + list({g_seg, g_node, g_bad}) +
                    ",\"x\":" + x + ",\"cp\":" + std::to_string(tot) + ",\"rd\":" + list({rd, st}) + ",\"hs\":" + hs + ",\"ht\":" + ht + ",\"d\":[";
    for (int k = 1; k <= 2; ++k) {
      Seq& x = *q[k];
      Seq const& cx = x;
      ll sz = (ll)x.size();
      Runs r;
      ll c = 0;
      for (It i = x.begin(), e = x.end(); i != e && c <= sz; ++i, ++c) r.add(i->val());
      o += std::string(k > 1 ? "," : "") + "{\"n\":" + std::to_string(sz) + ",\"hg\":" + std::to_string((ll)x.height()) + ",\"c\":" + r.str() + ",\"bw\":" + back(x, sz);
      // segments in order, as [length, how many in a row]
      std::vector<ll> sg;
      if (sz) {
        It i = x.begin();
        for (ll tot = 0; tot < sz;) {
          ll len = (ll)(i.end() - i.begin());
          if (sg.size() && sg[sg.size() - 2] == len) ++sg.back();
          else { sg.push_back(len); sg.push_back(1); }
          tot += len;
          if (len <= 0) break;
          if (tot < sz) i.move_after_segment();
        }
      }
      o += ",\"sg\":" + list(sg);
      // samples
      std::vector<std::string> pt, jp, sn;
      if (sz)
        for (int z = 0; z < samples; ++z) {
          ll i = z == 0 ? 0 : z == 1 ? sz - 1 : z == 2 ? sz / 2 : (ll)(rng() % sz);
          It f = x.nth((size_t)i);
          pt.push_back(list({i, cx[(size_t)i].val(), x.at((size_t)i).val(), f->val(), (ll)x.index_of(f), &x[(size_t)i] == &*f ? 1 : 0}));
          // the segment of this element, and the ones next to it
          if (z < 16) {
            ll sb = i - (ll)(f.current() - f.begin()), se = sb + (ll)(f.end() - f.begin());
            ll k1 = se <= sz ? (ll)(rng() % (sz - se + 1)) : 0, k0 = sb > 0 ? (ll)(rng() % sb) : 0;
            It u = f, w = f, u2 = f, w2 = f;
            u.move_after_segment();
            u2.move_after_segment((size_t)k1);
            if (sb > 0) { w.move_before_segment(); w2.move_before_segment((size_t)k0); }
            ll contig = 0;
            for (auto y = f.begin(); y != f.end(); ++y) contig += &*y == &x[(size_t)(sb + (y - f.begin()))];
            sn.push_back(list({i, sb, se, contig, (ll)x.index_of(u), (ll)x.index_of(f.after_segment()), k1, (ll)x.index_of(u2), (ll)(u2 - x.begin()), sb > 0 ? (ll)x.index_of(w) : -1,
                               sb > 0 ? (ll)x.index_of(f.before_segment()) : -1, k0, sb > 0 ? (ll)x.index_of(w2) : -1, sb > 0 ? (ll)(w2 - x.begin()) : -1, (u2 == x.nth((size_t)(se + k1))) + 2 * (sb == 0 || w2 == x.nth((size_t)(sb - 1 - k0)))}));
          }
          ll j = z % 4 == 0 ? (z % 8 ? sz : 0) : z % 4 == 1 ? std::min(sz, i + 1 + (ll)(rng() % 5)) : z % 4 == 2 ? std::max(0ll, i - 1 - (ll)(rng() % 5)) : (ll)(rng() % (sz + 1));
          It g = f;
          g += j - i;
          Seq::const_iterator cg = cx.nth((size_t)i);
          Seq::const_iterator cj = cg + (j - i);
          ll sub = j < sz ? f[j - i].val() : 0;
          It gb = g;
          gb -= j - i;
          jp.push_back(list({i, j, (ll)x.index_of(g), (ll)(g - f), j < sz ? g->val() : 0, sub, (ll)x.index_of(cj), j < sz ? cj->val() : 0, (g == x.nth((size_t)j)) + 2 * (gb == f) + 4 * ((g < f) == (j < i)), (ll)x.index_of(gb)}));
        }
      auto rows = [](std::vector<std::string> const& v) { std::string s2 = "["; for (auto& y : v) { if (s2.size() > 1) s2 += ','; s2 += y; } return s2 + "]"; };
      o += ",\"pt\":" + rows(pt) + ",\"jp\":" + rows(jp) + ",\"sn\":" + rows(sn) + "}";
    }
    // the observations above changed nothing
    o += "],\"obs\":" + list({hash == hash_all(q) ? 1 : 0, g_moves, g_copies, g_allocs}) + "}\n";
    if (write(fd, o.data(), o.size()) < 0) return 93;
  }
  // everything goes away
  for (int k = 1; k <= 2; ++k) q[k].reset();
  std::string o = "{\"h\":" + std::to_string(cur_hist) + ",\"op\":\"end\",\"live\":" + std::to_string(BIG_ELEM ? g_live : -1) + ",\"blk\":" + list({g_seg, g_node, g_bad}) + "}\n";
  if (write(fd, o.data(), o.size()) < 0) return 93;
  return 0;
}
