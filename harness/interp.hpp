// Interpreter of edit scripts against the real container: executes one call
// per script line and writes one JSON event per call.
#pragma once
#include "base.hpp"
#include <boost/segmented_tree/seq.hpp>

namespace vh {
namespace st = boost::segmented_tree;

struct Opt {
  bool tree = false;   // dump index nodes
  bool segs = true;    // dump segments
  bool probe = true;   // probe returned iterators
  bool runs = false;   // contents as runs of consecutive values
  bool sweep = true;   // arena sweep after every event
  bool cont = true;    // walk contents
};
inline Opt& O() { static Opt o; return o; }

struct Js {
  std::string s;
  void key(char const* k) { if (!s.empty() && s.back() != '{' && s.back() != '[' && s.back() != '\n') s += ','; s += '"'; s += k; s += "\":"; }
  void num(char const* k, long v) { key(k); s += std::to_string(v); }
  void str(char const* k, std::string const& v) { key(k); s += '"'; s += v; s += '"'; }
  template <typename C> static std::string arr(C const& c) {
    std::string r = "[";
    bool f = true;
    for (auto x : c) { if (!f) r += ','; f = false; r += std::to_string(x); }
    return r + "]";
  }
  template <typename C> void list(char const* k, C const& c) { key(k); s += arr(c); }
  void raw(char const* k, std::string const& v) { key(k); s += v; }
};

using Row = std::vector<long>;
using Rows = std::vector<Row>;
inline std::string rows_json(Rows const& rs) {
  std::string r = "[";
  for (size_t i = 0; i < rs.size(); ++i) { if (i) r += ','; r += Js::arr(rs[i]); }
  return r + "]";
}
inline void add_row(Rows& rs, Row const& r) {
  for (auto& x : rs) if (x == r) return;
  if (rs.size() < 12) rs.push_back(r);
}
// run coding: maximal runs of consecutive values as [start, length]
inline Rows runs_of(std::vector<long> const& v) {
  Rows r;
  for (long x : v) {
    if (!r.empty() && r.back()[0] + r.back()[1] == x) ++r.back()[1];
    else r.push_back({x, 1});
  }
  return r;
}

// Single-pass source: every element may be read once and in order.
struct SrcState {
  std::vector<int> const* v;
  size_t at = 0;
  std::vector<long> reads;
};
template <typename E>
struct InIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = E;
  using difference_type = std::ptrdiff_t;
  using pointer = E const*;
  using reference = E;
  std::shared_ptr<SrcState> s;
  size_t my = 0;
  bool end = false;
  E operator*() const {
    if (end || my >= s->v->size()) { G().anom("read past the end of the source range"); return E(0); }
    if (s->at != my) G().anom("read through a stale single-pass iterator");
    s->reads.push_back((long)my);
    return E((*s->v)[my]);
  }
  InIt& operator++() {
    if (end || s->at >= s->v->size()) G().anom("source range advanced past its end");
    else if (s->at != my) G().anom("advance of a stale single-pass iterator");
    else { elem_tick(); ++s->at; ++my; }  // the source may fail too
    return *this;
  }
  struct Proxy { E v; E operator*() const { return E((int)ET<E>::val(v)); } };
  InIt operator++(int) { InIt c = *this; ++*this; return c; }
  bool atend() const { return end || my >= s->v->size(); }
  friend bool operator==(InIt const& a, InIt const& b) { return a.atend() == b.atend(); }
  friend bool operator!=(InIt const& a, InIt const& b) { return !(a == b); }
};

// Multi-pass sources whose elements are made when read; every read is noted.
template <typename E, typename Tag>
struct MadeIt {
  using iterator_category = Tag;
  using value_type = E;
  using difference_type = std::ptrdiff_t;
  using pointer = E const*;
  using reference = E;
  SrcState* s = nullptr;
  std::ptrdiff_t my = 0;
  E operator*() const {
    if (my < 0 || my >= (std::ptrdiff_t)s->v->size()) { G().anom("read past the end of the source range"); return E(0); }
    s->reads.push_back((long)my);
    return E((*s->v)[(size_t)my]);
  }
  E operator[](std::ptrdiff_t d) const { return *(*this + d); }
  MadeIt& operator+=(std::ptrdiff_t d) {
    my += d;
    if (my < 0 || my > (std::ptrdiff_t)s->v->size()) G().anom("source range advanced past its end");
    return *this;
  }
  MadeIt& operator-=(std::ptrdiff_t d) { return *this += -d; }
  MadeIt& operator++() { return *this += 1; }
  MadeIt& operator--() { return *this += -1; }
  MadeIt operator++(int) { MadeIt c = *this; *this += 1; return c; }
  MadeIt operator--(int) { MadeIt c = *this; *this += -1; return c; }
  friend MadeIt operator+(MadeIt a, std::ptrdiff_t d) { return a += d; }
  friend MadeIt operator+(std::ptrdiff_t d, MadeIt a) { return a += d; }
  friend MadeIt operator-(MadeIt a, std::ptrdiff_t d) { return a -= d; }
  friend std::ptrdiff_t operator-(MadeIt const& a, MadeIt const& b) { return a.my - b.my; }
  friend bool operator==(MadeIt const& a, MadeIt const& b) { return a.my == b.my; }
  friend bool operator!=(MadeIt const& a, MadeIt const& b) { return a.my != b.my; }
  friend bool operator<(MadeIt const& a, MadeIt const& b) { return a.my < b.my; }
  friend bool operator>(MadeIt const& a, MadeIt const& b) { return a.my > b.my; }
  friend bool operator<=(MadeIt const& a, MadeIt const& b) { return a.my <= b.my; }
  friend bool operator>=(MadeIt const& a, MadeIt const& b) { return a.my >= b.my; }
};

template <typename Seq>
struct Interp {
  using E = typename Seq::value_type;
  using Al = typename Seq::allocator_type;
  using It = typename Seq::iterator;
  using CIt = typename Seq::const_iterator;
  static constexpr bool CP = ET<E>::copyable;
  static constexpr int NS = 4, NH = 6;
  struct Slot { bool live = false; Seq* p = nullptr; };
  Slot sl[NS + 1];
  struct Held { bool on = false; int s = 0; It it; };
  Held held[NH + 1];
  bool has_ret = false; int ret_s = 0; It ret_it; long ret_pos = -1;
  long hist = 0, evno = 0;
  bool quiet = false;
  int cidx_ops = 0;
  std::string out;
  int fd = 1;

  Interp() {
    for (int i = 1; i <= NS; ++i) sl[i].p = (Seq*)(A().objs.base + 4096 * (size_t)i);
  }

  // ------------------------------------------------------------ observation
  Seq& S(int i) { return *sl[i].p; }
  static long vv(E const& e) { return ET<E>::val(e); }

  std::vector<long> contents(int s) {
    std::vector<long> c;
    Seq const& q = S(s);
    size_t n = q.size(), k = 0;
    if (n > (size_t(1) << 26)) { G().anom("size out of range"); return c; }
    auto it = q.begin(), e = q.end();
    while (k < n && it != e) { c.push_back(vv(*it)); ++it; ++k; }
    if (k != n || it != e) G().anom("iteration length differs from size()");
    return c;
  }
  std::vector<char const*> addresses(int s) {
    std::vector<char const*> a;
    Seq const& q = S(s);
    size_t n = q.size(), k = 0;
    if (n > (size_t(1) << 26)) return a;
    auto it = q.begin();
    while (k < n) { a.push_back((char const*)std::addressof(*it)); ++it; ++k; }
    return a;
  }
  // segments by address: [block, offset, length]
  Rows segments(std::vector<char const*> const& a) {
    Rows r;
    Block* cur = nullptr;
    char const* next = nullptr;
    for (char const* p : a) {
      if (cur && p == next && p < cur->user + cur->bytes) { ++r.back()[2]; next = p + sizeof(E); continue; }
      Block* b = A().containing(p);
      if (!b || !b->live || b->kind != 0) { G().anom("element outside a live element block"); return r; }
      if ((size_t)(p - b->user) % sizeof(E)) G().anom("misplaced element");
      r.push_back({b->id, (long)((p - b->user) / (long)sizeof(E)), 1});
      cur = b;
      next = p + sizeof(E);
    }
    return r;
  }
  // index nodes in preorder: [id, group, parent link, parent index, [sizes], [children], level]
  // children: ids of node blocks (levels above leaf) or element blocks.
  std::string nodes(int s, Rows const& segs, long& count, bool& opaque) {
    count = 0;
    opaque = false;
    long h = (long)S(s).height();
    if (h < 2 || segs.empty()) return "[]";
    // locate the root: climb from a leaf that lists the first element block
    char* seg0 = A().blocks[(size_t)segs[0][0]].user;
    Block* leaf = nullptr;
    for (auto& b : A().blocks) {
      if (!b.live || b.kind != 1) continue;
      if (!b.dump) { opaque = true; return "[]"; }
      NodeDump d;
      b.dump(b.user, d);
      for (auto& c : d.ch) if (c.first == (void*)seg0) leaf = &b;
      if (leaf) break;
    }
    if (!leaf) { G().anom("no index node lists the first element block"); return "[]"; }
    Block* root = leaf;
    for (int k = 0;; ++k) {
      NodeDump d;
      root->dump(root->user, d);
      if (!d.parent) break;
      Block* p = A().find(d.parent);
      if (!p || !p->live || p->kind != 1 || k > 60) { G().anom("parent link to no index node"); return "[]"; }
      root = p;
    }
    std::string r = "[";
    std::set<int> seen;
    walk(root, 0, h, r, count, seen);
    return r + "]";
  }
  void walk(Block* b, long depth, long h, std::string& r, long& count, std::set<int>& seen) {
    if (!seen.insert(b->id).second) { G().anom("index node reached twice"); return; }
    ++count;
    NodeDump d;
    b->dump(b->user, d);
    if (d.len < 0 || d.len > d.cap) { G().anom("index node longer than its capacity"); return; }
    if (r.back() != '[') r += ',';
    Block* p = d.parent ? A().find(d.parent) : nullptr;
    std::vector<long> sz, ch;
    std::vector<Block*> kids;
    bool isleaf = depth == h - 2;
    for (auto& c : d.ch) {
      sz.push_back(c.second);
      Block* k = A().find(c.first);
      if (!k || !k->live || k->kind != (isleaf ? 0 : 1)) { ch.push_back(-1); kids.push_back(nullptr); }
      else { ch.push_back(k->id); kids.push_back(k); }
    }
    r += "{\"id\":" + std::to_string(b->id) + ",\"g\":" + std::to_string(b->group) + ",\"pa\":" +
         std::to_string(d.parent ? (p ? p->id : -2) : -1) + ",\"px\":" + std::to_string(d.pidx) + ",\"sz\":" + Js::arr(sz) +
         ",\"ch\":" + Js::arr(ch) + ",\"d\":" + std::to_string(depth) + "}";
    if (!isleaf) for (auto k : kids) if (k) walk(k, depth + 1, h, r, count, seen);
  }
  long objects_at(std::vector<char const*> const& a) {  // distinct live objects among the addresses
    std::set<char const*> u(a.begin(), a.end());
    return (long)u.size();
  }

  struct ObsAcc { long segs = 0, nodes = 0, elems = 0; bool opaque = false; std::set<int> groups; std::map<int, std::pair<long,long>> bygroup; };

  std::string observe(int s, ObsAcc& acc) {
    Js j;
    j.s = "{";
    if (!sl[s].live) {
      j.s += "\"u\":0}";
      return j.s;
    }
    Seq const& q = S(s);
    j.num("u", 1);
    j.num("n", (long)q.size());
    j.num("h", (long)q.height());
    int lab = q.get_allocator().label;
    if (q.get_stored_allocator().label != lab) G().anom("get_stored_allocator differs from get_allocator");
    j.num("a", lab);
    if (!O().cont) {
      j.s += ",\"c\":[],\"sg\":[],\"nd\":[],\"bg\":[],\"nn\":-1}";
      acc.opaque = true;
      return j.s;
    }
    auto c = contents(s);
    if (O().runs) j.raw("c", rows_json(runs_of(c))); else j.list("c", c);
    auto a = addresses(s);
    acc.elems += objects_at(a);
    Rows sg;
    std::set<int> groups;
    long nn = 0;
    bool opq = false;
    std::string nd = "[]";
    if (O().segs || O().tree) {
      sg = segments(a);
      std::set<long> blocks;
      for (auto& x : sg) { groups.insert(A().blocks[(size_t)x[0]].group); blocks.insert(x[0]); }
      acc.segs += (long)blocks.size();
      if (O().tree) {
        nd = nodes(s, sg, nn, opq);
        acc.opaque |= opq;
        acc.nodes += nn;
      }
    }
    j.raw("sg", rows_json(sg));
    j.raw("nd", nd);
    j.list("bg", groups);
    j.num("nn", opq ? -1 : nn);
    j.s += "}";
    return j.s;
  }

  // ------------------------------------------------------------ iterator probe
  std::string probe(int s, It it) {
    Seq& q = S(s);
    Js j;
    j.s = "{";
    long n = (long)q.size();
    long p = (long)q.index_of(it);
    j.num("p", p);
    long eq = -1;
    std::vector<long> fw, bw;
    long d1 = -1, d2 = -1;
    if (p >= 0 && p <= n) {
      It f = q.nth((size_t)p);
      eq = (it == f) | (!(it != f)) << 1 | (it.begin() == f.begin()) << 2 | (it.current() == f.current()) << 3 |
           (it.end() == f.end()) << 4 | ((it - f) == 0) << 5;
      d1 = (long)(it.current() - it.begin());
      d2 = (long)(it.end() - it.current());
      It k = it;
      for (long i = p; i < n; ++i) { fw.push_back(vv(*k)); ++k; }
      if (k != q.end()) eq = -2;
      k = it;
      for (long i = p; i > 0; --i) { --k; bw.push_back(vv(*k)); }
      if (k != q.begin()) eq = -3;
    }
    j.num("eq", eq);
    j.num("d1", d1);
    j.num("d2", d2);
    j.list("fw", fw);
    j.list("bw", bw);
    j.s += "}";
    return j.s;
  }
  static std::string noprobe() { return "{\"p\":-1}"; }

  // ------------------------------------------------------------ events
  void begin_op() {
    auto& g = G();
    for (auto& c : g.cnt) c = 0;
    g.armed_hit = false;
  }
  struct Ev {
    std::string op;
    std::vector<long> a;
    std::vector<int> vs;
    std::string out = "ok";
    std::vector<long> r;       // further results
    int rs = 0;                // slot of the returned iterator (0: none)
    bool has_it = false;
    It it;
    std::string x = "[]";      // probe rows
    std::vector<long> rd;      // source reads / predicate arguments
    int fk = 0; long fn = 0;
    long w = 0;                // way the position was obtained
  };
  void emit(Ev& e) {
    auto& g = G();
    g.arm_kind = 0;
    if (quiet) {
      has_ret = false;
      ++evno;
      return;
    }
    long cnt[C_NUM];
    memcpy(cnt, g.cnt, sizeof cnt);
    Js j;
    j.s = "{";
    j.num("hi", hist);
    j.num("ev", ++evno);
    j.str("op", e.op);
    j.list("a", e.a);
    j.list("vs", e.vs);
    j.str("out", e.out);
    j.list("r", e.r);
    j.num("w", e.w);
    j.num("fk", e.fk);
    j.num("fn", e.fn);
    j.num("hit", g.armed_hit ? 1 : 0);
    long rp = -1;
    std::string pr = noprobe();
    has_ret = false;
    if (e.has_it) {
      rp = (long)S(e.rs).index_of(e.it);
      if (O().probe) pr = probe(e.rs, e.it);
      has_ret = true; ret_s = e.rs; ret_it = e.it; ret_pos = rp;
    }
    j.num("rp", rp);
    j.raw("pr", pr);
    j.raw("x", e.x);
    j.list("rd", e.rd);
    std::vector<long> k(cnt, cnt + C_NUM);
    j.list("k", k);
    ObsAcc acc;
    std::string d = "[";
    int top = NS;
    while (top > 0 && !sl[top].live) --top;
    for (int s = 1; s <= top; ++s) { if (s > 1) d += ','; d += observe(s, acc); }
    j.raw("d", d + "]");
    long be = 0, bn = 0;
    for (auto& b : A().blocks) if (b.live) { if (b.kind == 0) ++be; else ++bn; }
    std::map<int, std::pair<long, long>> bg;
    for (auto& b : A().blocks) if (b.live) { auto& x = bg[b.group]; if (b.kind == 0) ++x.first; else ++x.second; }
    Rows gr;
    for (auto& x : bg) gr.push_back({x.first, x.second.first, x.second.second});
    if (O().sweep) A().sweep(false);
    j.raw("led", "{\"live\":" + std::to_string(ET<E>::tracked ? g.live : -1) + ",\"at\":" + std::to_string(acc.elems) +
                     ",\"hk\":" + std::to_string(hooked() ? g.hook_live : -1) + ",\"be\":" + std::to_string(be) +
                     ",\"bn\":" + std::to_string(bn) + ",\"opq\":" + std::to_string(acc.opaque || !O().tree ? 1 : 0) + ",\"gr\":" + rows_json(gr) + "}");
    j.key("an");
    j.s += "[";
    for (size_t i = 0; i < g.anoms.size(); ++i) { if (i) j.s += ","; j.s += "\"" + g.anoms[i] + "\""; }
    j.s += "]}\n";
    g.anoms.clear();
    out += j.s;
    if (out.size() > (1 << 20)) flush();
  }
  static constexpr bool hooked() { return HasHooks<Al>::value; }
  template <typename X, typename = void> struct HasHooks : std::false_type {};
  template <typename X> struct HasHooks<X, decltype((void)X::hooked())> : std::true_type {};

  void flush() {
    size_t o = 0;
    while (o < out.size()) {
      ssize_t w = ::write(fd, out.data() + o, out.size() - o);
      if (w <= 0) _exit(98);
      o += (size_t)w;
    }
    out.clear();
  }

  // ------------------------------------------------------------ positions
  // obtain a const_iterator to position p in one of several ways
  CIt at(int s, long p, long way) {
    Seq& q = S(s);
    long n = (long)q.size();
    switch (way) {
      case 1: return q.begin() + p;
      case 2: return q.end() - (n - p);
      case 3: { auto i = q.cbegin(); for (long k = 0; k < p; ++k) ++i; return i; }
      case 4: { auto i = q.cend(); for (long k = n; k > p; --k) --i; return i; }
      case 5: { auto i = q.nth((size_t)(n / 2)); i += p - n / 2; return i; }
      case 7: case 8: return ret_it;
      case 9: { auto i = ret_it; ++i; return i; }
      case 10: { auto i = ret_it; --i; return i; }
      default: return q.nth((size_t)p);
    }
  }

  std::vector<long> L;      // numeric arguments of the line
  std::vector<int> V;       // value list
  int fk = 0; long fn = 0;  // armed failure

  long arg(size_t i, long d = 0) const { return i < L.size() ? L[i] : d; }
  static long modp(long x, long m) { return m <= 0 ? 0 : ((x % m) + m) % m; }
  // ways 8, 9, 10: the last returned iterator itself, its successor, its predecessor
  long posn(int s, long x, long m, long& way) {
    if (way >= 8) {
      long q = ret_pos + (way == 9) - (way == 10);
      if (has_ret && ret_s == s && q >= 0 && q < m) return q;
      way = 0;
    }
    long p = modp(x, m);
    if (way == 7 && !(has_ret && ret_s == s && ret_pos == p)) way = 0;
    return p;
  }

  void arm() {
    begin_op();
    G().arm_kind = fk;
    G().arm_left = fn;
  }
  template <typename F> void guarded(Ev& e, F f) {
    e.fk = fk;
    e.fn = fn;
    arm();
    try { f(); }
    catch (AllocFail&) { e.out = "alloc"; }
    catch (CopyFail&) { e.out = "copy"; }
    catch (CmpFail&) { e.out = "cmp"; }
    catch (std::bad_alloc&) { e.out = "badalloc"; }
    catch (std::out_of_range&) { e.out = "oor"; }
    catch (std::exception&) { e.out = "exc"; }
    catch (...) { e.out = "unknown"; }
    G().arm_kind = 0;
    fk = 0;
    fn = 0;
    if (e.out != "ok") e.has_it = false;
  }
  // The call and nothing else: memory it obtains past its allocator is counted.
  // Two numbers of one type are a count and a value, not a range.
  using CountT = typename std::conditional<std::is_same<E, int>::value, int, size_t>::type;
  static constexpr bool own_alloc = !std::is_same<Al, std::allocator<E>>::value;
  template <typename F> void bare(Ev& e, F f) {
    guarded(e, [&] { if constexpr (own_alloc) { Watch watch; f(); } else f(); });
  }
  void setit(Ev& e, int s, It it) { e.has_it = true; e.rs = s; e.it = it; }

  bool ok(long s) const { return s >= 1 && s <= NS && sl[s].live; }
  void drop_all() { for (auto& h : held) h.on = false; }
  void drop_held(int s) { for (auto& h : held) if (h.on && h.s == s) h.on = false; }

  void rehold(int o, int s, bool xfer) {
    for (auto& h : held) if (h.on && h.s == o) { if (xfer) h.s = s; else h.on = false; }
  }
  // Successful edits invalidate held iterators; failed single edits do not.
  void finish_edit(Ev& e, int s) {
    static const std::set<std::string> strong{"ins", "insa", "push", "res", "empf", "ih"};
    if (e.out == "ok" || !strong.count(e.op)) drop_held(s);
    emit(e);
  }

  struct CmpD { bool operator()(E const& a, E const& b) const { return b < a; } };
  static int mod3(int k) { return ((k % 3) + 3) % 3; }
  struct CmpM { bool operator()(E const& a, E const& b) const { cmp_tick(); return mod3(keyof((int)ET<E>::val(a))) < mod3(keyof((int)ET<E>::val(b))); } };

  template <typename Tag, typename F> void made(Ev& e, F f) {
    SrcState st_{&V, 0, {}};
    MadeIt<E, Tag> a, b;
    a.s = b.s = &st_;
    b.my = (std::ptrdiff_t)V.size();
    struct Rd { Ev& e; SrcState& s; ~Rd() { e.rd = s.reads; } } rd{e, st_};
    f(a, b);
  }
  template <typename F> void with_source(Ev& e, long kind, F f) {
    // calls f(first, last) with a source of the given kind over V
    if (kind == 0) {
      auto st_ = std::make_shared<SrcState>();
      st_->v = &V;
      InIt<E> a, b;
      a.s = b.s = st_;
      b.end = true;
      struct Rd { Ev& e; SrcState& s; ~Rd() { e.rd = s.reads; } } rd{e, *st_};
      f(a, b);
    } else if (kind == 6) {
      made<std::bidirectional_iterator_tag>(e, f);
    } else if (kind == 7) {
      made<std::random_access_iterator_tag>(e, f);
    } else if (kind == 8) {
      made<std::forward_iterator_tag>(e, f);
    } else if (kind == 1) {
      if constexpr (CP) {
        auto sv = G().arm_kind; G().arm_kind = 0;
        std::list<E, Plain<E>> l;
        for (int x : V) l.emplace_back(x);
        reset_counts(); G().arm_kind = sv;
        f(l.begin(), l.end());
        G().arm_kind = 0;
      }
    } else if (kind == 2) {
      if constexpr (CP) {
        auto sv = G().arm_kind; G().arm_kind = 0;
        std::vector<E, Plain<E>> l;
        l.reserve(V.size());
        for (int x : V) l.emplace_back(x);
        reset_counts(); G().arm_kind = sv;
        f((E const*)l.data(), (E const*)l.data() + l.size());
        G().arm_kind = 0;
      }
    } else {
      auto sv = G().arm_kind; G().arm_kind = 0;
      std::list<E, Plain<E>> l;
      for (int x : V) l.emplace_back(x);
      reset_counts(); G().arm_kind = sv;
      f(std::make_move_iterator(l.begin()), std::make_move_iterator(l.end()));
      G().arm_kind = 0;
    }
  }
  void reset_counts() { for (auto& c : G().cnt) c = 0; }
  template <typename F> void with_il(F f) {
    if constexpr (CP) {
      auto sv = G().arm_kind; G().arm_kind = 0;
      auto mk = [](int x) { return E(x); };
      auto run = [&](std::initializer_list<E> il) { reset_counts(); G().arm_kind = sv; f(il); G().arm_kind = 0; };
      switch (V.size()) {
        case 0: run({}); break;
        case 1: run({mk(V[0])}); break;
        case 2: run({mk(V[0]), mk(V[1])}); break;
        case 3: run({mk(V[0]), mk(V[1]), mk(V[2])}); break;
        case 4: run({mk(V[0]), mk(V[1]), mk(V[2]), mk(V[3])}); break;
        case 5: run({mk(V[0]), mk(V[1]), mk(V[2]), mk(V[3]), mk(V[4])}); break;
        case 6: run({mk(V[0]), mk(V[1]), mk(V[2]), mk(V[3]), mk(V[4]), mk(V[5])}); break;
        default: V.resize(7); run({mk(V[0]), mk(V[1]), mk(V[2]), mk(V[3]), mk(V[4]), mk(V[5]), mk(V[6])}); break;
      }
    }
  }
  void line(std::string const& ln);
  void exec(std::string const& op);
  void reset_all();
  void finish_history();

  // probes, defined in probes.hpp
  void op_idx(Ev& e, int s);
  void op_its(Ev& e, int s);
  void op_seg(Ev& e, int s);
  void op_pur(Ev& e, int s);
  void op_wr(Ev& e);
};

template <typename Seq> void Interp<Seq>::reset_all() {
  for (int s = 1; s <= NS; ++s) if (sl[s].live) { S(s).~Seq(); sl[s].live = false; }
}

template <typename Seq> void Interp<Seq>::line(std::string const& ln) {
  // op n n n ... [: v v v]
  size_t i = 0;
  auto skip = [&] { while (i < ln.size() && ln[i] == ' ') ++i; };
  skip();
  size_t b = i;
  while (i < ln.size() && ln[i] != ' ') ++i;
  std::string op = ln.substr(b, i - b);
  L.clear();
  V.clear();
  bool vals = false;
  while (true) {
    skip();
    if (i >= ln.size()) break;
    if (ln[i] == ':') { vals = true; ++i; continue; }
    char* e;
    long x = strtol(ln.c_str() + i, &e, 10);
    if (e == ln.c_str() + i) break;
    i = (size_t)(e - ln.c_str());
    if (vals) V.push_back((int)x); else L.push_back(x);
  }
  if (op.empty() || op[0] == '#') return;
  exec(op);
}

template <typename Seq> void Interp<Seq>::exec(std::string const& op) {
  Ev e;
  e.op = op;
  if (op == "F") { fk = (int)arg(0); fn = arg(1); return; }
  if (op == "T") { G().no_temp = arg(0) != 0; return; }
  if (op == "Q") { quiet = arg(0) != 0; return; }
  if (op == "snap") {  // adopt: log the state reached silently
    begin_op();
    e.a = L;
    emit(e);
    return;
  }
  int s = (int)arg(0);
  auto N = [&](int k) { return (long)S(k).size(); };

  // ------------------------------------------------ single edits
  if (op == "ins") {  // s p mode v way
    if (!ok(s)) return;
    long way = arg(4), p = posn(s, arg(1), N(s) + 1, way), mode = arg(2), v = arg(3);
    e.w = way;
    if (!CP && mode == 0) mode = 1;
    e.a = {s, p, mode, v};
    CIt pos = at(s, p, way);
    if (mode == 0) {
      if constexpr (CP) { E x((int)v); bare(e, [&] { setit(e, s, S(s).insert(pos, (E const&)x)); }); }
    } else if (mode == 1) {
      E x((int)v);
      bare(e, [&] { setit(e, s, S(s).insert(pos, std::move(x))); });
    } else if (mode == 2) {
      int x = (int)v;
      bare(e, [&] { setit(e, s, S(s).emplace(pos, x)); });
    } else if (mode == 3) {
      E x((int)v);
      bare(e, [&] { setit(e, s, S(s).emplace(pos, std::move(x))); });
    } else if (mode == 4) {
      bare(e, [&] { setit(e, s, S(s).emplace(pos)); });
    }
    finish_edit(e, s);
    return;
  }
  if (op == "push") {  // s mode v : 0 back copy 1 back move 2 emplace back 3 front copy 4 front move 5 emplace front
    if (!ok(s)) return;
    long mode = arg(1), v = arg(2);
    if (!CP && mode % 3 == 0) mode += 1;
    e.a = {s, mode, v};
    if (mode % 3 == 2) {
      int x = (int)v;
      bare(e, [&] { if (mode == 2) S(s).emplace_back(x); else S(s).emplace_front(x); });
    } else {
      E x((int)v);
      bare(e, [&] {
        if (mode == 1) S(s).push_back(std::move(x));
        else if (mode == 4) S(s).push_front(std::move(x));
        else if constexpr (CP) { if (mode == 0) S(s).push_back((E const&)x); else S(s).push_front((E const&)x); }
      });
    }
    finish_edit(e, s);
    return;
  }
  if (op == "insa") {  // s p mode q way: argument is element q of the same container
    if (!ok(s) || N(s) == 0) return;
    if constexpr (CP) {
      long way = arg(4), p = posn(s, arg(1), N(s) + 1, way), mode = arg(2), q = modp(arg(3), N(s));
      if (mode >= 2) way = 0;
      e.w = way;
      if (mode >= 2) p = (mode == 2 || mode == 4) ? N(s) : 0;
      e.a = {s, p, mode, q};
      CIt pos = at(s, p, way);
      E const& x = *S(s).nth((size_t)q);
      bare(e, [&] {
        switch (mode) {
          case 0: setit(e, s, S(s).insert(pos, x)); break;
          case 1: setit(e, s, S(s).emplace(pos, x)); break;
          case 2: S(s).push_back(x); break;
          case 3: S(s).push_front(x); break;
          case 4: S(s).emplace_back(x); break;
          case 5: S(s).emplace_front(x); break;
        }
      });
      finish_edit(e, s);
    }
    return;
  }
  if (op == "er") {  // s p way
    if (!ok(s) || N(s) == 0) return;
    long way = arg(2), p = posn(s, arg(1), N(s), way);
    e.a = {s, p};
    e.w = way;
    CIt pos = at(s, p, way);
    bare(e, [&] { setit(e, s, S(s).erase(pos)); });
    finish_edit(e, s);
    return;
  }
  if (op == "pop") {  // s which
    if (!ok(s) || N(s) == 0) return;
    e.a = {s, arg(1)};
    bare(e, [&] { if (arg(1) == 0) S(s).pop_back(); else S(s).pop_front(); });
    finish_edit(e, s);
    return;
  }
  // ------------------------------------------------ bulk edits
  if (op == "insn") {  // s p n v way
    if (!ok(s)) return;
    if constexpr (CP) {
      long way = arg(4), p = posn(s, arg(1), N(s) + 1, way), n = arg(2);
      e.a = {s, p, n, arg(3)};
      e.w = way;
      CIt pos = at(s, p, way);
      {
        E x((int)arg(3));
        bare(e, [&] { setit(e, s, S(s).insert(pos, (CountT)n, x)); });
      }
      finish_edit(e, s);
    }
    return;
  }
  if (op == "insna") {  // s p n q way
    if (!ok(s) || N(s) == 0) return;
    if constexpr (CP) {
      long way = arg(4), p = posn(s, arg(1), N(s) + 1, way), n = arg(2), q = modp(arg(3), N(s));
      e.a = {s, p, n, q};
      e.w = way;
      CIt pos = at(s, p, way);
      E const& x = *S(s).nth((size_t)q);
      bare(e, [&] { setit(e, s, S(s).insert(pos, (CountT)n, x)); });
      finish_edit(e, s);
    }
    return;
  }
  if (op == "insr") {  // s p kind way : values   kind 0 input 1 list 2 pointer 3 move 4 initializer_list 6..8 elements made when read, bidirectional/random-access/forward
    if (!ok(s)) return;
    long way = arg(3), p = posn(s, arg(1), N(s) + 1, way), kind = arg(2);
    e.w = way;
    if (!CP && kind != 3 && kind != 0 && kind < 6) kind = 3;
    if (kind == 4 && V.size() > 7) V.resize(7);
    e.a = {s, p, kind};
    e.vs = V;
    CIt pos = at(s, p, way);
    guarded(e, [&] {
      if (kind == 4) { if constexpr (CP) with_il([&](std::initializer_list<E> il) { setit(e, s, S(s).insert(pos, il)); }); }
      else with_source(e, kind, [&](auto f, auto l) { setit(e, s, S(s).insert(pos, f, l)); });
    });
    finish_edit(e, s);
    return;
  }
  if (op == "inss") {  // s p o q r way: insert the range [q,r) of another container (copies)
    int o = (int)arg(2);
    if (!ok(s) || !ok(o) || o == s) return;
    if constexpr (CP) {
      long way = arg(5), p = posn(s, arg(1), N(s) + 1, way), q = modp(arg(3), N(o) + 1), r = modp(arg(4), N(o) + 1);
      if (q > r) std::swap(q, r);
      e.a = {s, p, o, q, r};
      e.w = way;
      CIt pos = at(s, p, way);
      guarded(e, [&] { setit(e, s, S(s).insert(pos, S(o).nth((size_t)q), S(o).nth((size_t)r))); });
      finish_edit(e, s);
    }
    return;
  }
  if (op == "err") {  // s p q way
    if (!ok(s)) return;
    long way = arg(3), p = posn(s, arg(1), N(s) + 1, way), q = modp(arg(2), N(s) + 1);
    long wp = way, wq = way >= 7 ? 0 : way;
    if (p > q) { std::swap(p, q); std::swap(wp, wq); }
    e.a = {s, p, q};
    e.w = way;
    CIt a = at(s, p, wp), b = at(s, q, wq);
    bare(e, [&] { setit(e, s, S(s).erase(a, b)); });
    finish_edit(e, s);
    return;
  }
  if (op == "asn" || op == "asna") {  // s n v / s n q
    if (!ok(s)) return;
    if constexpr (CP) {
      if (op == "asn") {
        e.a = {s, arg(1), arg(2)};
        E x((int)arg(2));
        bare(e, [&] { S(s).assign((CountT)arg(1), x); });
      } else {
        if (N(s) == 0) return;
        long q = modp(arg(2), N(s));
        e.a = {s, arg(1), q};
        E const& x = *S(s).nth((size_t)q);
        bare(e, [&] { S(s).assign((CountT)arg(1), x); });
      }
      finish_edit(e, s);
    }
    return;
  }
  if (op == "asr") {  // s kind : values    kind 0..4, 5 = operator=(initializer_list)
    if (!ok(s)) return;
    long kind = arg(1);
    if (!CP && kind != 3 && kind != 0 && kind < 6) kind = 3;
    if ((kind == 4 || kind == 5) && V.size() > 7) V.resize(7);
    e.a = {s, kind};
    e.vs = V;
    guarded(e, [&] {
      if (kind == 4 || kind == 5) { if constexpr (CP) with_il([&](std::initializer_list<E> il) {
        if (kind == 4) S(s).assign(il); else { Seq& r = (S(s) = il); if (&r != &S(s)) G().anom("operator= returns another object"); } }); }
      else with_source(e, kind, [&](auto f, auto l) { S(s).assign(f, l); });
    });
    finish_edit(e, s);
    return;
  }
  if (op == "res") {  // s n
    if (!ok(s)) return;
    e.a = {s, arg(1)};
    bare(e, [&] {
      if constexpr (CP) S(s).resize((size_t)arg(1)); else S(s).resize((size_t)arg(1));
    });
    finish_edit(e, s);
    return;
  }
  if (op == "resv" || op == "resa") {  // s n v / s n q
    if (!ok(s)) return;
    if constexpr (CP) {
      if (op == "resv") {
        e.a = {s, arg(1), arg(2)};
        E x((int)arg(2));
        bare(e, [&] { S(s).resize((size_t)arg(1), x); });
      } else {
        if (N(s) == 0) return;
        long q = modp(arg(2), N(s));
        e.a = {s, arg(1), q};
        E const& x = *S(s).nth((size_t)q);
        bare(e, [&] { S(s).resize((size_t)arg(1), x); });
      }
      finish_edit(e, s);
    }
    return;
  }
  if (op == "clr") {
    if (!ok(s)) return;
    e.a = {s};
    bare(e, [&] { S(s).clear(); });
    finish_edit(e, s);
    return;
  }
  // ------------------------------------------------ construction
  if (op == "mk" || op == "mkz" || op == "mkn" || op == "mkd" || op == "mkr" || op == "cpc" || op == "cpca" || op == "mvc" || op == "mvca") {
    if (s < 1 || s > NS || sl[s].live) return;
    void* at_ = (void*)sl[s].p;
    memset(at_, 0x5c, sizeof(Seq) + 64);
    int o = (int)arg(1);
    bool xfer = op == "mvc" || (op == "mvca" && ok(o) && Al((int)arg(2)) == S(o).get_allocator());
    if (op == "mkz") { e.a = {s}; bare(e, [&] { new (at_) Seq(); }); }
    else if (op == "mk") { e.a = {s, arg(1)}; Al al((int)arg(1)); bare(e, [&] { new (at_) Seq(al); }); }
    else if (op == "mkn") {
      if constexpr (CP) { e.a = {s, arg(1), arg(2), arg(3)}; Al al((int)arg(1)); { E x((int)arg(3)); guarded(e, [&] { new (at_) Seq((CountT)arg(2), x, al); }); } }
      else return;
    } else if (op == "mkd") { e.a = {s, arg(1), arg(2)}; Al al((int)arg(1)); guarded(e, [&] { new (at_) Seq((size_t)arg(2), al); }); }
    else if (op == "mkr") {
      long kind = arg(2);
      if (!CP && kind != 3 && kind != 0 && kind < 6) kind = 3;
      if (kind == 4 && V.size() > 7) V.resize(7);
      e.a = {s, arg(1), kind};
      e.vs = V;
      Al al((int)arg(1));
      guarded(e, [&] {
        if (kind == 4) { if constexpr (CP) with_il([&](std::initializer_list<E> il) { new (at_) Seq(il, al); }); }
        else with_source(e, kind, [&](auto f, auto l) { new (at_) Seq(f, l, al); });
      });
    } else {
      if (!ok(o) || o == s) return;
      if (op == "cpc") { if constexpr (CP) { e.a = {s, o}; bare(e, [&] { new (at_) Seq((Seq const&)S(o)); }); } else return; }
      else if (op == "cpca") { if constexpr (CP) { e.a = {s, o, arg(2)}; Al al((int)arg(2)); guarded(e, [&] { new (at_) Seq((Seq const&)S(o), al); }); } else return; }
      else if (op == "mvc") { e.a = {s, o}; bare(e, [&] { new (at_) Seq(std::move(S(o))); }); }
      else { e.a = {s, o, arg(2)}; Al al((int)arg(2)); bare(e, [&] { new (at_) Seq(std::move(S(o)), al); }); }
    }
    if (e.out == "ok") {
      sl[s].live = true;
      if (op == "mvc" || op == "mvca") rehold(o, s, xfer);
    } else if (op == "mvca") drop_held(o);
    emit(e);
    return;
  }
  if (op == "dt") {
    if (!ok(s)) return;
    e.a = {s};
    drop_held(s);
    bare(e, [&] { S(s).~Seq(); });
    sl[s].live = false;
    emit(e);
    return;
  }
  // ------------------------------------------------ whole-container operations
  if (op == "cpa") {
    int o = (int)arg(1);
    if (!ok(s) || !ok(o)) return;
    if constexpr (CP) {
      e.a = {s, o};
      bare(e, [&] { Seq& r = (S(s) = (Seq const&)S(o)); if (&r != &S(s)) G().anom("operator= returns another object"); });
      if (s != o) drop_held(s);
      emit(e);
    }
    return;
  }
  if (op == "mva") {
    int o = (int)arg(1);
    if (!ok(s) || !ok(o) || s == o) return;
    e.a = {s, o};
    drop_held(s);
    bool xfer = std::allocator_traits<Al>::propagate_on_container_move_assignment::value || S(s).get_allocator() == S(o).get_allocator();
    bare(e, [&] { Seq& r = (S(s) = std::move(S(o))); if (&r != &S(s)) G().anom("operator= returns another object"); });
    rehold(o, s, xfer);
    emit(e);
    return;
  }
  if (op == "swp") {  // s o free
    int o = (int)arg(1);
    if (!ok(s) || !ok(o)) return;
    // not allowed between unequal allocators that do not take part
    if (!std::allocator_traits<Al>::propagate_on_container_swap::value && S(s).get_allocator() != S(o).get_allocator()) return;
    e.a = {s, o, arg(2)};
    bare(e, [&] { if (arg(2)) { using std::swap; swap(S(s), S(o)); } else S(s).swap(S(o)); });
    if (s != o) for (auto& h : held) if (h.on) { if (h.s == s) h.s = o; else if (h.s == o) h.s = s; }
    emit(e);
    return;
  }
  // ------------------------------------------------ splice, merge, algorithms
  if (op == "spl") {  // s p o rv way
    int o = (int)arg(2);
    if (!ok(s) || !ok(o) || s == o) return;
    long way = arg(4), p = posn(s, arg(1), N(s) + 1, way);
    e.a = {s, p, o, arg(3)};
    e.w = way;
    CIt pos = at(s, p, way);
    bare(e, [&] { if (arg(3)) S(s).splice(pos, std::move(S(o))); else S(s).splice(pos, S(o)); });
    drop_held(o);
    finish_edit(e, s);
    return;
  }
  if (op == "sp1") {  // s p o q rv way
    int o = (int)arg(2);
    if (!ok(s) || !ok(o) || s == o || N(o) == 0) return;
    long way = arg(5), p = posn(s, arg(1), N(s) + 1, way), q = modp(arg(3), N(o));
    e.a = {s, p, o, q, arg(4)};
    e.w = way;
    CIt pos = at(s, p, way), it = at(o, q, way >= 7 ? 0 : way);
    bare(e, [&] { if (arg(4)) S(s).splice(pos, std::move(S(o)), it); else S(s).splice(pos, S(o), it); });
    drop_held(o);
    finish_edit(e, s);
    return;
  }
  if (op == "spr") {  // s p o q r rv way
    int o = (int)arg(2);
    if (!ok(s) || !ok(o) || s == o) return;
    long w = arg(6), p = posn(s, arg(1), N(s) + 1, w), q = modp(arg(3), N(o) + 1), r = modp(arg(4), N(o) + 1);
    if (q > r) std::swap(q, r);
    e.a = {s, p, o, q, r, arg(5)};
    e.w = w;
    CIt pos = at(s, p, w), a = at(o, q, w >= 7 ? 0 : w), b = at(o, r, w >= 7 ? 0 : w);
    bare(e, [&] { if (arg(5)) S(s).splice(pos, std::move(S(o)), a, b); else S(s).splice(pos, S(o), a, b); });
    drop_held(o);
    finish_edit(e, s);
    return;
  }
  if (op == "mrg") {  // s o rv cmp : 0 natural 1 descending 2 key mod 3 
    int o = (int)arg(1);
    if (!ok(s) || !ok(o) || s == o) return;
    e.a = {s, o, arg(2), arg(3)};
    bool rv = arg(2) != 0;
    guarded(e, [&] {
      switch (arg(3)) {
        case 0: if (rv) S(s).merge(std::move(S(o))); else S(s).merge(S(o)); break;
        case 1: if (rv) S(s).merge(std::move(S(o)), CmpD{}); else S(s).merge(S(o), CmpD{}); break;
        default: if (rv) S(s).merge(std::move(S(o)), CmpM{}); else S(s).merge(S(o), CmpM{}); break;
      }
    });
    drop_held(o);
    finish_edit(e, s);
    return;
  }
  if (op == "rem") {  // s v
    if (!ok(s)) return;
    e.a = {s, arg(1)};
    {
      E x((int)arg(1));
      bare(e, [&] { S(s).remove(x); });
    }
    finish_edit(e, s);
    return;
  }
  if (op == "remif") {  // s m k : key % m == k
    if (!ok(s)) return;
    long m = arg(1), k = arg(2);
    e.a = {s, m, k};
    std::vector<long> calls;
    bare(e, [&] { S(s).remove_if([&](E const& x) { cmp_tick(); { Quiet quiet; calls.push_back(ET<E>::val(x)); } return ((keyof(ET<E>::val(x)) % m) + m) % m == k; }); });
    e.rd = calls;
    finish_edit(e, s);
    return;
  }
  if (op == "uni") {  // s mode: 0 natural, 1 key/2 equal, 2 a.key+1==b.key (not symmetric), 3 |difference| <= 1
    if (!ok(s)) return;
    long mode = arg(1);
    e.a = {s, mode};
    std::vector<long> calls;
    bare(e, [&] {
      if (mode == 0) { S(s).unique(); return; }
      S(s).unique([&](E const& a, E const& b) {
        cmp_tick();
        Quiet quiet;
        calls.push_back(ET<E>::val(a));
        calls.push_back(ET<E>::val(b));
        long x = keyof(ET<E>::val(a)), y = keyof(ET<E>::val(b));
        if (mode == 1) return (x >> 1) == (y >> 1);
        if (mode == 2) return x + 1 == y;
        return x - y <= 1 && y - x <= 1;
      });
    });
    e.rd = calls;
    finish_edit(e, s);
    return;
  }
  if (op == "rev") {
    if (!ok(s)) return;
    e.a = {s};
    bare(e, [&] { S(s).reverse(); });
    emit(e);
    return;
  }
  if (op == "srt") {  // s cmp
    if (!ok(s)) return;
    e.a = {s, arg(1)};
    guarded(e, [&] {
      switch (arg(1)) {
        case 0: S(s).sort(); break;
        case 1: S(s).sort(CmpD{}); break;
        default: S(s).sort(CmpM{}); break;
      }
    });
    if (e.out != "ok") drop_held(s);
    emit(e);
    return;
  }
  if (op == "cmp") {  // s o
    int o = (int)arg(1);
    if (!ok(s) || !ok(o)) return;
    e.a = {s, o};
    Seq const &x = S(s), &y = S(o);
    guarded(e, [&] { e.r = {x == y, x != y, x < y, x <= y, x > y, x >= y}; });
    emit(e);
    return;
  }
  // ------------------------------------------------ iterators and observers
  if (op == "hold") {  // h s p
    int h = (int)arg(0);
    s = (int)arg(1);
    if (h < 1 || h > NH || !ok(s)) return;
    long p = modp(arg(2), N(s) + 1);
    if (p == N(s)) { if (p == 0) return; p = p - 1; }
    held[h].on = true;
    held[h].s = s;
    held[h].it = S(s).nth((size_t)p);
    e.a = {h, s, p};
    begin_op();
    emit(e);
    return;
  }
  if (op == "chk") {  // h: probe a held iterator in the container that owns its element now
    int h = (int)arg(0);
    if (h < 1 || h > NH || !held[h].on) return;
    begin_op();
    e.a = {h, held[h].s};
    setit(e, held[h].s, held[h].it);
    emit(e);
    return;
  }
  if (op == "eh" || op == "ih") {  // h: erase at / h v: insert before a held iterator
    int h = (int)arg(0);
    if (h < 1 || h > NH || !held[h].on) return;
    int hs = held[h].s;
    It it = held[h].it;
    e.a = {h, hs, arg(1)};
    if (op == "eh") bare(e, [&] { setit(e, hs, S(hs).erase(it)); });
    else { int x = (int)arg(1); bare(e, [&] { setit(e, hs, S(hs).emplace(it, x)); }); }
    finish_edit(e, hs);
    return;
  }
  if (op == "empf") {  // s p form: value category of forwarded arguments; logs constructors run
    if (!ok(s)) return;
    if constexpr (std::is_same<E, Tr>::value) {
      long p = modp(arg(1), N(s) + 1), form = arg(2);
      e.a = {s, p, form, arg(3)};
      CIt pos = at(s, p, 0);
      int v = (int)arg(3);
      Arg a(v);
      Arg const ca(v);
      Arg2 b(v);
      Arg c0(0), c1(0);
      G().ctor_log.clear();
      guarded(e, [&] {
        G().log_ctor = true;
        switch (form) {
          case 0: setit(e, s, S(s).emplace(pos, a)); break;
          case 1: setit(e, s, S(s).emplace(pos, ca)); break;
          case 2: setit(e, s, S(s).emplace(pos, std::move(a))); break;
          case 3: setit(e, s, S(s).emplace(pos, a, 0)); break;
          case 4: setit(e, s, S(s).emplace(pos, std::move(a), 0)); break;
          case 5: setit(e, s, S(s).emplace(pos, std::move(b), (Arg const&)c0, c1)); break;
          case 6: setit(e, s, S(s).emplace(pos)); break;
          case 10: S(s).emplace_back(a); break;
          case 11: S(s).emplace_back(ca); break;
          case 12: S(s).emplace_back(std::move(a)); break;
          case 15: S(s).emplace_back(std::move(b), (Arg const&)c0, c1); break;
          case 20: S(s).emplace_front(a); break;
          case 21: S(s).emplace_front(ca); break;
          case 22: S(s).emplace_front(std::move(a)); break;
          case 25: S(s).emplace_front(std::move(b), (Arg const&)c0, c1); break;
        }
      });
      G().log_ctor = false;
      for (int x : G().ctor_log) if (x != 4) e.rd.push_back(x);
      e.r = {a.v, ca.v, b.v};
      finish_edit(e, s);
    }
    return;
  }
  if (op == "wr") { if (ok(s)) op_wr(e); return; }
  if (op == "idx" || op == "its" || op == "seg" || op == "pur") {
    if (!ok(s)) return;
    e.fk = fk;
    e.fn = fn;
    if (op == "pur") fk = 0;
    arm();
    fk = 0;
    fn = 0;
    if (op == "idx") op_idx(e, s);
    else if (op == "its") op_its(e, s);
    else if (op == "seg") op_seg(e, s);
    else op_pur(e, s);
    emit(e);
    return;
  }
  if (op == "end") { finish_history(); return; }
  fprintf(stderr, "unknown op %s\n", op.c_str());
  _exit(96);
}
}  // namespace vh
#include "probes.hpp"
