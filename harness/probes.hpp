// Observation of access, iterator and segment interfaces.  Every probe records
// what the container answered as rows of integers; equal rows are recorded
// once.  An element is named by its ordinal in iteration order (by address).
#pragma once
namespace vh {

template <typename Seq> struct AddrMap {
  std::unordered_map<void const*, long> m;
  long operator()(void const* p) const { auto i = m.find(p); return i == m.end() ? -1 : i->second; }
};
template <typename Seq, typename I> AddrMap<Seq> addr_map(I& in, int s) {
  AddrMap<Seq> a;
  auto v = in.addresses(s);
  for (size_t i = 0; i < v.size(); ++i) a.m[v[i]] = (long)i;
  return a;
}
template <typename X> void const* ad(X const& x) { return (void const*)std::addressof(x); }

template <typename F> bool throws_oor(F f) {
  try { f(); } catch (std::out_of_range&) { return true; } catch (...) { return false; }
  return false;
}

// idx: x = [positions rows, value rows, index rows, flags]
template <typename Seq> void Interp<Seq>::op_idx(Ev& e, int s) {
  Seq& q = S(s);
  Seq const& c = q;
  long n = (long)q.size();
  e.a = {s};
  auto am = addr_map<Seq>(*this, s);
  Rows ar, vr, ir, fl;
  auto rows = [&](auto get) {
    Row a, v;
    for (long i = 0; i < n; ++i) { auto const& x = get((size_t)i); a.push_back(am(ad(x))); v.push_back(vv(x)); }
    add_row(ar, a);
    add_row(vr, v);
  };
  rows([&](size_t i) -> E const& { return q[i]; });
  rows([&](size_t i) -> E const& { return c[i]; });
  rows([&](size_t i) -> E const& { return q.at(i); });
  rows([&](size_t i) -> E const& { return c.at(i); });
  rows([&](size_t i) -> E const& { return *q.nth(i); });
  rows([&](size_t i) -> E const& { return *c.nth(i); });
  rows([&](size_t i) -> E const& { return *(q.begin() + (long)i); });
  rows([&](size_t i) -> E const& { return *(c.cbegin() + (long)i); });
  rows([&](size_t i) -> E const& { return q.begin()[(long)i]; });
  rows([&](size_t i) -> E const& { return *(q.end() - (n - (long)i)); });
  rows([&](size_t i) -> E const& { return *q.nth(i).operator->(); });
  {
    Row r1, r2, r3;
    for (long i = 0; i <= n + 2; ++i) {
      r1.push_back((long)q.index_of(q.nth((size_t)i)));
      r2.push_back((long)c.index_of(c.nth((size_t)i)));
      r3.push_back((long)c.index_of(q.nth((size_t)i)));
    }
    add_row(ir, r1); add_row(ir, r2); add_row(ir, r3);
  }
  // flags row: size, empty, distance, end index, penultimate index, front/back ordinals, at() beyond the end, nth beyond the end
  auto mk = [&](bool cst) {
    Row f;
    f.push_back((long)c.size());
    f.push_back(c.empty());
    f.push_back(cst ? (long)(c.end() - c.begin()) : (long)(q.end() - q.begin()));
    f.push_back(cst ? (long)c.index_of(c.cend()) : (long)q.index_of(q.end()));
    f.push_back(cst ? (long)c.index_of(c.begin()) : (long)q.index_of(q.begin()));
    f.push_back(n ? (cst ? (long)c.index_of(c.penultimate()) : (long)q.index_of(q.penultimate())) : -1);
    f.push_back(n ? (cst ? am(ad(c.front())) : am(ad(q.front()))) : -1);
    f.push_back(n ? (cst ? am(ad(c.back())) : am(ad(q.back()))) : -1);
    f.push_back(n ? (cst ? am(ad(*c.cpenultimate())) : am(ad(*q.penultimate()))) : -1);
    long th = 0, tot = 0;
    for (size_t x : {(size_t)n, (size_t)n + 1, (size_t)n + 7, (size_t)-1, (size_t)1 << 63, ((size_t)1 << 32) + (size_t)n, (size_t)1 << 32}) {
      if ((size_t)(typename Seq::size_type)x != x) continue;  // not a position of a narrow size type
      ++tot;
      th += cst ? throws_oor([&] { (void)c.at(x); }) : throws_oor([&] { (void)q.at(x); });
    }
    f.push_back(tot - th);
    long ne = 0;
    for (long i = 0; i < n; ++i) ne += cst ? c.nth((size_t)i) == c.end() : q.nth((size_t)i) == q.end();
    for (size_t x : {(size_t)n, (size_t)n + 1, (size_t)n + 9, (size_t)-1, (size_t)1 << 63, ((size_t)1 << 32) + (size_t)n, (size_t)1 << 32})
      if ((size_t)(typename Seq::size_type)x == x)
      ne += cst ? c.nth(x) != c.end() : q.nth(x) != q.end();
    f.push_back(ne);
    f.push_back(c.max_size() >= c.size() && c.max_size() > 0);
    return f;
  };
  add_row(fl, mk(false));
  add_row(fl, mk(true));
  e.x = "[" + rows_json(ar) + "," + (O().runs ? "[]" : rows_json(vr)) + "," + rows_json(ir) + "," + rows_json(fl) + "]";
}

// its: x = [rows of positions, rows of ordinals, rows of previous ordinals, rows of i - (it_i - it_j), code sets, reverse rows]
template <typename Seq> void Interp<Seq>::op_its(Ev& e, int s) {
  Seq& q = S(s);
  Seq const& c = q;
  long n = (long)q.size();
  e.a = {s};
  auto am = addr_map<Seq>(*this, s);
  Rows pr, orr, br, dr, rr;
  std::set<long> lt, eq, gt;
  std::vector<long> starts;
  long cap = arg(1, 40);
  if (n <= cap) for (long i = 0; i <= n; ++i) starts.push_back(i);
  else { for (long k = 0; k < cap; ++k) starts.push_back((n * k) / (cap - 1)); }
  bool all = n <= cap;
  auto walk = [&](auto go) {  // go(i, j) gives an iterator at j
    for (long i : starts) {
      Row p, o, b;
      for (long j = 0; j <= n; ++j) {
        if (!all && j != 0 && j != n && (j * 7 + i) % 5 && j % 64) { p.push_back(j); if (j < n) o.push_back(j); if (j) b.push_back(j - 1); continue; }
        auto it = go(i, j);
        p.push_back((long)q.index_of(CIt(it)));
        if (j < n) o.push_back(am(ad(*it)));
        if (j > 0) { auto k = it; --k; b.push_back(am(ad(*k))); if ((long)q.index_of(CIt(k)) != j - 1) b.back() = -2; }
        if (j < n) { auto k = it; ++k; if ((long)q.index_of(CIt(k)) != j + 1 || (j + 1 < n && am(ad(*k)) != j + 1)) o.back() = -3; }
      }
      add_row(pr, p);
      add_row(orr, o);
      add_row(br, b);
    }
  };
  walk([&](long i, long j) { auto it = q.nth((size_t)i); it += j - i; return it; });
  walk([&](long i, long j) { auto it = q.nth((size_t)i); it -= i - j; return it; });
  walk([&](long i, long j) { return q.nth((size_t)i) + (j - i); });
  walk([&](long i, long j) { return (j - i) + q.nth((size_t)i); });
  walk([&](long i, long j) { return q.nth((size_t)i) - (i - j); });
  walk([&](long i, long j) { auto it = c.nth((size_t)i); it += j - i; return it; });
  walk([&](long i, long j) { return c.nth((size_t)i) - (i - j); });
  if (n <= 48) {
    walk([&](long i, long j) { auto it = q.nth((size_t)i); for (; i < j; ++i) ++it; for (; i > j; --i) --it; return it; });
    walk([&](long i, long j) { CIt it = q.nth((size_t)i); for (; i < j; ++i) it++; for (; i > j; --i) it--; return it; });
    walk([&](long i, long j) { auto it = q.nth((size_t)i); auto old = it; if (i < j) { old = it++; --it; } else if (i > j) { old = it--; ++it; }
                               return old + (j - i); });
  }
  walk([&](long i, long j) { auto r = typename Seq::reverse_iterator(q.nth((size_t)i)); r += i - j; return r.base(); });
  walk([&](long i, long j) { auto r = typename Seq::const_reverse_iterator(c.nth((size_t)i)); return (r - (j - i)).base(); });
  // indexing
  for (long i : starts) {
    Row o;
    for (long j = 0; j < n; ++j) o.push_back(am(ad(q.nth((size_t)i)[j - i])));
    add_row(orr, o);
    if (n <= 48) {
      Row o2;
      for (long j = 0; j < n; ++j) o2.push_back(am(ad(c.nth((size_t)i)[j - i])));
      add_row(orr, o2);
    }
  }
  // differences and order
  for (long i : starts) {
    Row d;
    for (long j = 0; j <= n; ++j) {
      It a = q.nth((size_t)i);
      CIt a2 = c.nth((size_t)i);
      It b = q.nth((size_t)j);
      CIt b2 = c.nth((size_t)j);
      long x = (long)(a - b), y = (long)(a2 - b2);
      d.push_back(x == y ? i - x : -99);
      long code = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
      long code2 = (a2 == b2) | (a2 != b2) << 1 | (a2 < b2) << 2 | (a2 <= b2) << 3 | (a2 > b2) << 4 | (a2 >= b2) << 5;
      (i < j ? lt : i == j ? eq : gt).insert(code);
      (i < j ? lt : i == j ? eq : gt).insert(code2);
    }
    add_row(dr, d);
  }
  // reverse traversal
  {
    Row r1, r2, r3;
    long k = 0;
    for (auto r = q.rbegin(); r != q.rend() && k <= n; ++r, ++k) r1.push_back(am(ad(*r)));
    k = 0;
    for (auto r = c.rbegin(); r != c.rend() && k <= n; r++, ++k) r2.push_back(am(ad(*r)));
    k = 0;
    for (auto r = c.crbegin(); r != c.crend() && k <= n; r += 1, ++k) r3.push_back(am(ad(*r)));
    std::reverse(r1.begin(), r1.end());
    std::reverse(r2.begin(), r2.end());
    std::reverse(r3.begin(), r3.end());
    add_row(rr, r1); add_row(rr, r2); add_row(rr, r3);
    Row f1, f2, f3;
    for (auto i = q.begin(); i != q.end() && (long)f1.size() <= n; ++i) f1.push_back(am(ad(*i)));
    for (auto i = c.cbegin(); i != c.cend() && (long)f2.size() <= n; i++) f2.push_back(am(ad(*i.operator->())));
    for (auto i = q.end(); i != q.begin() && (long)f3.size() <= n;) f3.push_back(am(ad(*--i)));
    std::reverse(f3.begin(), f3.end());
    add_row(rr, f1); add_row(rr, f2); add_row(rr, f3);
  }
  Rows codes{Row(lt.begin(), lt.end()), Row(eq.begin(), eq.end()), Row(gt.begin(), gt.end())};
  auto enc = [&](Rows const& r) {
    // rows as runs of consecutive integers
    std::string o = "[";
    for (size_t i = 0; i < r.size(); ++i) { if (i) o += ','; o += rows_json(runs_of(r[i])); }
    return o + "]";
  };
  e.x = "[" + enc(pr) + "," + enc(orr) + "," + enc(br) + "," + enc(dr) + "," + rows_json(codes) + "," + enc(rr) + "]";
}

// seg: x = [begin rows, current rows, end rows, after rows, before rows, content rows, counted-after failures, counted-before failures]
// Entry i (0..n) of a row belongs to the iterator at position i.
template <typename Seq> void Interp<Seq>::op_seg(Ev& e, int s) {
  Seq& q = S(s);
  Seq const& c = q;
  long n = (long)q.size();
  e.a = {s};
  auto am = addr_map<Seq>(*this, s);
  Rows be, cu, en, af, bf, ct, ac, bc;
  if (n == 0) { e.x = "[[],[],[],[],[],[],[],[]]"; return; }
  auto last = [&](auto p) { return am(rawp((p - 1))); };
  auto gather = [&](auto get) {
    Row b, k, en_, tl;
    for (long i = 0; i <= n; ++i) {
      auto it = get((size_t)i);
      b.push_back(am(rawp(it.begin())));
      k.push_back(i < n ? am(rawp(it.current())) : last(it.current()) + 1);
      en_.push_back(last(it.end()) + 1);
      bool good = true;
      long len = (long)(it.end() - it.begin());
      if (len <= 0 || len > n) good = false;
      else for (long t = 0; t < len; ++t) if (am(rawp((it.begin() + t))) != am(rawp(it.begin())) + t) good = false;
      tl.push_back(good);
    }
    add_row(be, b); add_row(cu, k); add_row(en, en_); add_row(ct, tl);
  };
  gather([&](size_t i) { return q.nth(i); });
  gather([&](size_t i) { return c.nth(i); });
  gather([&](size_t i) { return q.begin() + (long)i; });
  gather([&](size_t i) { return q.end() - (n - (long)i); });
  // moved iterators: position and element must agree, and so must the way back and forth from there
  auto where = [&](auto it) -> long {
    long p = (long)q.index_of(CIt(it));
    if (p < 0 || p > n) return -1;
    if (p < n && am(ad(*it)) != p) return -2;
    auto k = it;
    if (p > 0) { --k; if ((long)q.index_of(CIt(k)) != p - 1 || am(ad(*k)) != p - 1) return -3; }
    k = it;
    if (p < n) { ++k; if ((long)q.index_of(CIt(k)) != p + 1 || (p + 1 < n && am(ad(*k)) != p + 1)) return -4; }
    CIt f = c.nth((size_t)p);
    CIt g = it;
    if (g.begin() != f.begin() || g.end() != f.end() || g.current() != f.current()) return -5;
    return p;
  };
  auto segb = [&](long i) { return am(rawp(c.nth((size_t)i).begin())); };
  auto sege = [&](long i) { return last(c.nth((size_t)i).end()) + 1; };
  Row a1, a2, b1, b2;
  for (long i = 0; i <= n; ++i) {
    long sb = segb(i);
    if (i < n) {
      a1.push_back(where(q.nth((size_t)i).after_segment()));
      auto it = c.nth((size_t)i);
      auto& r = it.move_after_segment();
      a2.push_back(&r == &it ? where(it) : -7);
    }
    if (sb > 0) {
      b1.push_back(where(q.nth((size_t)i).before_segment()));
      auto it = c.nth((size_t)i);
      auto& r = it.move_before_segment();
      b2.push_back(&r == &it ? where(it) : -7);
    } else { b1.push_back(-100); b2.push_back(-100); }
  }
  add_row(af, a1); add_row(af, a2); add_row(bf, b1); add_row(bf, b2);
  // counted forms, all counts in range: row of (target - count) per i, equal for every count
  for (long i = 0; i < n; ++i) {
    long se = sege(i), sb = segb(i);
    std::set<long> da, db;
    long step = n > 64 ? n / 40 + 1 : 1;
    for (long k = 0; se + k <= n; k += step) {
      long w1 = where(q.nth((size_t)i).after_segment((size_t)k));
      auto it = c.nth((size_t)i);
      it.move_after_segment((size_t)k);
      long w2 = where(it);
      da.insert(w1 < 0 ? w1 - 1000 : w1 - k);
      da.insert(w2 < 0 ? w2 - 1000 : w2 - k);
    }
    for (long k = 0; sb - 1 - k >= 0; k += step) {
      long w1 = where(q.nth((size_t)i).before_segment((size_t)k));
      auto it = c.nth((size_t)i);
      it.move_before_segment((size_t)k);
      long w2 = where(it);
      db.insert(w1 < 0 ? w1 - 1000 : w1 + k);
      db.insert(w2 < 0 ? w2 - 1000 : w2 + k);
    }
    ac.push_back(Row(da.begin(), da.end()));
    bc.push_back(Row(db.begin(), db.end()));
  }
  e.x = "[" + rows_json(be) + "," + rows_json(cu) + "," + rows_json(en) + "," + rows_json(af) + "," + rows_json(bf) + "," +
        rows_json(ct) + "," + rows_json(ac) + "," + rows_json(bc) + "]";
}

// wr s j way v: write element j through one of the mutable access paths
template <typename Seq> void Interp<Seq>::op_wr(Ev& e) {
  int s = (int)arg(0);
  Seq& q = S(s);
  long n = (long)q.size();
  if (!n) return;
  long j = modp(arg(1), n), way = arg(2), v = arg(3);
  e.a = {s, j, way, v};
  guarded(e, [&] {
    switch (way) {
      case 0: ET<E>::set(q[(size_t)j], (int)v); break;
      case 1: ET<E>::set(q.at((size_t)j), (int)v); break;
      case 2: ET<E>::set((*q.nth((size_t)j)), (int)v); break;
      case 3: ET<E>::set(q.begin()[j], (int)v); break;
      case 4: ET<E>::set(*q.nth((size_t)j).operator->(), (int)v); break;
      case 5: ET<E>::set(*(q.end() - (n - j)).operator->(), (int)v); break;
      case 6: ET<E>::set((*(q.rbegin() + (n - 1 - j))), (int)v); break;
      case 7: ET<E>::set(*q.nth((size_t)j).current(), (int)v); break;
      case 8: ET<E>::set((j == 0 ? q.front() : j == n - 1 ? q.back() : q[(size_t)j]), (int)v); break;
      case 9: { auto it = q.nth((size_t)(n / 2)); ET<E>::set(it[j - n / 2], (int)v); break; }
      case 10: { auto it = q.nth((size_t)j); auto b = it.begin(); long off = (long)(it.current() - b); ET<E>::set(b[off], (int)v); break; }
      default: { auto it = q.begin(); for (long k = 0; k < j; ++k) it++; ET<E>::set(*it.operator->(), (int)v); break; }
    }
  });
  emit(e);
}

// pur: run every observer with the container and all its blocks write-protected.
// x = [[same bytes, allocations, first and second answers equal]]
template <typename Seq> void Interp<Seq>::op_pur(Ev& e, int s) {
  Seq& q = S(s);
  e.a = {s};
  long n = (long)q.size();
  int other = 0;
  for (int k = 1; k <= NS; ++k) if (k != s && sl[k].live) other = k;
  flush();
  std::string before((char*)sl[s].p, sizeof(Seq));
  std::string blk(A().main.base, A().main.used);
  size_t used = (A().main.used + 4095) & ~size_t(4095);
  if (used) mprotect(A().main.base, used, PROT_READ);
  mprotect(A().objs.base, A().objs.cap, PROT_READ);
  A().use_side = true;
  auto observe_all = [&]() {
    Row r;
    r.reserve(size_t(40 * (n + 10)));
    Watch watch;
    Seq const& c = q;
    r.push_back((long)c.size());
    r.push_back(c.empty());
    r.push_back((long)c.height());
    r.push_back((long)(c.max_size() >> 1));
    r.push_back(c.get_allocator().label);
    r.push_back(c.get_stored_allocator().label);
    for (long i = 0; i < n; ++i) {
      r.push_back(vv(q[(size_t)i])); r.push_back(vv(c[(size_t)i]));
      r.push_back(vv(q.at((size_t)i))); r.push_back(vv(c.at((size_t)i)));
      r.push_back(vv(*q.nth((size_t)i))); r.push_back(vv(*c.nth((size_t)i)));
      r.push_back((long)c.index_of(c.nth((size_t)i)));
      r.push_back((long)q.index_of(q.nth((size_t)i)));
      auto it = c.nth((size_t)i);
      r.push_back((long)(it.end() - it.begin()));
      r.push_back((long)(it.current() - it.begin()));
      r.push_back((long)c.index_of(it.after_segment()));
      if (it.begin() != c.begin().begin()) { r.push_back((long)c.index_of(it.before_segment())); r.push_back((long)c.index_of(it.before_segment(0))); }
      r.push_back((long)c.index_of(it + (n - i)));
      r.push_back((long)c.index_of(it - i));
      r.push_back(vv(it[-i]));
    }
    { Quiet quiet; r.push_back(throws_oor([&] { (void)c.at((size_t)n); })); }
    r.push_back((long)q.index_of(q.nth((size_t)n + 3)));
    if (n) { r.push_back(vv(q.front())); r.push_back(vv(c.front())); r.push_back(vv(q.back())); r.push_back(vv(c.back()));
             r.push_back(vv(*q.penultimate())); r.push_back(vv(*c.penultimate())); r.push_back(vv(*c.cpenultimate())); }
    for (auto it = q.begin(); it != q.end(); ++it) r.push_back(vv(*it));
    for (auto it = c.begin(); it != c.end(); it++) r.push_back(vv(*it));
    for (auto it = c.cend(); it != c.cbegin();) r.push_back(vv(*--it));
    for (auto it = q.rbegin(); it != q.rend(); ++it) r.push_back(vv(*it));
    for (auto it = c.crbegin(); it != c.crend(); ++it) r.push_back(vv(*it));
    r.push_back(c == c); r.push_back(c < c);
    if (other) {
      Seq const& o = S(other);
      r.push_back(c == o); r.push_back(c != o); r.push_back(c < o); r.push_back(c <= o); r.push_back(c > o); r.push_back(c >= o);
    }
    return r;
  };
  Row r1, r2, r3;
  r1 = observe_all();
  r2 = observe_all();
  long allocs = G().cnt[C_ALLOC_E] + G().cnt[C_ALLOC_N] + G().cnt[C_HEAP], frees = G().cnt[C_FREE_E] + G().cnt[C_FREE_N];
  long copies_equal = 1;
  if constexpr (CP) {
    Seq cp((Seq const&)q);
    Seq cq((Seq const&)q, q.get_allocator());
    Seq ca(q.get_allocator());
    ca = (Seq const&)q;
    copies_equal = (cp == q) && (ca == q) && (cq == q);
  }
  r3 = observe_all();
  A().use_side = false;
  mprotect(A().objs.base, A().objs.cap, PROT_READ | PROT_WRITE);
  if (used) mprotect(A().main.base, used, PROT_READ | PROT_WRITE);
  long same = before == std::string((char*)sl[s].p, sizeof(Seq)) && blk == std::string(A().main.base, A().main.used);
  Rows x{{same, allocs + frees, r1 == r2 && r2 == r3, copies_equal}};
  e.x = "[" + rows_json(x) + "]";
}

template <typename Seq> void Interp<Seq>::finish_history() {
  Ev e;
  e.op = "end";
  begin_op();
  drop_all();
  reset_all();
  A().sweep(true);
  emit(e);
  quiet = false;
  flush();
}

}  // namespace vh
