// Records runs of the workload helpers in /repo/common for WorkloadTrace.tla.
// usage: workload out seed effort
#include <boost/segmented_tree/seq.hpp>
#include <limits>
#include <map>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include "common.hpp"
#include "single.hpp"
#include "range.hpp"
#include "iterator.hpp"

static FILE* out;
static long id_ = 0;
template <typename C> std::string arr(C const& c) {
  std::string s = "[";
  bool f = true;
  for (auto const& x : c) { if (!f) s += ","; f = false; s += std::to_string((long)x); }
  return s + "]";
}
static std::string arr2(std::vector<std::vector<long>> const& c) {
  std::string s = "[";
  for (size_t i = 0; i < c.size(); ++i) s += (i ? "," : "") + arr(c[i]);
  return s + "]";
}

// Values are named in order of first appearance, so that 64-bit ones fit.
template <typename T> struct Names {
  std::map<T, long> m;
  long operator()(T x) { auto i = m.emplace(x, (long)m.size()); return i.first->second; }
  template <typename C> std::vector<long> of(C const& c) { std::vector<long> r; for (auto x : c) r.push_back((*this)(x)); return r; }
};

// A sequence that notices positions that are not valid when they are used.
template <typename T, bool Nth> struct Rec {
  using value_type = T;
  using size_type = std::size_t;
  std::vector<T> v;
  long bad = 0;
  struct iterator {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
    Rec* r; long p;
    T& operator*() const { return r->v.at((size_t)p); }
    iterator operator+(std::ptrdiff_t d) const { return {r, p + (long)d}; }
    iterator operator-(std::ptrdiff_t d) const { return {r, p - (long)d}; }
    std::ptrdiff_t operator-(iterator o) const { return p - o.p; }
    iterator& operator+=(std::ptrdiff_t d) { p += (long)d; return *this; }
    iterator& operator-=(std::ptrdiff_t d) { p -= (long)d; return *this; }
    iterator& operator++() { ++p; return *this; }
    iterator& operator--() { --p; return *this; }
    iterator operator++(int) { auto i = *this; ++p; return i; }
    iterator operator--(int) { auto i = *this; --p; return i; }
    bool operator==(iterator o) const { return p == o.p; }
    bool operator!=(iterator o) const { return p != o.p; }
    bool operator<(iterator o) const { return p < o.p; }
  };
  using const_iterator = iterator;
  using difference_type = std::ptrdiff_t;
  bool empty() const { return v.empty(); }
  iterator begin() { return {this, 0}; }
  iterator end() { return {this, (long)v.size()}; }
  size_type size() const { return v.size(); }
  bool ok(long a, long b) { if (a < 0 || b < a || b > (long)v.size()) { ++bad; return false; } return true; }
  iterator insert(iterator i, T const& x) { if (ok(i.p, i.p)) v.insert(v.begin() + i.p, x); return i; }
  template <typename It> iterator insert(iterator i, It f, It l) { if (ok(i.p, i.p)) v.insert(v.begin() + i.p, f, l); return i; }
  iterator erase(iterator i) { if (ok(i.p, i.p + 1)) v.erase(v.begin() + i.p); return i; }
  iterator erase(iterator i, iterator j) { if (ok(i.p, j.p)) v.erase(v.begin() + i.p, v.begin() + j.p); return i; }
};
template <typename T> struct RecN : Rec<T, true> {
  using typename Rec<T, true>::iterator;
  iterator nth(std::size_t p) { return {this, (long)p}; }
};

template <typename C, typename D> void ins(C& c, D const& d, bool single) { if (single) insert_single(c, d); else insert_range(c, d); }
template <typename C, typename D> void era(C& c, D const& d, bool single) { if (single) erase_single(c, d); else erase_range(c, d); }

template <typename T> using Seq = boost::segmented_tree::seq<T, std::allocator<T>, 3 * sizeof(T), 64>;
template <typename T> using Seq1 = boost::segmented_tree::seq<T, std::allocator<T>, 1, 80>;
template <typename T> using SeqD = boost::segmented_tree::seq<T>;

template <typename T> void work(std::size_t count, std::size_t size, std::uint32_t seed, bool single) {
  auto d = single ? make_insertion_data_single<T>(count, seed) : make_insertion_data_range<T>(count, size, seed);
  auto d2 = single ? make_insertion_data_single<T>(count, seed) : make_insertion_data_range<T>(count, size, seed);
  if (single) size = 1;
  Names<T> nm;
  auto v = nm.of(d.ordered);
  int same = d.indexes == d2.indexes && d.ordered == d2.ordered;
  std::string head = ",\"id\":" + std::to_string(++id_) + ",\"count\":" + std::to_string(count) + ",\"size\":" + std::to_string(size) + ",\"ix\":" + arr(d.indexes) + ",\"v\":" + arr(v);
  fprintf(out, "{\"op\":\"gen\"%s,\"same\":%d}\n", head.c_str(), same);
  fflush(out);
  for (std::size_t i = 0; i < d.indexes.size(); ++i) if (d.indexes[i] > i * size) return;  // reported above
  if (d.indexes.size() != count || d.ordered.size() != count * size) return;
  std::vector<std::vector<long>> after, fin;
  long bad = 0;
  Rec<T, false> a;
  RecN<T> b;
  ins(a, d, single); ins(b, d, single);
  after.push_back(nm.of(a.v)); after.push_back(nm.of(b.v));
  era(a, d, single); era(b, d, single);
  fin.push_back(nm.of(a.v)); fin.push_back(nm.of(b.v));
  bad = a.bad + b.bad;
  if (bad == 0) {
    auto run = [&](auto& c) { ins(c, d, single); after.push_back(nm.of(c)); era(c, d, single); fin.push_back(nm.of(c)); };
    std::vector<T> c1; Seq<T> c2; Seq1<T> c3; SeqD<T> c4;
    run(c1); run(c2); run(c3); run(c4);
  }
  fprintf(out, "{\"op\":\"use\"%s,\"bad\":%ld,\"after\":%s,\"final\":%s}\n", head.c_str(), bad, arr2(after).c_str(), arr2(fin).c_str());
}

static void acc(std::vector<unsigned char> const& c, std::uint32_t seed) {
  std::vector<unsigned char> c1(c);
  Seq<unsigned char> c2(c.begin(), c.end());
  Seq1<unsigned char> c3;
  std::mt19937 r(seed);
  {  // the same contents in another arrangement
    std::vector<std::size_t> at;
    for (std::size_t i = 0; i < c.size(); ++i) { std::size_t p = r() % (i + 1); at.push_back(p); c3.insert(c3.nth(p), c[i]); }
    std::size_t i = 0;
    for (auto& x : c3) x = c[i++];
  }
  SeqD<unsigned char> c4(c.begin(), c.end());
  std::vector<long> fw, bw, ds;
  std::vector<std::vector<long>> fb, bb;
  auto both = [&](auto& x) { fw.push_back((long)accumulate_forward(x)); bw.push_back((long)accumulate_backward(x)); };
  both(c1); both(c2); both(c3); both(c4);
  for (std::size_t d = 1; d <= c.size() + 2; ++d) {
    ds.push_back((long)d);
    fb.emplace_back(); bb.emplace_back();
    auto by = [&](auto& x) { fb.back().push_back((long)accumulate_forward_by(x, d)); bb.back().push_back((long)accumulate_backward_by(x, d)); };
    by(c1); by(c2); by(c3); by(c4);
  }
  fprintf(out, "{\"op\":\"acc\",\"id\":%ld,\"c\":%s,\"fw\":%s,\"bw\":%s,\"ds\":%s,\"fb\":%s,\"bb\":%s}\n", ++id_, arr(c).c_str(), arr(fw).c_str(), arr(bw).c_str(),
          arr(ds).c_str(), arr2(fb).c_str(), arr2(bb).c_str());
}

// A generator over [Lo, Lo+K) whose next draw is chosen; after it, draws that
// are certainly taken, so that a refused draw shows.
template <typename R, R Lo, R Hi> struct Gen {
  using result_type = R;
  static constexpr R min() { return Lo; }
  static constexpr R max() { return Hi; }
  R next;
  long draws = 0;
  struct Again {};
  R operator()() { if (draws++) throw Again(); return next; }
};
template <typename Result, typename G> void rnd(long bound, bool hist = false) {
  std::uint64_t K = (std::uint64_t)G::max() - (std::uint64_t)G::min() + 1;
  std::vector<long> r;
  std::vector<long> h((size_t)(hist ? bound : 0));
  long over = 0;
  for (std::uint64_t k = 0; k < K; ++k) {
    G g;
    g.next = (typename G::result_type)(G::min() + k);
    long x;
    try { x = (long)bounded_rand<G, Result>(g, (Result)bound); } catch (typename G::Again&) { x = -1; }
    if (!hist) r.push_back(x);
    else if (x >= bound) ++over;
    else if (x >= 0) ++h[(size_t)x];
  }
  if (hist) fprintf(out, "{\"op\":\"hist\",\"id\":%ld,\"bound\":%ld,\"over\":%ld,\"h\":%s}\n", ++id_, bound, over, arr(h).c_str());
  else fprintf(out, "{\"op\":\"rnd\",\"id\":%ld,\"bound\":%ld,\"r\":%s}\n", ++id_, bound, arr(r).c_str());
}
template <typename G, typename... Rs> void rnds(long top) {
  for (long b = 1; b <= top; ++b) { int u[] = {(rnd<Rs, G>(b), 0)...}; (void)u; }
}

int main(int argc, char** argv) {
  out = fopen(argv[1], "w");
  std::uint32_t seed = (std::uint32_t)atol(argv[2]);
  long eff = atol(argv[3]);
  setvbuf(out, nullptr, _IOFBF, 1 << 16);
  pid_t p = fork();
  if (p == 0) {
    alarm((unsigned)(40 * eff));
    std::mt19937 r(seed);
    for (std::size_t c = 1; c <= 12; ++c) { work<std::uint64_t>(c, 1, seed + (std::uint32_t)c, true); work<unsigned char>(c, 1, r(), true); }
    for (std::size_t c = 1; c <= 8; ++c) for (std::size_t s = 1; s <= 5; ++s) { work<std::uint64_t>(c, s, r(), false); work<unsigned char>(c, s, r(), false); }
    for (long k = 0; k < 25 * eff; ++k) {
      work<std::uint64_t>(1 + r() % 60, 1, r(), true);
      work<unsigned char>(1 + r() % 60, 1, r(), true);
      work<std::uint64_t>(1 + r() % 16, 1 + r() % 9, r(), false);
      work<unsigned char>(1 + r() % 16, 1 + r() % 9, r(), false);
    }
    fflush(out);
    for (long n = 0; n <= 16; ++n) { std::vector<unsigned char> c; for (long i = 0; i < n; ++i) c.push_back((unsigned char)r()); acc(c, r()); }
    for (long k = 0; k < 10 * eff; ++k) { std::vector<unsigned char> c; for (long i = (long)(r() % 60); i > 0; --i) c.push_back((unsigned char)r()); acc(c, r()); }
    fflush(out);
    rnds<Gen<std::uint32_t, 0, 0>, std::uint32_t, std::size_t>(1);
    rnds<Gen<std::uint32_t, 0, 1>, std::uint32_t, std::size_t>(2);
    rnds<Gen<std::uint32_t, 1, 6>, std::uint32_t, std::size_t>(6);
    rnds<Gen<std::uint32_t, 5, 15>, std::uint32_t, std::size_t>(11);
    rnds<Gen<std::uint32_t, 0, 15>, std::uint32_t, std::size_t>(16);
    rnds<Gen<std::uint64_t, 3, 39>, std::uint64_t>(37);
    rnds<Gen<unsigned char, 0, 255>, std::size_t, std::uint32_t>(255);
    rnds<Gen<unsigned char, 0, 255>, unsigned char>(255);
    fflush(out);
    for (long b : {1, 2, 3, 7, 100, 255, 256, 257, 1000, 4095, 9999}) rnd<std::size_t, Gen<unsigned short, 0, 65535>>(b, true), rnd<std::uint16_t, Gen<unsigned short, 0, 65535>>(b, true);
    // a 32-bit generator that uses its whole range, result type as wide
    for (long b : {3, 10}) if (eff > 4) rnd<std::uint32_t, Gen<std::uint32_t, 0, 0xffffffffu>>(b, true);
    fflush(out);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    FILE* f = fopen(argv[1], "a");
    fprintf(f, "{\"op\":\"crash\",\"id\":%d}\n", st);
    fclose(f);
  }
  return 0;
}
