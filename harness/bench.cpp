// Records runs of the generator programs (common/generate_*.hpp) and of the
// benchmark runs (bench/*.hpp) on right and wrong containers for BenchTrace.tla.
// usage: bench out seed effort
#include <boost/segmented_tree/seq.hpp>
#include <algorithm>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "common/generate_single.hpp"
#include "common/generate_range.hpp"
#include "bench/single.hpp"
#include "bench/range.hpp"

static FILE* out;
static long id_ = 0;
template <typename C> std::string arr(C const& c) {
  std::string s = "[";
  for (auto const& x : c) s += (s.size() > 1 ? "," : "") + std::to_string((long)x);
  return s + "]";
}
template <typename T> struct Names {
  std::map<T, long> m;
  long operator()(T x) { return m.emplace(x, (long)m.size() + 1).first->second; }
  template <typename C> std::vector<long> of(C const& c) { std::vector<long> r; for (auto x : c) r.push_back((*this)(x)); return r; }
};

enum Kind { none, put, val, walk, keep, take, first };
static char const* kinds[] = {"none", "put", "val", "walk", "keep", "take", "first"};
struct Fault { int kind = none; long at = 0; int m = 0; long d = 1; unsigned bit = 0; };
static Fault F;
static std::string fault() {
  return "{\"kind\":\"" + std::string(kinds[F.kind]) + "\",\"at\":" + std::to_string(F.at) + ",\"m\":" + std::to_string(F.m) + ",\"d\":" + std::to_string(F.d) + "}";
}

// A sequence with one fault; what it held is kept.
template <typename T> struct Log { static std::vector<T> ins, fin; static bool snapped; };
template <typename T> std::vector<T> Log<T>::ins;
template <typename T> std::vector<T> Log<T>::fin;
template <typename T> bool Log<T>::snapped;
template <typename T> struct Wrong {
  using value_type = T;
  using size_type = std::size_t;
  std::vector<T> v;
  long ic = 0, ec = 0;
  mutable long last = -1000000000;  // the element read before
  Wrong() { Log<T>::snapped = false; Log<T>::ins.clear(); Log<T>::fin.clear(); }
  Wrong(Wrong const&) = delete;
  ~Wrong() { snap(); Log<T>::fin = v; }
  void snap() { if (!Log<T>::snapped) { Log<T>::snapped = true; Log<T>::ins = v; } }
  struct const_iterator {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const*; using reference = T;
    Wrong const* c = nullptr; long p = 0;
    T operator*() const {
      T x = c->v.at((size_t)p);
      long before = c->last;
      c->last = p;
      return F.kind == walk && F.at == p && p - before == (F.m ? -F.d : F.d) ? (T)(x ^ (T)((T)1 << (F.bit % std::numeric_limits<T>::digits))) : x;
    }
    T operator[](std::ptrdiff_t n) const { return *(*this + n); }
    const_iterator& operator++() { ++p; return *this; }
    const_iterator operator++(int) { auto r = *this; ++*this; return r; }
    const_iterator& operator--() { --p; return *this; }
    const_iterator operator--(int) { auto r = *this; --*this; return r; }
    const_iterator& operator+=(std::ptrdiff_t n) { p += n; return *this; }
    const_iterator& operator-=(std::ptrdiff_t n) { p -= n; return *this; }
    const_iterator operator+(std::ptrdiff_t n) const { auto r = *this; return r += n; }
    const_iterator operator-(std::ptrdiff_t n) const { auto r = *this; return r -= n; }
    std::ptrdiff_t operator-(const_iterator o) const { return p - o.p; }
    bool operator==(const_iterator o) const { return p == o.p; }
    bool operator!=(const_iterator o) const { return p != o.p; }
    bool operator<(const_iterator o) const { return p < o.p; }
    bool operator>(const_iterator o) const { return p > o.p; }
    bool operator<=(const_iterator o) const { return p <= o.p; }
    bool operator>=(const_iterator o) const { return p >= o.p; }
  };
  using iterator = const_iterator;
  const_iterator begin() const { const_iterator i; i.c = this; return i; }
  const_iterator end() const { auto i = begin(); i.p = (long)v.size(); return i; }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using reverse_iterator = const_reverse_iterator;
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  const_reverse_iterator crbegin() const { return rbegin(); }
  const_reverse_iterator crend() const { return rend(); }
  using difference_type = std::ptrdiff_t;
  using reference = T;
  using const_reference = T;
  size_type size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  T operator[](size_type p) const { return F.kind == first ? (T)(v.at(p) + 1) : v.at(p); }
  T front() const { return (*this)[0]; }
  template <typename It> const_iterator insert(const_iterator i, It f, It l) {
    ++ic;
    std::vector<T> b(f, l);
    long p = i.p;
    if (F.kind == put && F.at == ic) p = p == (long)v.size() ? 0 : (long)v.size();
    if (F.kind == val && F.at == ic && !b.empty()) b[0] = (T)(b[0] + 1);
    if (p < 0 || p > (long)v.size()) throw std::out_of_range("insert");
    v.insert(v.begin() + p, b.begin(), b.end());
    return begin() + p;
  }
  const_iterator insert(const_iterator i, T const& x) { return insert(i, &x, &x + 1); }
  const_iterator erase(const_iterator i, const_iterator j) {
    snap();
    ++ec;
    long p = i.p, n = j.p - i.p, sz = (long)v.size();
    if (F.kind == keep && F.at == ec) return i;
    if (F.kind == take && F.at == ec) p = p > 0 ? p - 1 : p + n < sz ? p + 1 : p;
    if (p < 0 || n < 0 || p + n > sz) throw std::out_of_range("erase");
    v.erase(v.begin() + p, v.begin() + p + n);
    return begin() + p;
  }
  const_iterator erase(const_iterator i) { return erase(i, i + 1); }
};
template <typename T> using Seq = boost::segmented_tree::seq<T, std::allocator<T>, 3 * sizeof(T), 64>;
template <typename T> using Seq1 = boost::segmented_tree::seq<T, std::allocator<T>, 1, 80>;
template <typename T> using SeqD = boost::segmented_tree::seq<T>;
template <typename T> using Vec = std::vector<T>;

// A program run with these arguments; what it prints is kept.
struct Result { int ok; std::string text; };
template <typename Fn> Result program(Fn fn, std::vector<std::string> args) {
  args.insert(args.begin(), "program");
  std::vector<char*> a;
  for (auto& s : args) a.push_back(&s[0]);
  a.push_back(nullptr);
  std::ostringstream o, e;
  auto* ob = std::cout.rdbuf(o.rdbuf());
  auto* eb = std::cerr.rdbuf(e.rdbuf());
  int ok = 0;
  try { ok = fn((int)args.size(), a.data()) == 0; } catch (std::exception&) {} 
  std::cout.rdbuf(ob);
  std::cerr.rdbuf(eb);
  return {ok, o.str()};
}
template <template <typename> class C, typename T> Result benchmark(bool single, std::vector<std::string> a) {
  return single ? program(&bench_single<C, T>, a) : program(&bench_range<C, T>, a);
}
template <typename T> insertion_data<T> data(bool single, std::size_t count, std::size_t size, std::uint32_t seed) {
  return single ? make_insertion_data_single<T>(count, seed) : make_insertion_data_range<T>(count, size, seed);
}
template <typename T> std::vector<T> built(insertion_data<T> const& d, std::size_t size) {
  std::vector<T> v;
  for (std::size_t i = 0; i < d.indexes.size(); ++i) {
    auto p = std::min((std::size_t)d.indexes[i], v.size());
    v.insert(v.begin() + (long)p, d.ordered.begin() + (long)(i * size), d.ordered.begin() + (long)std::min((i + 1) * size, d.ordered.size()));
  }
  return v;
}
static std::string S(std::uint64_t x) { return std::to_string(x); }
static std::vector<std::string> args(bool single, std::size_t count, std::size_t size, std::uint64_t seed, std::uint64_t sum) {
  if (single) return {S(count), S(seed), S(sum)};
  return {S(count), S(size), S(seed), S(sum)};
}
static std::string head(char const* op) { return "{\"op\":\"" + std::string(op) + "\",\"id\":" + std::to_string(++id_); }
template <typename T> std::string load(Names<T>& nm, insertion_data<T> const& d, std::size_t count, std::size_t size) {
  auto v = nm.of(d.ordered);
  return ",\"count\":" + std::to_string(count) + ",\"size\":" + std::to_string(size) + ",\"ix\":" + arr(d.indexes) + ",\"v\":" + arr(v);
}

template <typename T> void prints(bool single, std::size_t count, std::size_t size) {
  auto r = single ? program(&generate_single<T>, {S(count)}) : program(&generate_range<T>, {S(count), S(size)});
  std::istringstream is(r.text);
  std::uint32_t seed = 0;
  std::uint64_t sum = 0;
  std::string s1, s2, rest;
  bool parsed = (bool)(is >> s1 >> s2) && !(is >> rest);
  // read as a benchmark run reads them
  try {
    seed = boost::lexical_cast<std::uint32_t>(s1);
    sum = boost::lexical_cast<std::uint64_t>(s2);
  } catch (std::exception&) { parsed = false; }
  auto d = data<T>(single, count, size, seed);
  Names<T> nm;
  auto l = load(nm, d, count, size);
  auto c = built(d, size);
  fprintf(out, "%s%s,\"out\":%d,\"c\":%s,\"same\":%d}\n", head("print").c_str(), l.c_str(), r.ok && parsed, arr(nm.of(c)).c_str(), sum == make_checksum_unsigned(c));
  if (!parsed) return;
  // what it printed runs on right containers
  auto run = [&](Result b) {
    F = Fault();
    auto w = nm.of(c);
    fprintf(out, "%s%s,\"f\":%s,\"given\":%s,\"ins\":%s,\"fin\":[%ld],\"out\":%d}\n", head("bench").c_str(), l.c_str(), fault().c_str(), arr(w).c_str(), arr(w).c_str(), nm(d.ordered.at(0)), b.ok);
  };
  F = Fault();
  auto a = args(single, count, size, seed, sum);
  run(benchmark<Vec, T>(single, a)); run(benchmark<Seq, T>(single, a)); run(benchmark<Seq1, T>(single, a)); run(benchmark<SeqD, T>(single, a));
}

// A run on a container with a fault.  sum: 0 that of the right contents,
// 1 one that is wrong in one bit, 2 that of other contents, 3 that of what
// the faulty container holds
template <typename T> void faulty(bool single, std::size_t count, std::size_t size, std::uint32_t seed, Fault f, int sum, unsigned bit) {
  if (single) size = 1;
  auto d = data<T>(single, count, size, seed);
  auto c = built(d, size);
  std::uint64_t s = make_checksum_unsigned(c);
  std::vector<T> given = c;
  bool real = true;
  F = f;
  if (sum == 1) { s ^= std::uint64_t(1) << (bit % 64); real = false; }
  if (sum == 2) { given[bit % given.size()] = (T)(given[bit % given.size()] + 1); s = make_checksum_unsigned(given); }
  if (sum == 3) {
    benchmark<Wrong, T>(single, args(single, count, size, seed, s));
    given = Log<T>::ins;
    s = make_checksum_unsigned(given);
  }
  auto r = benchmark<Wrong, T>(single, args(single, count, size, seed, s));
  // what it would show, run to its end
  {
    Wrong<T> w;
    try {
      single ? insert_single(w, d) : insert_range(w, d);
      single ? erase_single(w, d) : erase_range(w, d);
    } catch (std::exception&) { w.v.assign(2, T()); }
  }
  auto &ins = Log<T>::ins, &fin = Log<T>::fin;
  if (c.size() <= 40) {
    Names<T> nm;
    auto l = load(nm, d, count, size);
    fprintf(out, "%s%s,\"f\":%s,\"given\":%s,\"ins\":%s,\"fin\":%s,\"out\":%d}\n", head("bench").c_str(), l.c_str(), fault().c_str(), real ? arr(nm.of(given)).c_str() : "[-1]", arr(nm.of(ins)).c_str(),
            arr(nm.of(fin)).c_str(), r.ok);
  } else
    fprintf(out, "%s,\"n\":%zu,\"f\":%s,\"right\":%d,\"match\":%d,\"left\":%d,\"out\":%d}\n", head("large").c_str(), ins.size(), fault().c_str(), ins == c, real && given == ins,
            fin.size() == 1 && fin[0] == d.ordered[0], r.ok);
  F = Fault();
}

template <typename T> void sums(std::mt19937& r, std::size_t n) {
  std::vector<std::vector<T>> cs;
  std::vector<T> c;
  for (std::size_t i = 0; i < n; ++i) c.push_back((T)(((std::uint64_t)r() << 32) | r()));
  cs.push_back(c);
  cs.push_back(c);
  for (std::size_t i = 0; i < n; ++i) {
    auto x = c;
    x[i] = (T)(x[i] ^ (T)((T)1 << (r() % std::numeric_limits<T>::digits)));
    cs.push_back(x);
    if (i && c[i - 1] != c[i]) { x = c; std::swap(x[i - 1], x[i]); cs.push_back(x); }
  }
  for (T b : {(T)1, (T)((T)1 << (std::numeric_limits<T>::digits - 1))})
    for (std::size_t i : {std::size_t(0), n - 1}) { auto x = c; x[i] = (T)(x[i] ^ b); cs.push_back(x); }
  std::string a = "[", b = "[";
  Names<T> nm;
  Names<std::uint64_t> sm;
  for (auto& x : cs) {
    a += (a.size() > 1 ? "," : "") + arr(nm.of(x));
    b += (b.size() > 1 ? "," : "") + std::to_string(sm(make_checksum_unsigned(x)));
  }
  fprintf(out, "%s,\"c\":%s],\"s\":%s]}\n", head("sum").c_str(), a.c_str(), b.c_str());
}

// Where walks begin: an element read there follows the last one of another
// walk, and how far that was away is nobody's promise.
static bool chance(int m, long d, long n, long at) {
  bool begins = at == 0;
  for (long x : {1, 10, 100, 1000, 10000}) begins = begins || at == n - x;
  bool walked = d != 7 && (m ? (n - at) % d == 0 && at + 2 * d <= n : at % d == 0 && at >= d && at + d <= n);
  return begins && !walked;
}

template <typename T> void all(std::mt19937& r, long eff) {
  for (std::size_t c : {1, 2, 3, 7}) { prints<T>(true, c, 1); for (std::size_t s : {1, 2, 5}) prints<T>(false, c, s); }
  for (long k = 0; k < 6 * eff; ++k) { prints<T>(true, 1 + r() % 40, 1); prints<T>(false, 1 + r() % 9, 1 + r() % 6); }
  for (std::size_t n = 1; n <= 6; ++n) sums<T>(r, n);
  for (long k = 0; k < 2 * eff; ++k) sums<T>(r, 7 + r() % 20);
  // every fault of small workloads
  for (int single = 0; single < 2; ++single)
    for (std::size_t c = 1; c <= 4; ++c)
      for (std::size_t s = 1; s <= (single ? 1u : 3u); ++s) {
        std::size_t n = c * s;
        for (int sum = 0; sum < 4; ++sum) {
          faulty<T>(single, c, s, r(), Fault(), sum, r());
          faulty<T>(single, c, s, r(), Fault{first}, sum, r());
          for (int k : {put, val, keep, take})
            for (long at = 1; at <= (long)c; ++at) faulty<T>(single, c, s, r(), Fault{k, at}, sum, r());
        }
        for (int m = 0; m < 2; ++m)
          for (long at = 0; at < (long)n; ++at) if (!chance(m, 1, (long)n, at)) faulty<T>(single, c, s, r(), Fault{walk, at, m, 1, (unsigned)r()}, 0, 0);
      }
  // walks by longer strides
  auto step = [&](bool single, std::size_t c, std::size_t size, int m, long d) {
    long n = (long)(c * size), at = (long)(r() % (std::size_t)n), i = (long)(r() % (std::size_t)(n / d + 2));
    if (r() % 6) at = m ? n - i * d : i * d;
    if (at < 0 || at >= n || chance(m, d, n, at)) return;
    faulty<T>(single, c, size, r(), Fault{walk, at, m, d, (unsigned)r()}, 0, 0);
  };
  for (long k = 0; k < 60 * eff; ++k) {
    bool single = r() % 2;
    std::size_t size = single ? 1 : 1 + r() % 12, n = 11 + r() % 400, c = n / size + 1;
    int m = (int)(r() % 2);
    long d = r() % 5 ? (r() % 2 ? 10 : 100) : 7;
    n = c * size;
    step(single, c, size, m, d);
  }
  // the first and the last element each stride reaches, at every remainder that matters
  for (long d : {10, 100, 1000, 10000})
    for (long t : {2, 3})
      for (long rest : {0L, 1L, d - 1}) {
        long n = t * d + rest;
        for (int m = 0; m < 2; ++m)
          for (long i : {1L, t - 1, t, t + 1}) {
            long at = m ? n - i * d : i * d;
            if (i > 1 && i == t - 1 && t == 2) continue;
            if (at < 0 || at >= n || chance(m, d, n, at)) continue;
            faulty<T>(false, d < 1000 ? (std::size_t)n : 1, d < 1000 ? 1 : (std::size_t)n, r(), Fault{walk, at, m, d, (unsigned)r()}, 0, 0);
          }
      }
  for (long k = 0; k < 8 * eff; ++k) {
    long d = k & 2 ? 1000 : k & 4 ? 10000 : 100;
    std::size_t size = 200 + r() % 600, c = d == 10000 ? 110 : 30 + r() % 10;
    step(false, c, size, (int)(k % 2), d);
  }
  // larger workloads with a fault somewhere
  for (long k = 0; k < 40 * eff; ++k) {
    bool single = r() % 2;
    std::size_t c = 2 + r() % 40, size = single ? 1 : 1 + r() % 8;
    faulty<T>(single, c, size, r(), Fault{(int)(r() % 2 ? 1 + r() % 2 : 4 + r() % 2), (long)(1 + r() % c)}, (int)(r() % 2 ? 0 : r() % 4), r());
  }
  // wrong numbers of arguments
  std::vector<std::string> a;
  for (std::size_t n = 0; n <= 6; ++n) {
    auto use = [&](Result x) { fprintf(out, "%s,\"args\":%zu,\"out\":%d,\"bytes\":%zu}\n", head("usage").c_str(), n, x.ok, x.text.size()); };
    if (n != 1) use(program(&generate_single<T>, a));
    if (n != 2) use(program(&generate_range<T>, a));
    if (n != 3) use(program(&bench_single<Vec, T>, a));
    if (n != 4) use(program(&bench_range<Vec, T>, a));
    a.push_back("3");
  }
  fflush(out);
}

int main(int, char** argv) {
  out = fopen(argv[1], "w");
  std::uint32_t seed = (std::uint32_t)atol(argv[2]);
  long eff = atol(argv[3]);
  setvbuf(out, nullptr, _IOFBF, 1 << 16);
  pid_t p = fork();
  if (p == 0) {
    alarm((unsigned)(100 * eff));
    std::mt19937 r(seed);
    all<std::uint64_t>(r, eff);
    all<std::uint8_t>(r, eff);
    fflush(out);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    FILE* f = fopen(argv[1], "a");
    fprintf(f, "\n{\"op\":\"crash\",\"id\":%d}\n", st);
    fclose(f);
  }
  return 0;
}
