// Several threads observe the same containers at once; every answer is recorded.
// usage: prog out seed
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <random>
#include <string>
#include <thread>
#include <vector>
#include <boost/segmented_tree/seq.hpp>
namespace st = boost::segmented_tree;
static FILE* out;
static long round_ = 0;

struct Ans { int op; long a, b, r; };
template <typename C> long sum(C const& c) { long t = 0; for (auto const& x : c) t = (t * 31 + (long)x + 7) % 1000003; return t; }

template <typename Seq> void round(unsigned seed, int n) {
  std::mt19937 g(seed);
  auto rnd = [&](int k) { return (int)(g() % (unsigned)k); };
  Seq q[2];
  for (int s = 0; s < 2; ++s) {
    int m = s == 0 ? n : rnd(n + 3);
    for (int i = 0; i < m + m / 3; ++i) q[s].insert(q[s].nth((std::size_t)rnd((int)q[s].size() + 1)), rnd(90));
    while ((int)q[s].size() > m) q[s].erase(q[s].nth((std::size_t)rnd((int)q[s].size())));
  }
  if (rnd(3) == 0) q[1] = q[0];
  // a container never looked at before is the interesting one
  Seq const fresh0(std::move(q[0])), fresh1(std::move(q[1]));
  Seq const* c[2] = {&fresh0, &fresh1};
  ++round_;
  std::vector<int> v[2];
  // the contents are known from the container's own elements afterwards
  constexpr int T = 4;
  std::vector<Ans> ans[T];
  std::atomic<int> ready{0};
  unsigned seeds[T];
  for (auto& x : seeds) x = g();
  auto body = [&](int t) {
    std::mt19937 h(seeds[t]);
    auto rn = [&](long k) { return k <= 0 ? 0 : (long)(h() % (unsigned long)k); };
    auto& A = ans[t];
    A.reserve(200);
    ++ready;
    while (ready < T) {}
    for (int k = 0; k < 60; ++k) {
      int s = (int)rn(2);
      Seq const& x = *c[s];
      long m = (long)x.size();
      int op = (int)rn(14);
      long i = rn(m), r = 0, b = 0;
      switch (op) {
        case 0: r = m; break;
        case 1: r = x.empty(); break;
        case 2: if (!m) continue; r = x[(std::size_t)i]; break;
        case 3: if (!m) continue; r = x.at((std::size_t)i); break;
        case 4: if (!m) continue; r = *x.nth((std::size_t)i); break;
        case 5: r = (long)x.index_of(x.nth((std::size_t)i)); break;
        case 6: if (!m) continue; r = x.front(); break;
        case 7: if (!m) continue; r = x.back(); break;
        case 8: r = sum(x); break;
        case 9: { long tt = 0; for (auto y = x.rbegin(); y != x.rend(); ++y) tt = (tt * 31 + (long)*y + 7) % 1000003; r = tt; break; }
        case 10: r = (fresh0 == fresh1) + 2 * (fresh0 < fresh1) + 4 * (fresh1 < fresh0); break;
        case 11: { Seq y(x); r = sum(y); break; }
        case 12: { auto it = x.begin(); b = rn(m + 1); it += b; it -= (b - i); r = m ? (long)(it - x.begin()) : i; break; }
        case 13: try { (void)x.at((std::size_t)(m + i)); r = 0; } catch (std::out_of_range const&) { r = 1; } break;
      }
      A.push_back({op, i, s + 1, r});
      (void)x.height(); (void)x.max_size();
    }
  };
  std::vector<std::thread> ths;
  for (int t = 0; t < T; ++t) ths.emplace_back(body, t);
  for (auto& t : ths) t.join();
  fprintf(out, "{\"op\":\"round\",\"c\":[");
  for (int s = 0; s < 2; ++s) {
    fprintf(out, "%s[", s ? "," : "");
    bool first = true;
    for (auto const& x : *c[s]) { fprintf(out, "%s%ld", first ? "" : ",", (long)x); first = false; }
    fprintf(out, "]");
  }
  fprintf(out, "],\"t\":0,\"q\":[]}\n");
  for (int t = 0; t < T; ++t) {
    fprintf(out, "{\"op\":\"reads\",\"c\":[],\"t\":%d,\"q\":[", t + 1);
    bool first = true;
    for (auto& a : ans[t]) { fprintf(out, "%s[%d,%ld,%ld,%ld]", first ? "" : ",", a.op, a.a, a.b, a.r); first = false; }
    fprintf(out, "]}\n");
  }
  fflush(out);
}

int main(int argc, char** argv) {
  if (argc < 3) return 95;
  out = fopen(argv[1], "w");
  unsigned seed = (unsigned)atol(argv[2]);
  int sizes[] = {0, 1, 3, 9, 20, 60, 200};
  for (int n : sizes)
    for (int k = 0; k < (argc > 3 ? atoi(argv[3]) : 2); ++k) {
      round<st::seq<int, std::allocator<int>, 12, 64>>(++seed * 17, n);
      round<st::seq<short, std::allocator<short>, 2, 80>>(++seed * 19, n);
      round<st::seq<long>>(++seed * 23, n);
    }
  fclose(out);
  return 0;
}
