// Recording runtime shared by all harness programs: arena allocator with an
// ownership ledger, element types with an object ledger, fault injection.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <algorithm>

namespace vh {

struct AllocFail : std::bad_alloc {};
struct CopyFail : std::runtime_error { CopyFail() : std::runtime_error("copy") {} };
struct CmpFail : std::runtime_error { CmpFail() : std::runtime_error("cmp") {} };

constexpr int MOVED = -7;
constexpr int DEAD_VAL = -8;

enum Cnt { C_COPY, C_MOVE, C_DEF, C_CONV, C_CASSIGN, C_MASSIGN, C_ALLOC_E, C_ALLOC_N, C_FREE_E,
           C_FREE_N, C_HCON, C_HDES, C_CMP, C_MAXBYTES_E, C_MAXBYTES_N, C_HEAP, C_NUM };

// memory obtained past the container's allocator counts (and fails)
inline bool& watching() { static bool w = false; return w; }

struct Globals {
  long cnt[C_NUM] = {};
  std::vector<std::string> anoms;
  long live = 0;        // live tracked objects (all, also temporaries)
  long hook_live = 0;   // objects constructed and not destroyed through the allocator
  int arm_kind = 0;     // 0 off, 1 alloc, 2 element, 3 either, 4/5/6 the same, persistent, 7 comparison
  long arm_left = 0;
  bool armed_hit = false;
  std::vector<int> ctor_log;
  bool log_ctor = false;
  bool count_cmp = false;
  void anom(char const* s) {
    bool w = watching();
    watching() = false;
    if (anoms.size() < 8) anoms.push_back(s);
    watching() = w;
  }
  void anom(std::string const& s) { anom(s.c_str()); }
  bool no_temp = false; // temporary buffers of the algorithms are refused
  bool tick(int kind) {  // kind 1 alloc, 2 element, 3 comparison
    if (!arm_kind) return false;
    int k = (arm_kind - 1) % 3 + 1;
    if ((arm_kind == 7) != (kind == 3)) return false;
    if (kind != 3 && !(k == 3 || k == kind)) return false;
    if (arm_left > 1) { --arm_left; return false; }
    armed_hit = true;
    if (arm_kind <= 3 || arm_kind == 7) arm_kind = 0;
    return true;
  }
};
inline Globals& G() { static Globals* g = new Globals; return *g; }
struct Quiet {  // the harness's own memory
  bool w = watching();
  Quiet() { watching() = false; }
  ~Quiet() { watching() = w; }
};
struct Watch {
  bool w = watching();
  Watch() { watching() = true; }
  ~Watch() { watching() = w; }
};

// ---------------------------------------------------------------- arena
struct Block {
  char* user;
  size_t bytes, n, esz;
  int group;
  int kind;   // 0 elements, 1 index node, 2 other
  int id;
  bool live;
  void (*dump)(void*, struct NodeDump&);
};

struct NodeDump {
  bool known = false;
  void* parent = nullptr;
  long pidx = 0;
  long len = 0;
  long cap = 0;
  std::vector<std::pair<void*, long>> ch;
};

struct Region {
  char* base = nullptr;
  size_t cap = 0, used = 0;
  void init(size_t c) {
    cap = c;
    base = (char*)mmap(nullptr, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); _exit(97); }
  }
};

struct Arena {
  Region main, side, objs;
  bool use_side = false;
  std::vector<Block> blocks;                 // by id
  std::map<char*, int> index;                // user pointer -> id (live and dead)
  int first_id = 0;
  static constexpr size_t CAN = 32;
  Arena() { main.init(size_t(2) << 30); side.init(size_t(256) << 20); objs.init(1 << 20); }
  void reset() {
    memset(main.base, 0, std::min(main.used, size_t(4096)));
    main.used = side.used = 0;
    blocks.clear();
    index.clear();
  }
  void* get(size_t bytes, size_t n, size_t esz, int group, int kind, void (*dump)(void*, NodeDump&), size_t align = 16) {
    Region& r = use_side ? side : main;
    size_t need = ((bytes + 15) & ~size_t(15)) + 2 * CAN;
    if (bytes > (size_t(1) << 28) || r.used + need > r.cap) { G().anom("allocation of unreasonable size"); throw std::bad_alloc(); }
    while (align > 16 && ((uintptr_t)(r.base + r.used) + CAN) % align) r.used += 16;
    char* p = r.base + r.used;
    r.used += need;
    memset(p, 0xC5, need);
    char* u = p + CAN;
    memset(u, 0xA5, bytes);
    Block b{u, bytes, n, esz, group, kind, (int)blocks.size(), true, dump};
    index[u] = b.id;
    blocks.push_back(b);
    return u;
  }
  Block* find(void const* p) {
    auto it = index.find((char*)p);
    return it == index.end() ? nullptr : &blocks[it->second];
  }
  Block* containing(void const* p) {
    auto it = index.upper_bound((char*)p);
    if (it == index.begin()) return nullptr;
    --it;
    Block* b = &blocks[it->second];
    return (char*)p < b->user + std::max<size_t>(b->bytes, 1) ? b : nullptr;
  }
  bool canaries(Block& b) {
    size_t tail = ((b.bytes + 15) & ~size_t(15)) + CAN;
    for (size_t i = 0; i < CAN; ++i) if ((unsigned char)b.user[-(long)CAN + (long)i] != 0xC5) return false;
    for (size_t i = b.bytes; i < tail; ++i) if ((unsigned char)b.user[i] != 0xC5) return false;
    return true;
  }
  void give(void* p, size_t n, size_t esz, int group, int kind) {
    if (p == nullptr) { G().anom("deallocate of a null pointer"); return; }
    Block* b = find(p);
    if (!b) { G().anom("deallocate of an unknown pointer"); return; }
    if (!b->live) { G().anom("block deallocated twice"); return; }
    if (b->n != n || b->esz != esz) G().anom("block deallocated with another size");
    if (b->group != group) G().anom("block deallocated through an unequal allocator");
    if (b->kind != kind) G().anom("block deallocated as another type");
    if (!canaries(*b)) G().anom("write outside a block");
    b->live = false;
    memset(b->user, 0xDD, b->bytes);
  }
  // all freed blocks untouched since, all live canaries intact
  void sweep(bool full) {
    size_t from = full || blocks.size() < 64 ? 0 : blocks.size() - 64;
    for (size_t i = from; i < blocks.size(); ++i) {
      Block& b = blocks[i];
      if (!canaries(b)) G().anom("write outside a block");
      if (!b.live)
        for (size_t j = 0; j < b.bytes; ++j)
          if ((unsigned char)b.user[j] != 0xDD) { G().anom("write into a released block"); break; }
    }
  }
  long count(int kind, int group) {
    long c = 0;
    for (auto& b : blocks) if (b.live && b.kind == kind && b.group == group) ++c;
    return c;
  }
};
inline Arena& A() { static Arena* a = new Arena; return *a; }

// ---------------------------------------------------------------- node dump
template <typename P> void* rawp(P* p) { return (void*)p; }
template <typename P, typename = decltype(std::declval<P>().get())> void* rawp(P const& p) { return (void*)p.get(); }

template <typename U, typename = void> struct is_node : std::false_type {};
template <typename U>
struct is_node<U, decltype((void)std::declval<U&>().parent_pointer, (void)std::declval<U&>().sizes[0],
                           (void)std::declval<U&>().pointers[0], (void)std::declval<U&>().length(),
                           (void)std::declval<U&>().parent_index())> : std::true_type {};

template <typename U> void dump_node_t(void* p, NodeDump& d) {
  U& n = *static_cast<U*>(p);
  d.known = true;
  d.parent = rawp(n.parent_pointer);
  d.pidx = (long)n.parent_index();
  d.len = (long)n.length();
  d.cap = (long)n.sizes.size();
  for (long i = 0; i < d.len && i < d.cap; ++i) d.ch.push_back({rawp(n.pointers[i]), (long)n.sizes[i]});
}
template <typename U> typename std::enable_if<is_node<U>::value, void (*)(void*, NodeDump&)>::type dumper() { return &dump_node_t<U>; }
template <typename U> typename std::enable_if<!is_node<U>::value, void (*)(void*, NodeDump&)>::type dumper() { return nullptr; }

// ---------------------------------------------------------------- allocator
// Label a: group a/10 (allocators are equal when their groups are), a is what
// get_allocator() must report.  Traits: 1 POCCA, 2 POCMA, 4 POCS, 8 always
// equal, 16 construct/destroy members, 32 select_on_copy gives label 90, 64 hands
// out pointers of a class, 128 has 32-bit size and difference types.
template <typename T> struct is_elem : std::false_type {};

// A pointer class for allocators that do not hand out plain pointers; every access
// to an element through it must lie inside a block that has not been given back.
template <typename T> struct FP {
  using element_type = T; using value_type = typename std::remove_cv<T>::type; using difference_type = std::ptrdiff_t;
  using pointer = FP; using reference = T&; using iterator_category = std::random_access_iterator_tag;
  template <typename U> using rebind = FP<U>;
  T* p_;
  FP() : p_() {}
  FP(std::nullptr_t) : p_() {}
  explicit FP(T* p, int) : p_(p) {}
  template <typename U, typename = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> FP(FP<U> const& o) : p_(o.p_) {}
  template <typename U, typename = typename std::enable_if<!std::is_convertible<U*, T*>::value>::type, typename = decltype(static_cast<T*>(std::declval<U*>()))>
  explicit FP(FP<U> const& o) : p_(static_cast<T*>(o.p_)) {}
  T* get() const { return p_; }
  T& at(std::ptrdiff_t i) const {
    Block* b = A().containing(p_);
    if (!b) b = A().containing((char const*)(p_) - 1);
    T* q = p_ + i;
    if (!p_ || !b || !b->live) G().anom("pointer into no live block dereferenced");
    else if ((char*)q < b->user || (char*)q > b->user + b->bytes) G().anom("pointer dereferenced outside its block");
    return *q;
  }
  T& operator*() const { return at(0); }
  T* operator->() const { return std::addressof(at(0)); }
  T& operator[](std::ptrdiff_t i) const { return at(i); }
  static FP pointer_to(T& t) { return FP(std::addressof(t), 0); }
  explicit operator bool() const { return p_ != nullptr; }
  FP& operator+=(std::ptrdiff_t d) { p_ += d; return *this; }
  FP& operator-=(std::ptrdiff_t d) { p_ -= d; return *this; }
  FP& operator++() { ++p_; return *this; }
  FP& operator--() { --p_; return *this; }
  FP operator++(int) { FP r = *this; ++p_; return r; }
  FP operator--(int) { FP r = *this; --p_; return r; }
  friend FP operator+(FP a, std::ptrdiff_t d) { return a += d; }
  friend FP operator+(std::ptrdiff_t d, FP a) { return a += d; }
  friend FP operator-(FP a, std::ptrdiff_t d) { return a -= d; }
  friend std::ptrdiff_t operator-(FP const& a, FP const& b) { return a.p_ - b.p_; }
  friend bool operator==(FP const& a, FP const& b) { return a.p_ == b.p_; }
  friend bool operator!=(FP const& a, FP const& b) { return a.p_ != b.p_; }
  friend bool operator<(FP const& a, FP const& b) { return a.p_ < b.p_; }
  friend bool operator>(FP const& a, FP const& b) { return a.p_ > b.p_; }
  friend bool operator<=(FP const& a, FP const& b) { return a.p_ <= b.p_; }
  friend bool operator>=(FP const& a, FP const& b) { return a.p_ >= b.p_; }
};
template <typename V> struct FPV {  // to void
  using element_type = V; using difference_type = std::ptrdiff_t;
  template <typename U> using rebind = FP<U>;
  V* p_;
  FPV() : p_() {}
  FPV(std::nullptr_t) : p_() {}
  template <typename U, typename = typename std::enable_if<std::is_convertible<U*, V*>::value>::type> FPV(FP<U> const& o) : p_(o.p_) {}
  V* get() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(FPV const& a, FPV const& b) { return a.p_ == b.p_; }
  friend bool operator!=(FPV const& a, FPV const& b) { return a.p_ != b.p_; }
};
template <> struct FP<void> : FPV<void> { using FPV<void>::FPV; FP() {} FP(FP const&) = default; FP& operator=(FP const&) = default; };
template <> struct FP<void const> : FPV<void const> { using FPV<void const>::FPV; FP() {} FP(FP<void> const& o) { p_ = o.p_; } };

template <typename T, bool F> struct RAPtr { using pointer = T*; static T* make(void* p) { return (T*)p; } static void* raw(T* p) { return (void*)p; } };
template <typename T> struct RAPtr<T, true> {
  using pointer = FP<T>;
  static FP<T> make(void* p) { return FP<T>((T*)p, 0); }
  static void* raw(FP<T> p) { return (void*)p.get(); }
};

struct NoHooks {};

template <typename T, int TR>
struct RA;

template <typename T, int TR, bool H> struct RAHooks {};
template <typename T, int TR> struct RAHooks<T, TR, true> {
  template <typename U, typename... As> void construct(U* p, As&&... as) {
    if (is_elem<U>::value) { ++G().cnt[C_HCON]; }
    ::new ((void*)p) U(std::forward<As>(as)...);
    if (is_elem<U>::value) hook_add(p);
  }
  template <typename U> void destroy(U* p) {
    if (is_elem<U>::value) { ++G().cnt[C_HDES]; hook_del(p); }
    p->~U();
  }
  static std::set<void const*>& hooked() { static std::set<void const*>* s = new std::set<void const*>; return *s; }
  static void hook_add(void const* p) {
    Quiet quiet;
    if (!hooked().insert(p).second) G().anom("object constructed twice through the allocator");
    G().hook_live = (long)hooked().size();
  }
  static void hook_del(void const* p) {
    Quiet quiet;
    if (!hooked().erase(p)) G().anom("object destroyed that the allocator did not construct");
    G().hook_live = (long)hooked().size();
  }
};

template <typename T, int TR>
struct RA : RAHooks<T, TR, (TR & 16) != 0> {
  using value_type = T;
  using Ptr = RAPtr<T, (TR & 64) != 0>;
  using pointer = typename Ptr::pointer;
  using size_type = typename std::conditional<(TR & 128) != 0, std::uint32_t, std::size_t>::type;
  using difference_type = typename std::conditional<(TR & 128) != 0, std::int32_t, std::ptrdiff_t>::type;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (TR & 1) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (TR & 2) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (TR & 4) != 0>;
  using is_always_equal = std::integral_constant<bool, (TR & 8) != 0>;
  template <typename U> struct rebind { using other = RA<U, TR>; };
  int label;
  RA() noexcept : label(10) {}
  explicit RA(int l) noexcept : label(l) {}
  RA(RA const& o) noexcept : label(o.label) {}
  template <typename U> RA(RA<U, TR> const& o) noexcept : label(o.label) {}
  RA& operator=(RA const& o) noexcept { label = o.label; return *this; }
  int group() const { return (TR & 8) ? 0 : label / 10; }
  RA select_on_container_copy_construction() const { return (TR & 32) ? RA(90) : *this; }
  pointer allocate(size_t n) {
    Quiet quiet;
    constexpr int kind = is_elem<T>::value ? 0 : 1;
    if (n > (size_t(1) << 28) / sizeof(T)) { G().anom("allocation of unreasonable size"); throw std::bad_alloc(); }
    if (G().tick(1)) throw AllocFail();
    ++G().cnt[kind == 0 ? C_ALLOC_E : C_ALLOC_N];
    long by = (long)(n * sizeof(T));
    auto& mx = G().cnt[kind == 0 ? C_MAXBYTES_E : C_MAXBYTES_N];
    if (by > mx) mx = by;
    return Ptr::make(A().get(n * sizeof(T), n, sizeof(T), group(), kind, dumper<T>(), alignof(T)));
  }
  void deallocate(pointer p, size_t n) noexcept {
    Quiet quiet;
    constexpr int kind = is_elem<T>::value ? 0 : 1;
    ++G().cnt[kind == 0 ? C_FREE_E : C_FREE_N];
    A().give(Ptr::raw(p), n, sizeof(T), group(), kind);
  }
  friend bool operator==(RA const& a, RA const& b) noexcept { return a.group() == b.group(); }
  friend bool operator!=(RA const& a, RA const& b) noexcept { return a.group() != b.group(); }
};

// ---------------------------------------------------------------- elements
inline void elem_tick() { if (G().tick(2)) { Quiet quiet; throw CopyFail(); } }
inline void cmp_tick() { ++G().cnt[C_CMP]; if (G().tick(3)) { Quiet quiet; throw CmpFail(); } }
#ifndef VH_KEYDIV
#define VH_KEYDIV 100
#endif
constexpr int KEYDIV = VH_KEYDIV;  // 1 for built-in types, which compare by the whole value
inline int keyof(int v) { return KEYDIV == 1 ? v : v >= 0 ? v / KEYDIV : -1; }

struct Arg { int v; explicit Arg(int x) : v(x) {} };
struct Arg2 {  // move-only argument
  int v;
  explicit Arg2(int x) : v(x) {}
  Arg2(Arg2&& o) : v(o.v) { o.v = MOVED; }
};

#define VH_CMP(E)                                                                          \
  friend bool operator==(E const& a, E const& b) { cmp_tick(); a.chk(); b.chk(); return keyof(a.val()) == keyof(b.val()); } \
  friend bool operator!=(E const& a, E const& b) { return !(a == b); }                     \
  friend bool operator<(E const& a, E const& b) { cmp_tick(); a.chk(); b.chk(); return keyof(a.val()) < keyof(b.val()); }

// Fully tracked element: address-keyed magic word; every misuse is recorded.
struct Tr {
  static constexpr bool copyable = true, tracked = true;
  int v;
  int pad = 0;
  uint64_t magic;
  static constexpr uint64_t LIVE = 0x9E3779B97F4A7C15ull, DEADM = 0xDEADDEADDEADDEADull;
  uint64_t me() const { return LIVE ^ (uint64_t)(uintptr_t)std::addressof(*this); }
  void born() {
    if (magic == me()) G().anom("object constructed over a live object");
    magic = me();
    ++G().live;
  }
  void chk() const { if (magic != me()) G().anom("access to a dead object"); }
  int val() const { return magic == me() ? v : DEAD_VAL; }
  void lg(int id) { if (G().log_ctor) { Quiet quiet; G().ctor_log.push_back(id); } }
  Tr() { elem_tick(); ++G().cnt[C_DEF]; lg(1); v = 0; born(); }
  Tr(int x) { elem_tick(); ++G().cnt[C_CONV]; lg(2); v = x; born(); }
  // only for braces
  Tr(std::initializer_list<int>) { G().anom("element constructed from a list in braces"); elem_tick(); ++G().cnt[C_CONV]; lg(20); v = -5; born(); }
  Tr(Arg& a) { elem_tick(); ++G().cnt[C_CONV]; lg(10); v = a.v; born(); }
  Tr(Arg const& a) { elem_tick(); ++G().cnt[C_CONV]; lg(11); v = a.v; born(); }
  Tr(Arg&& a) { elem_tick(); ++G().cnt[C_CONV]; lg(12); v = a.v; a.v = MOVED; born(); }
  Tr(Arg& a, int d) { elem_tick(); ++G().cnt[C_CONV]; lg(13); v = a.v + d; born(); }
  Tr(Arg&& a, int d) { elem_tick(); ++G().cnt[C_CONV]; lg(14); v = a.v + d; a.v = MOVED; born(); }
  Tr(Arg2&& a, Arg const& b, Arg& c) { elem_tick(); ++G().cnt[C_CONV]; lg(15); v = a.v + b.v + c.v; a.v = MOVED; born(); }
  Tr(Tr const& o) { o.chk(); elem_tick(); ++G().cnt[C_COPY]; lg(3); v = o.v; born(); }
  Tr(Tr&& o) noexcept {
    o.chk(); ++G().cnt[C_MOVE]; lg(4);
    v = o.v; o.v = MOVED; born();
  }
  Tr& operator=(Tr&& o) noexcept {
    o.chk(); chk(); ++G().cnt[C_MASSIGN];
    int t = o.v; o.v = MOVED;
    v = (&o == this) ? MOVED : t;
    return *this;
  }
  Tr& operator=(Tr const& o) {
    o.chk(); chk(); elem_tick(); ++G().cnt[C_CASSIGN]; v = o.v; return *this;
  }
  ~Tr() {
    if (magic != me()) G().anom("destruction of an object that is not alive");
    else { --G().live; magic = DEADM; v = DEAD_VAL; }
  }
  void set(int x) { chk(); v = x; }
  VH_CMP(Tr)
};
// Move-only variant (a separate type so that copies do not compile).
struct Mo {
  static constexpr bool copyable = false, tracked = true;
  int v;
  int pad = 0;
  uint64_t magic;
  static constexpr uint64_t LIVE = 0x9E3779B97F4A7C15ull, DEADM = 0xDEADDEADDEADDEADull;
  uint64_t me() const { return LIVE ^ (uint64_t)(uintptr_t)std::addressof(*this); }
  void born() {
    if (magic == me()) G().anom("object constructed over a live object");
    magic = me();
    ++G().live;
  }
  void chk() const { if (magic != me()) G().anom("access to a dead object"); }
  int val() const { return magic == me() ? v : DEAD_VAL; }
  Mo() { elem_tick(); ++G().cnt[C_DEF]; v = 0; born(); }
  Mo(int x) { elem_tick(); ++G().cnt[C_CONV]; v = x; born(); }
  Mo(Mo const&) = delete;
  Mo& operator=(Mo const&) = delete;
  Mo(Mo&& o) noexcept { o.chk(); ++G().cnt[C_MOVE]; v = o.v; o.v = MOVED; born(); }
  Mo& operator=(Mo&& o) noexcept {
    o.chk(); chk(); ++G().cnt[C_MASSIGN];
    int t = o.v; o.v = MOVED;
    v = (&o == this) ? MOVED : t;
    return *this;
  }
  ~Mo() {
    if (magic != me()) G().anom("destruction of an object that is not alive");
    else { --G().live; magic = DEADM; v = DEAD_VAL; }
  }
  void set(int x) { chk(); v = x; }
  VH_CMP(Mo)
};
// Trivially copyable, 8 bytes.
struct Pod {
  static constexpr bool copyable = true, tracked = false;
  int v; int pad;
  Pod() = default;
  Pod(int x) : v(x), pad(x ^ 0x5a5a) {}
  void chk() const {}
  int val() const { return (v ^ 0x5a5a) == pad || (v == 0 && pad == 0) ? v : -9; }
  void set(int x) { v = x; pad = x ^ 0x5a5a; }
  VH_CMP(Pod)
};
// Trivially destructible but not trivially copyable; copies may throw.
struct Ctd {
  static constexpr bool copyable = true, tracked = false;
  int v; int pad;
  Ctd() : v(0), pad(0x5a5a) { elem_tick(); ++G().cnt[C_DEF]; }
  Ctd(int x) : v(x), pad(x ^ 0x5a5a) { elem_tick(); ++G().cnt[C_CONV]; }
  Ctd(Ctd const& o) : v(o.v), pad(o.pad) { elem_tick(); ++G().cnt[C_COPY]; }
  Ctd(Ctd&& o) noexcept : v(o.v), pad(o.pad) { o.v = MOVED; o.pad = MOVED ^ 0x5a5a; ++G().cnt[C_MOVE]; }
  Ctd& operator=(Ctd const& o) { elem_tick(); ++G().cnt[C_CASSIGN]; v = o.v; pad = o.pad; return *this; }
  Ctd& operator=(Ctd&& o) noexcept {
    ++G().cnt[C_MASSIGN];
    int t = o.v, u = o.pad; o.v = MOVED; o.pad = MOVED ^ 0x5a5a;
    if (&o != this) { v = t; pad = u; }
    return *this;
  }
  void chk() const {}
  int val() const { return (v ^ 0x5a5a) == pad ? v : -9; }
  void set(int x) { v = x; pad = x ^ 0x5a5a; }
  VH_CMP(Ctd)
};
// Knows its own address: copies and moves may not be bytewise, though the
// destructor is trivial.
struct Anch {
  static constexpr bool copyable = true, tracked = false;
  int v; int pad;
  Anch const* me;
  Anch() : v(0), pad(0x5a5a), me(std::addressof(*this)) { elem_tick(); ++G().cnt[C_DEF]; }
  Anch(int x) : v(x), pad(x ^ 0x5a5a), me(std::addressof(*this)) { elem_tick(); ++G().cnt[C_CONV]; }
  Anch(Anch const& o) : v(o.v), pad(o.pad), me(std::addressof(*this)) { o.chk(); elem_tick(); ++G().cnt[C_COPY]; }
  Anch(Anch&& o) noexcept : v(o.v), pad(o.pad), me(std::addressof(*this)) { o.chk(); o.set(MOVED); ++G().cnt[C_MOVE]; }
  Anch& operator=(Anch const& o) { chk(); o.chk(); elem_tick(); ++G().cnt[C_CASSIGN]; v = o.v; pad = o.pad; return *this; }
  Anch& operator=(Anch&& o) noexcept {
    chk(); o.chk();
    ++G().cnt[C_MASSIGN];
    int t = o.v; o.set(MOVED);
    if (&o != this) set(t);
    return *this;
  }
  void chk() const { if (me != std::addressof(*this)) G().anom("an element was copied bytewise"); }
  int val() const { return (v ^ 0x5a5a) == pad && me == std::addressof(*this) ? v : -9; }
  void set(int x) { v = x; pad = x ^ 0x5a5a; }
  VH_CMP(Anch)
};
// Odd-sized trivially copyable elements.
template <int N>
struct Odd {
  static constexpr bool copyable = true, tracked = false;
  unsigned char b[N];
  Odd() { memset(b, 0, N); }
  Odd(int x) { set(x); }
  void set(int x) {
    unsigned u = (unsigned)x;
    for (int i = 0; i < N; ++i) b[i] = (unsigned char)(i < 3 ? u >> (8 * i) : (u * 31u + (unsigned)i));
  }
  void chk() const {}
  int val() const {
    int x = b[0] | b[1] << 8 | b[2] << 16;
    for (int i = 3; i < N; ++i) if (b[i] != (unsigned char)((unsigned)x * 31u + (unsigned)i)) {
      bool z = x == 0; for (int j = 0; z && j < N; ++j) z = b[j] == 0;
      return z ? 0 : -9;
    }
    return x;
  }
  VH_CMP(Odd)
};
// Overloaded & and comma, over-aligned, and constructible from anything.
struct alignas(16) Weird {
  static constexpr bool copyable = true, tracked = true;
  Tr t;
  Weird() {}
  Weird(int x) : t(x) {}
  Weird(Weird const&) = default;
  Weird(Weird&&) noexcept = default;
  Weird& operator=(Weird const&) = default;
  Weird& operator=(Weird&&) noexcept = default;
  Weird* operator&() const { G().anom("operator& of an element used"); return nullptr; }
  template <typename X> void operator,(X&&) const { G().anom("comma operator of an element used"); }
  void chk() const { t.chk(); }
  int val() const { return t.val(); }
  void set(int x) { t.set(x); }
  VH_CMP(Weird)
};
// Needs more alignment than a pointer does.
struct alignas(64) Wide {
  static constexpr bool copyable = true, tracked = true;
  Tr t;
  void there() const {  // the library's temporary buffers are not aligned
    if ((uintptr_t)std::addressof(*this) % 64 && A().containing(std::addressof(*this))) G().anom("misaligned element");
  }
  Wide() { there(); }
  Wide(int x) : t(x) { there(); }
  Wide(Wide const& o) : t(o.t) { there(); }
  Wide(Wide&& o) noexcept : t(std::move(o.t)) { there(); }
  Wide& operator=(Wide const&) = default;
  Wide& operator=(Wide&&) noexcept = default;
  void chk() const { t.chk(); }
  int val() const { return t.val(); }
  void set(int x) { t.set(x); }
  VH_CMP(Wide)
};
// Constructible from anything (like std::any).
struct Greedy {
  static constexpr bool copyable = true, tracked = true;
  Tr t;
  Greedy() {}
  Greedy(int x) : t(x) {}
  Greedy(Greedy const&) = default;
  Greedy(Greedy&&) noexcept = default;
  Greedy& operator=(Greedy const&) = default;
  Greedy& operator=(Greedy&&) noexcept = default;
  template <typename X, typename = typename std::enable_if<!std::is_same<typename std::decay<X>::type, Greedy>::value &&
                                                           !std::is_same<typename std::decay<X>::type, int>::value>::type>
  Greedy(X&&) : t(-5) { G().anom("element constructed from something that is not a value"); }
  void chk() const { t.chk(); }
  int val() const { return t.val(); }
  void set(int x) { t.set(x); }
  VH_CMP(Greedy)
};

template <> struct is_elem<Tr> : std::true_type {};
template <> struct is_elem<Mo> : std::true_type {};
template <> struct is_elem<Pod> : std::true_type {};
template <> struct is_elem<Ctd> : std::true_type {};
template <> struct is_elem<Anch> : std::true_type {};
template <int N> struct is_elem<Odd<N>> : std::true_type {};
template <> struct is_elem<Weird> : std::true_type {};
template <> struct is_elem<Wide> : std::true_type {};
template <> struct is_elem<Greedy> : std::true_type {};
template <> struct is_elem<int> : std::true_type {};
template <> struct is_elem<double> : std::true_type {};

// what the harness needs of an element
template <typename E> struct ET {
  static constexpr bool copyable = E::copyable, tracked = E::tracked;
  static long val(E const& e) { return e.val(); }
  static void set(E& e, int x) { e.set(x); }
};
template <> struct ET<int> {
  static constexpr bool copyable = true, tracked = false;
  static long val(int e) { return e; }
  static void set(int& e, int x) { e = x; }
};
template <> struct ET<double> {
  static constexpr bool copyable = true, tracked = false;
  static constexpr int NaN = 1073741831;  // the value equal to nothing
  static long val(double e) { return e != e ? NaN : e >= -1e9 && e <= 1e9 && e == (double)(long)e ? (long)e : -9; }
  static void set(double& e, int x) { e = x == 0 ? -0.0 : x == NaN ? __builtin_nan("") : x; }  // equal to 0, not bytewise
};

}  // namespace vh

// std::allocator itself, for these element types, keeping the same ledger: the
// container has code of its own for it.
namespace vh {
template <typename T> struct Plain {  // for the harness's own element lists
  using value_type = T;
  Plain() = default;
  template <typename U> Plain(Plain<U> const&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { free(p); }
  friend bool operator==(Plain const&, Plain const&) { return true; }
  friend bool operator!=(Plain const&, Plain const&) { return false; }
};
}
#define VH_STD(E)                                                                                            \
  template <> class std::allocator<E> : public vh::RA<E, 10> {                                               \
   public:                                                                                                   \
    using value_type = E; using pointer = E*; using const_pointer = E const*; using size_type = std::size_t; \
    using difference_type = std::ptrdiff_t; using reference = E&; using const_reference = E const&;          \
    template <typename U> struct rebind {                                                                    \
      using other = typename std::conditional<std::is_same<U, E>::value, std::allocator<E>, vh::RA<U, 10>>::type; \
    };                                                                                                       \
    allocator() noexcept {}                                                                                  \
    explicit allocator(int l) noexcept : vh::RA<E, 10>(l) {}                                                 \
    allocator(allocator const& o) noexcept : vh::RA<E, 10>(o) {}                                             \
    template <typename U> allocator(vh::RA<U, 10> const& o) noexcept : vh::RA<E, 10>(o) {}                   \
    allocator& operator=(allocator const&) = default;                                                        \
    allocator select_on_container_copy_construction() const { return *this; }                                \
    size_type max_size() const noexcept { return std::size_t(-1) / sizeof(E); }                              \
    E* allocate(std::size_t n, void const* = nullptr) { return vh::RA<E, 10>::allocate(n); }                 \
    template <typename U, typename... As> void construct(U* p, As&&... as) { ::new ((void*)p) U(std::forward<As>(as)...); } \
    template <typename U> void destroy(U* p) { p->~U(); }                                                    \
  };                                                                                                         \
  template <> struct std::allocator_traits<std::allocator<E>> : std::allocator_traits<vh::RA<E, 10>> {       \
    using allocator_type = std::allocator<E>;                                                                \
    template <typename U> using rebind_alloc = typename std::allocator<E>::template rebind<U>::other;        \
    template <typename U> using rebind_traits = std::allocator_traits<rebind_alloc<U>>;                      \
    static allocator_type select_on_container_copy_construction(allocator_type const& a) { return a; }       \
  };
VH_STD(vh::Tr)
VH_STD(vh::Mo)
VH_STD(vh::Pod)
VH_STD(vh::Ctd)
VH_STD(vh::Anch)
