// Prints the exception specifications of seq for allocators of every kind.
#include <boost/segmented_tree/seq.hpp>
#include <cstdio>
#include <memory>
#include <type_traits>
template <typename T, int F> struct NA {
  using value_type = T;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & 1) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & 2) != 0>;
  using is_always_equal = std::false_type;
  template <typename U> struct rebind { using other = NA<U, F>; };
  NA() noexcept((F & 4) != 0) {}
  NA(NA const&) noexcept {}
  NA(NA&&) noexcept((F & 8) != 0) {}
  template <typename U> NA(NA<U, F> const&) noexcept {}
  NA& operator=(NA const&) noexcept { return *this; }
  NA& operator=(NA&&) noexcept((F & 16) != 0) { return *this; }
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(NA const&, NA const&) { return true; }
  friend bool operator!=(NA const&, NA const&) { return false; }
  friend void swap(NA&, NA&) noexcept((F & 32) != 0) {}
};
template <typename T> void row(FILE* f) {
  using Al = typename T::allocator_type;
  using Tr = std::allocator_traits<Al>;
  T* p = nullptr;
  Al* a = nullptr;
  (void)p; (void)a;
  using std::swap;
  fprintf(f, "{\"f\":[%d,%d,%d,%d,%d,%d],\"r\":[%d,%d,%d,%d,%d,%d,%d]}\n",
          (int)Tr::propagate_on_container_move_assignment::value, (int)Tr::propagate_on_container_swap::value,
          (int)std::is_nothrow_default_constructible<Al>::value, (int)std::is_nothrow_move_constructible<Al>::value,
          (int)std::is_nothrow_move_assignable<Al>::value, (int)noexcept(swap(*a, *a)),
          (int)std::is_nothrow_default_constructible<T>::value, (int)std::is_nothrow_move_constructible<T>::value,
          (int)std::is_nothrow_move_assignable<T>::value, (int)noexcept(p->swap(*p)), (int)noexcept(swap(*p, *p)),
          (int)std::is_nothrow_destructible<T>::value, (int)noexcept(p->clear()));
}
template <int F> struct All {
  static void run(FILE* f) {
    row<boost::segmented_tree::seq<int, NA<int, F>, 64, 80>>(f);
    row<boost::segmented_tree::seq<std::unique_ptr<int>, NA<std::unique_ptr<int>, F>, 64, 80>>(f);
    All<F - 1>::run(f);
  }
};
template <> struct All<-1> { static void run(FILE*) {} };
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "w");
  if (!f) return 90;
  All<63>::run(f);
  row<boost::segmented_tree::seq<int>>(f);
  row<boost::segmented_tree::seq<std::unique_ptr<int>>>(f);
  fclose(f);
  return 0;
}
