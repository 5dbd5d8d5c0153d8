#include "vk_mon.hpp"
#include "vk_sched.hpp"

#include <complex>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <mpi.h>
#include <vector>

#ifdef VK_TSAN
extern "C" void __tsan_read_range(void*, unsigned long);
extern "C" void __tsan_write_range(void*, unsigned long);
#endif
#ifdef VK_ASAN
extern "C" void* __asan_region_is_poisoned(void*, std::size_t);
#endif

namespace vkm {
namespace {
std::int64_t cnt[N_WHAT];
void add(int w, std::int64_t n) { __atomic_add_fetch(&cnt[w], n, __ATOMIC_RELAXED); }
thread_local int nested = 0;
struct nest {
  nest() { ++nested; }
  ~nest() { --nested; }
};

void touch(const void* p, std::size_t n, bool write, const char* who) {
  if (!n || !p)
    return;
  add(RANGES, 1);
#ifdef VK_TSAN
  if (write)
    __tsan_write_range(const_cast<void*>(p), n);
  else
    __tsan_read_range(const_cast<void*>(p), n);
#endif
#ifdef VK_ASAN
  if (void* bad = __asan_region_is_poisoned(const_cast<void*>(p), n)) {
    char b[200];
    std::snprintf(b, sizeof b, "%s %s %zu bytes of which the one at offset %td may not be accessed", who,
                  write ? "writes" : "reads", n, static_cast<const char*>(bad) - static_cast<const char*>(p));
    volatile char c = *static_cast<volatile char*>(bad);
    (void) c;
    vks::fatal("operand-out-of-bounds", b);
  }
#endif
  (void) write;
  (void) who;
}
using L = long long;
// m x n block
template <class T>
void ge(const T* a, L m, L n, L ld, bool w, const char* who) {
  for (L j = 0; j < n; ++j)
    touch(a + j * ld, std::size_t(m < 0 ? 0 : m) * sizeof(T), w, who);
}
// triangle of a n x n block
template <class T>
void tr(const T* a, char uplo, char diag, L n, L ld, bool w, const char* who) {
  const L u = diag == 'U' || diag == 'u';
  for (L j = 0; j < n; ++j) {
    const L b = (uplo == 'L' || uplo == 'l') ? j + u : 0;
    const L e = (uplo == 'L' || uplo == 'l') ? n : j + 1 - u;
    if (e > b)
      touch(a + b + j * ld, std::size_t(e - b) * sizeof(T), w, who);
  }
}
template <class T>
void ve(const T* x, L n, L inc, bool w, const char* who) {
  if (inc < 0)
    inc = -inc;
  if (inc == 1)
    touch(x, std::size_t(n < 0 ? 0 : n) * sizeof(T), w, who);
  else
    for (L i = 0; i < n; ++i)
      touch(x + i * inc, sizeof(T), w, who);
}
bool is(char c, char u) { return (c & ~32) == u; }
template <class T>
bool zero(const T* x) { return *x == T(0); }
void* next(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if (!p)
    vks::fatal("no-symbol", n);
  return p;
}
}
std::int64_t get(int w) { return __atomic_load_n(&cnt[w], __ATOMIC_RELAXED); }
}
using namespace vkm;

#define NEXT(name, sig)                                    \
  static auto* fn = reinterpret_cast<sig>(next(#name "_"))

using I = const int*;
using C = const char*;
using Z = std::size_t;
#define WATCH if (!nested)
#define CALLED add(BLAS_CALLS, 1); nest vk_n

#define DEF3(p, T)                                                                                                      \
  void p##gemm_(C ta, C tb, I m, I n, I k, const T* al, const T* a, I lda, const T* b, I ldb, const T* be, T* c, I ldc, \
                Z x, Z y) {                                                                                             \
    using F = void (*)(C, C, I, I, I, const T*, const T*, I, const T*, I, const T*, T*, I, Z, Z);                       \
    NEXT(p##gemm, F);                                                                                                   \
    WATCH {                                                                                                             \
      if (*m > 0 && *n > 0) {                                                                                           \
        if (!zero(al)) {                                                                                                \
          is(*ta, 'N') ? ge(a, *m, *k, *lda, false, "gemm A") : ge(a, *k, *m, *lda, false, "gemm A");                   \
          is(*tb, 'N') ? ge(b, *k, *n, *ldb, false, "gemm B") : ge(b, *n, *k, *ldb, false, "gemm B");                   \
        }                                                                                                               \
        ge(c, *m, *n, *ldc, true, "gemm C");                                                                            \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc, x, y);                                                          \
  }                                                                                                                     \
  void p##gemv_(C t, I m, I n, const T* al, const T* a, I lda, const T* x, I ix, const T* be, T* y, I iy, Z z) {        \
    using F = void (*)(C, I, I, const T*, const T*, I, const T*, I, const T*, T*, I, Z);                                \
    NEXT(p##gemv, F);                                                                                                   \
    WATCH {                                                                                                             \
      if (*m > 0 && *n > 0) {                                                                                           \
        if (!zero(al)) {                                                                                                \
          ge(a, *m, *n, *lda, false, "gemv A");                                                                         \
          ve(x, is(*t, 'N') ? *n : *m, *ix, false, "gemv x");                                                           \
        }                                                                                                               \
        ve(y, is(*t, 'N') ? *m : *n, *iy, true, "gemv y");                                                              \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(t, m, n, al, a, lda, x, ix, be, y, iy, z);                                                                       \
  }                                                                                                                     \
  void p##trsm_(C s, C u, C t, C d, I m, I n, const T* al, const T* a, I lda, T* b, I ldb, Z z1, Z z2, Z z3, Z z4) {    \
    using F = void (*)(C, C, C, C, I, I, const T*, const T*, I, T*, I, Z, Z, Z, Z);                                     \
    NEXT(p##trsm, F);                                                                                                   \
    WATCH {                                                                                                             \
      if (*m > 0 && *n > 0) {                                                                                           \
        if (!zero(al))                                                                                                  \
          tr(a, *u, *d, is(*s, 'L') ? *m : *n, *lda, false, "trsm A");                                                  \
        ge(b, *m, *n, *ldb, true, "trsm B");                                                                            \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(s, u, t, d, m, n, al, a, lda, b, ldb, z1, z2, z3, z4);                                                           \
  }                                                                                                                     \
  void p##trmm_(C s, C u, C t, C d, I m, I n, const T* al, const T* a, I lda, T* b, I ldb, Z z1, Z z2, Z z3, Z z4) {    \
    using F = void (*)(C, C, C, C, I, I, const T*, const T*, I, T*, I, Z, Z, Z, Z);                                     \
    NEXT(p##trmm, F);                                                                                                   \
    WATCH {                                                                                                             \
      if (*m > 0 && *n > 0) {                                                                                           \
        if (!zero(al))                                                                                                  \
          tr(a, *u, *d, is(*s, 'L') ? *m : *n, *lda, false, "trmm A");                                                  \
        ge(b, *m, *n, *ldb, true, "trmm B");                                                                            \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(s, u, t, d, m, n, al, a, lda, b, ldb, z1, z2, z3, z4);                                                           \
  }                                                                                                                     \
  void p##trmv_(C u, C t, C d, I n, const T* a, I lda, T* x, I ix, Z z1, Z z2, Z z3) {                                  \
    using F = void (*)(C, C, C, I, const T*, I, T*, I, Z, Z, Z);                                                        \
    NEXT(p##trmv, F);                                                                                                   \
    WATCH {                                                                                                             \
      tr(a, *u, *d, *n, *lda, false, "trmv A");                                                                         \
      ve(x, *n, *ix, true, "trmv x");                                                                                   \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(u, t, d, n, a, lda, x, ix, z1, z2, z3);                                                                          \
  }                                                                                                                     \
  void p##axpy_(I n, const T* al, const T* x, I ix, T* y, I iy) {                                                       \
    using F = void (*)(I, const T*, const T*, I, T*, I);                                                                \
    NEXT(p##axpy, F);                                                                                                   \
    WATCH {                                                                                                             \
      ve(x, *n, *ix, false, "axpy x");                                                                                  \
      ve(y, *n, *iy, true, "axpy y");                                                                                   \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(n, al, x, ix, y, iy);                                                                                            \
  }                                                                                                                     \
  void p##scal_(I n, const T* al, T* x, I ix) {                                                                         \
    using F = void (*)(I, const T*, T*, I);                                                                             \
    NEXT(p##scal, F);                                                                                                   \
    WATCH { ve(x, *n, *ix, true, "scal x"); }                                                                           \
    CALLED;                                                                                                             \
    fn(n, al, x, ix);                                                                                                   \
  }                                                                                                                     \
  void p##copy_(I n, const T* x, I ix, T* y, I iy) {                                                                    \
    using F = void (*)(I, const T*, I, T*, I);                                                                          \
    NEXT(p##copy, F);                                                                                                   \
    WATCH {                                                                                                             \
      ve(x, *n, *ix, false, "copy x");                                                                                  \
      ve(y, *n, *iy, true, "copy y");                                                                                   \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(n, x, ix, y, iy);                                                                                                \
  }                                                                                                                     \
  void p##lacpy_(C u, I m, I n, const T* a, I lda, T* b, I ldb, Z z) {                                                  \
    using F = void (*)(C, I, I, const T*, I, T*, I, Z);                                                                 \
    NEXT(p##lacpy, F);                                                                                                  \
    WATCH {                                                                                                             \
      if (!is(*u, 'L') && !is(*u, 'U')) {                                                                               \
        ge(a, *m, *n, *lda, false, "lacpy A");                                                                          \
        ge(b, *m, *n, *ldb, true, "lacpy B");                                                                           \
      }                                                                                                                 \
      else if (*m == *n) {                                                                                              \
        tr(a, *u, 'N', *n, *lda, false, "lacpy A");                                                                     \
        tr(b, *u, 'N', *n, *ldb, true, "lacpy B");                                                                      \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(u, m, n, a, lda, b, ldb, z);                                                                                     \
  }                                                                                                                     \
  void p##laset_(C u, I m, I n, const T* o, const T* d, T* a, I lda, Z z) {                                             \
    using F = void (*)(C, I, I, const T*, const T*, T*, I, Z);                                                          \
    NEXT(p##laset, F);                                                                                                  \
    WATCH {                                                                                                             \
      if (!is(*u, 'L') && !is(*u, 'U'))                                                                                 \
        ge(a, *m, *n, *lda, true, "laset A");                                                                           \
      else if (*m == *n)                                                                                                \
        tr(a, *u, 'N', *n, *lda, true, "laset A");                                                                      \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(u, m, n, o, d, a, lda, z);                                                                                       \
  }                                                                                                                     \
  void p##potrf_(C u, I n, T* a, I lda, int* info, Z z) {                                                               \
    using F = void (*)(C, I, T*, I, int*, Z);                                                                           \
    NEXT(p##potrf, F);                                                                                                  \
    WATCH { tr(a, *u, 'N', *n, *lda, true, "potrf A"); }                                                                \
    CALLED;                                                                                                             \
    fn(u, n, a, lda, info, z);                                                                                          \
  }                                                                                                                     \
  void p##lauum_(C u, I n, T* a, I lda, int* info, Z z) {                                                               \
    using F = void (*)(C, I, T*, I, int*, Z);                                                                           \
    NEXT(p##lauum, F);                                                                                                  \
    WATCH { tr(a, *u, 'N', *n, *lda, true, "lauum A"); }                                                                \
    CALLED;                                                                                                             \
    fn(u, n, a, lda, info, z);                                                                                          \
  }                                                                                                                     \
  void p##trtri_(C u, C d, I n, T* a, I lda, int* info, Z z1, Z z2) {                                                   \
    using F = void (*)(C, C, I, T*, I, int*, Z, Z);                                                                     \
    NEXT(p##trtri, F);                                                                                                  \
    WATCH { tr(a, *u, *d, *n, *lda, true, "trtri A"); }                                                                 \
    CALLED;                                                                                                             \
    fn(u, d, n, a, lda, info, z1, z2);                                                                                  \
  }                                                                                                                     \
  void p##larfg_(I n, T* al, T* x, I ix, T* tau) {                                                                      \
    using F = void (*)(I, T*, T*, I, T*);                                                                               \
    NEXT(p##larfg, F);                                                                                                  \
    WATCH {                                                                                                             \
      touch(al, sizeof(T), true, "larfg alpha");                                                                        \
      ve(x, *n - 1, *ix, true, "larfg x");                                                                              \
      touch(tau, sizeof(T), true, "larfg tau");                                                                         \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(n, al, x, ix, tau);                                                                                              \
  }

// names and argument kinds that differ between real and complex
#define DEFH(p, T, R, hemm, herk, her2k, hegst, hemv, her2, ger)                                                        \
  void p##hemm##_(C s, C u, I m, I n, const T* al, const T* a, I lda, const T* b, I ldb, const T* be, T* c, I ldc,      \
                  Z z1, Z z2) {                                                                                         \
    using F = void (*)(C, C, I, I, const T*, const T*, I, const T*, I, const T*, T*, I, Z, Z);                          \
    NEXT(p##hemm, F);                                                                                                   \
    WATCH {                                                                                                             \
      if (*m > 0 && *n > 0) {                                                                                           \
        tr(a, *u, 'N', is(*s, 'L') ? *m : *n, *lda, false, "hemm A");                                                   \
        ge(b, *m, *n, *ldb, false, "hemm B");                                                                           \
        ge(c, *m, *n, *ldc, true, "hemm C");                                                                            \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(s, u, m, n, al, a, lda, b, ldb, be, c, ldc, z1, z2);                                                             \
  }                                                                                                                     \
  void p##herk##_(C u, C t, I n, I k, const R* al, const T* a, I lda, const R* be, T* c, I ldc, Z z1, Z z2) {           \
    using F = void (*)(C, C, I, I, const R*, const T*, I, const R*, T*, I, Z, Z);                                       \
    NEXT(p##herk, F);                                                                                                   \
    WATCH {                                                                                                             \
      if (*n > 0) {                                                                                                     \
        is(*t, 'N') ? ge(a, *n, *k, *lda, false, "herk A") : ge(a, *k, *n, *lda, false, "herk A");                      \
        tr(c, *u, 'N', *n, *ldc, true, "herk C");                                                                       \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(u, t, n, k, al, a, lda, be, c, ldc, z1, z2);                                                                     \
  }                                                                                                                     \
  void p##her2k##_(C u, C t, I n, I k, const T* al, const T* a, I lda, const T* b, I ldb, const R* be, T* c, I ldc,     \
                   Z z1, Z z2) {                                                                                        \
    using F = void (*)(C, C, I, I, const T*, const T*, I, const T*, I, const R*, T*, I, Z, Z);                          \
    NEXT(p##her2k, F);                                                                                                  \
    WATCH {                                                                                                             \
      if (*n > 0) {                                                                                                     \
        is(*t, 'N') ? ge(a, *n, *k, *lda, false, "her2k A") : ge(a, *k, *n, *lda, false, "her2k A");                    \
        is(*t, 'N') ? ge(b, *n, *k, *ldb, false, "her2k B") : ge(b, *k, *n, *ldb, false, "her2k B");                    \
        tr(c, *u, 'N', *n, *ldc, true, "her2k C");                                                                      \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(u, t, n, k, al, a, lda, b, ldb, be, c, ldc, z1, z2);                                                             \
  }                                                                                                                     \
  void p##hegst##_(I it, C u, I n, T* a, I lda, const T* b, I ldb, int* info, Z z1) {                                   \
    using F = void (*)(I, C, I, T*, I, const T*, I, int*, Z);                                                           \
    NEXT(p##hegst, F);                                                                                                  \
    WATCH {                                                                                                             \
      tr(a, *u, 'N', *n, *lda, true, "hegst A");                                                                        \
      tr(b, *u, 'N', *n, *ldb, false, "hegst B");                                                                       \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(it, u, n, a, lda, b, ldb, info, z1);                                                                             \
  }                                                                                                                     \
  void p##hemv##_(C u, I n, const T* al, const T* a, I lda, const T* x, I ix, const T* be, T* y, I iy, Z z1) {          \
    using F = void (*)(C, I, const T*, const T*, I, const T*, I, const T*, T*, I, Z);                                   \
    NEXT(p##hemv, F);                                                                                                   \
    WATCH {                                                                                                             \
      tr(a, *u, 'N', *n, *lda, false, "hemv A");                                                                        \
      ve(x, *n, *ix, false, "hemv x");                                                                                  \
      ve(y, *n, *iy, true, "hemv y");                                                                                   \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(u, n, al, a, lda, x, ix, be, y, iy, z1);                                                                         \
  }                                                                                                                     \
  void p##her2##_(C u, I n, const T* al, const T* x, I ix, const T* y, I iy, T* a, I lda, Z z1) {                       \
    using F = void (*)(C, I, const T*, const T*, I, const T*, I, T*, I, Z);                                             \
    NEXT(p##her2, F);                                                                                                   \
    WATCH {                                                                                                             \
      ve(x, *n, *ix, false, "her2 x");                                                                                  \
      ve(y, *n, *iy, false, "her2 y");                                                                                  \
      tr(a, *u, 'N', *n, *lda, true, "her2 A");                                                                         \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(u, n, al, x, ix, y, iy, a, lda, z1);                                                                             \
  }                                                                                                                     \
  void p##ger##_(I m, I n, const T* al, const T* x, I ix, const T* y, I iy, T* a, I lda) {                              \
    using F = void (*)(I, I, const T*, const T*, I, const T*, I, T*, I);                                                \
    NEXT(p##ger, F);                                                                                                    \
    WATCH {                                                                                                             \
      ve(x, *m, *ix, false, "ger x");                                                                                   \
      ve(y, *n, *iy, false, "ger y");                                                                                   \
      ge(a, *m, *n, *lda, true, "ger A");                                                                               \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(m, n, al, x, ix, y, iy, a, lda);                                                                                 \
  }

#define DEFR(p, T)                                                                                                      \
  void p##laed4_(I n, I i, const T* d, const T* z, T* delta, const T* rho, T* lam, int* info) {                         \
    using F = void (*)(I, I, const T*, const T*, T*, const T*, T*, int*);                                               \
    NEXT(p##laed4, F);                                                                                                  \
    WATCH {                                                                                                             \
      ve(d, *n, 1, false, "laed4 d");                                                                                   \
      ve(z, *n, 1, false, "laed4 z");                                                                                   \
      ve(delta, *n, 1, true, "laed4 delta");                                                                            \
      touch(lam, sizeof(T), true, "laed4 lambda");                                                                      \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(n, i, d, z, delta, rho, lam, info);                                                                              \
  }                                                                                                                     \
  void p##stedc_(C c, I n, T* d, T* e, T* z, I ldz, T* w, I lw, int* iw, I liw, int* info, Z z1) {                      \
    using F = void (*)(C, I, T*, T*, T*, I, T*, I, int*, I, int*, Z);                                                   \
    NEXT(p##stedc, F);                                                                                                  \
    WATCH {                                                                                                             \
      if (*lw != -1 && *liw != -1) {                                                                                    \
        ve(d, *n, 1, true, "stedc d");                                                                                  \
        ve(e, *n - 1, 1, true, "stedc e");                                                                              \
        ge(z, *n, *n, *ldz, true, "stedc Z");                                                                           \
      }                                                                                                                 \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(c, n, d, e, z, ldz, w, lw, iw, liw, info, z1);                                                                   \
  }                                                                                                                     \
  void p##rot_(I n, T* x, I ix, T* y, I iy, const T* c, const T* s) {                                                   \
    using F = void (*)(I, T*, I, T*, I, const T*, const T*);                                                            \
    NEXT(p##rot, F);                                                                                                    \
    WATCH {                                                                                                             \
      ve(x, *n, *ix, true, "rot x");                                                                                    \
      ve(y, *n, *iy, true, "rot y");                                                                                    \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    fn(n, x, ix, y, iy, c, s);                                                                                          \
  }                                                                                                                     \
  T p##dot_(I n, const T* x, I ix, const T* y, I iy) {                                                                  \
    using F = T (*)(I, const T*, I, const T*, I);                                                                       \
    NEXT(p##dot, F);                                                                                                    \
    WATCH {                                                                                                             \
      ve(x, *n, *ix, false, "dot x");                                                                                   \
      ve(y, *n, *iy, false, "dot y");                                                                                   \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    return fn(n, x, ix, y, iy);                                                                                         \
  }
#define DEFN(p, q, T, R)                                                                                                \
  R p##q##nrm2_(I n, const T* x, I ix) {                                                                                \
    using F = R (*)(I, const T*, I);                                                                                    \
    NEXT(p##q##nrm2, F);                                                                                                \
    WATCH { ve(x, *n, *ix, false, "nrm2 x"); }                                                                          \
    CALLED;                                                                                                             \
    return fn(n, x, ix);                                                                                                \
  }
#define DEFL(p, T, R)                                                                                                   \
  R p##lange_(C w, I m, I n, const T* a, I lda, R* work, Z z1) {                                                        \
    using F = R (*)(C, I, I, const T*, I, R*, Z);                                                                       \
    NEXT(p##lange, F);                                                                                                  \
    WATCH { ge(a, *m, *n, *lda, false, "lange A"); }                                                                    \
    CALLED;                                                                                                             \
    return fn(w, m, n, a, lda, work, z1);                                                                               \
  }                                                                                                                     \
  R p##lantr_(C w, C u, C d, I m, I n, const T* a, I lda, R* work, Z z1, Z z2, Z z3) {                                  \
    using F = R (*)(C, C, C, I, I, const T*, I, R*, Z, Z, Z);                                                           \
    NEXT(p##lantr, F);                                                                                                  \
    WATCH {                                                                                                             \
      if (*m == *n)                                                                                                     \
        tr(a, *u, *d, *n, *lda, false, "lantr A");                                                                      \
    }                                                                                                                   \
    CALLED;                                                                                                             \
    return fn(w, u, d, m, n, a, lda, work, z1, z2, z3);                                                                 \
  }

using cf = std::complex<float>;
using cd = std::complex<double>;
extern "C" {
DEF3(s, float)
DEF3(d, double)
DEF3(c, cf)
DEF3(z, cd)
DEFH(s, float, float, symm, syrk, syr2k, sygst, symv, syr2, ger)
DEFH(d, double, double, symm, syrk, syr2k, sygst, symv, syr2, ger)
DEFH(c, cf, float, hemm, herk, her2k, hegst, hemv, her2, gerc)
DEFH(z, cd, double, hemm, herk, her2k, hegst, hemv, her2, gerc)
DEFR(s, float)
DEFR(d, double)
DEFN(s, , float, float)
DEFN(d, , double, double)
DEFN(s, c, cf, float)
DEFN(d, z, cd, double)
DEFL(s, float, float)
DEFL(d, double, double)
DEFL(c, cf, float)
DEFL(z, cd, double)
}

// MPI: what is posted, its memory, and what lives
namespace {
void touch_type(const void* buf, int count, MPI_Datatype t, bool write, const char* who) {
#if defined(VK_TSAN) || defined(VK_ASAN)
  if (!buf || buf == MPI_IN_PLACE || count == 0)
    return;
  int ni, na, nd, comb;
  PMPI_Type_get_envelope(t, &ni, &na, &nd, &comb);
  MPI_Aint lb, ext, tlb, text;
  PMPI_Type_get_extent(t, &lb, &ext);
  PMPI_Type_get_true_extent(t, &tlb, &text);
  int size;
  PMPI_Type_size(t, &size);
  const char* p = static_cast<const char*>(buf);
  if (comb == MPI_COMBINER_VECTOR) {
    int iv[3];
    MPI_Datatype o;
    PMPI_Type_get_contents(t, 3, 0, 1, iv, nullptr, &o);
    int es;
    PMPI_Type_size(o, &es);
    for (int c = 0; c < count; ++c)
      for (int b = 0; b < iv[0]; ++b)
        touch(p + c * ext + std::ptrdiff_t(b) * iv[2] * es, std::size_t(iv[1]) * es, write, who);
  }
  else if (size == text)
    touch(p, std::size_t(size) * count, write, who);
#endif
  (void) buf, (void) count, (void) t, (void) write, (void) who;
}
}
extern "C" {
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  add(SENDS, 1);
  touch_type(b, n, t, false, "MPI_Isend");
  return PMPI_Isend(b, n, t, d, tag, c, r);
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  add(RECVS, 1);
  touch_type(b, n, t, true, "MPI_Irecv");
  return PMPI_Irecv(b, n, t, d, tag, c, r);
}
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) {
  add(COLLECTIVES, 1);
  int me;
  PMPI_Comm_rank(c, &me);
  touch_type(b, n, t, me != root, "MPI_Ibcast");
  return PMPI_Ibcast(b, n, t, root, c, r);
}
int MPI_Ireduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* r) {
  add(COLLECTIVES, 1);
  int me;
  PMPI_Comm_rank(c, &me);
  touch_type(s, n, t, false, "MPI_Ireduce");
  if (me == root)
    touch_type(b, n, t, true, "MPI_Ireduce");
  return PMPI_Ireduce(s, b, n, t, op, root, c, r);
}
int MPI_Iallreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* r) {
  add(COLLECTIVES, 1);
  touch_type(s, n, t, false, "MPI_Iallreduce");
  touch_type(b, n, t, true, "MPI_Iallreduce");
  return PMPI_Iallreduce(s, b, n, t, op, c, r);
}
#ifndef VK_NO_MPI_LIFE
int MPI_Type_vector(int a, int b, int c, MPI_Datatype o, MPI_Datatype* n) {
  add(LIVE_TYPES, 1);
  return PMPI_Type_vector(a, b, c, o, n);
}
int MPI_Type_contiguous(int a, MPI_Datatype o, MPI_Datatype* n) {
  add(LIVE_TYPES, 1);
  return PMPI_Type_contiguous(a, o, n);
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ex, MPI_Datatype* n) {
  add(LIVE_TYPES, 1);
  return PMPI_Type_create_resized(o, lb, ex, n);
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* n) {
  add(LIVE_TYPES, 1);
  return PMPI_Type_dup(o, n);
}
int MPI_Type_free(MPI_Datatype* t) {
  add(LIVE_TYPES, -1);
  return PMPI_Type_free(t);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
  add(LIVE_COMMS, 1);
  return PMPI_Comm_dup(c, n);
}
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* n) {
  int rc = PMPI_Comm_split(c, col, key, n);
  if (rc == MPI_SUCCESS && *n != MPI_COMM_NULL)
    add(LIVE_COMMS, 1);
  return rc;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* n) {
  int rc = PMPI_Comm_create(c, g, n);
  if (rc == MPI_SUCCESS && *n != MPI_COMM_NULL)
    add(LIVE_COMMS, 1);
  return rc;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm* n) {
  int rc = PMPI_Comm_create_group(c, g, tag, n);
  if (rc == MPI_SUCCESS && *n != MPI_COMM_NULL)
    add(LIVE_COMMS, 1);
  return rc;
}
int MPI_Comm_free(MPI_Comm* c) {
  add(LIVE_COMMS, -1);
  return PMPI_Comm_free(c);
}
#endif
}
