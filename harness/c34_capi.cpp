// C34: the C interface. The routines behind it are replaced (unless VK_REAL) by ones whose result depends on everything the
// wrappers hand over: the kind of problem, the triangle, the range of the spectrum, every element of the operands, the grid.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <climits>
#include <map>

#include <alg.hpp>

#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/sender/transform.h>
#include <dlaf_c/eigensolver/eigensolver.h>
#include <dlaf_c/eigensolver/gen_eigensolver.h>
#include <dlaf_c/factorization/cholesky.h>
#include <dlaf_c/grid.h>
#include <dlaf_c/init.h>
#include <dlaf_c/inverse/cholesky.h>
using namespace alg;
#define CASE(...) vk::case_begin(cat(__VA_ARGS__))

static std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  std::uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c159e3779b9ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
template <class T>
T value_of(std::uint64_t h) {
  const Real<T> re = Real<T>(double(h >> 40) / double(1 << 24) - 0.5);
  if constexpr (is_cx<T>)
    return T(re, Real<T>(double((h >> 8) & 0xffffff) / double(1 << 24) - 0.5));
  else
    return re;
}
template <class T>
std::uint64_t bits_of(const T& x) {
  std::uint64_t h = 0;
  unsigned char b[sizeof(T)];
  std::memcpy(b, &x, sizeof(T));
  for (unsigned char c : b)
    h = h * 257 + c;
  return h;
}

// ---------------------------------------------------------------- the routines behind the interface
enum Kind { CHOL = 1, INV, EIG, GEIG, GEIG_FACT, N_KINDS, TRI, TRI_UNIT };

template <class T, class F>
void each_tile(Matrix<T, Device::CPU>& m, F f) {
  const Distribution d = m.distribution();
  for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
      const LocalTileIndex l(i, j);
      const GlobalElementIndex o = d.global_element_index(d.global_tile_index(l), {0, 0});
      f(l, o);
    }
}
// changes one triangle in place, later
template <class T>
void fake_update(Matrix<T, Device::CPU>& m, blas::Uplo u, std::uint64_t salt) {
  each_tile(m, [&](LocalTileIndex l, GlobalElementIndex o) {
    dlaf::internal::transformDetach(
        dlaf::internal::Policy<Backend::MC>(),
        [=](const matrix::Tile<T, Device::CPU>& t) {
          usleep(unsigned(salt % 60));
          for (SizeType b = 0; b < t.size().cols(); ++b)
            for (SizeType a = 0; a < t.size().rows(); ++a) {
              const SizeType i = o.row() + a, j = o.col() + b;
              if (in_tri(u, i, j))
                t({a, b}) = value_of<T>(mix(mix(mix(salt, std::uint64_t(i)), std::uint64_t(j)), bits_of(t({a, b}))));
            }
        },
        m.readwrite(l));
  });
}
// depends on all elements of a triangle and on the shape and the order of the grid
template <class T>
std::uint64_t digest(comm::CommunicatorGrid& grid, Matrix<T, Device::CPU>& m, blas::Uplo u) {
  std::uint64_t h = 0;
  each_tile(m, [&](LocalTileIndex l, GlobalElementIndex o) {
    auto t = tt::sync_wait(m.read(l));
    for (SizeType b = 0; b < t.get().size().cols(); ++b)
      for (SizeType a = 0; a < t.get().size().rows(); ++a)
        if (in_tri(u, o.row() + a, o.col() + b))
          h += mix(mix(std::uint64_t(o.row() + a), std::uint64_t(o.col() + b)), bits_of(t.get()({a, b})));
  });
  auto p = grid.full_communicator_pipeline();
  auto c = tt::sync_wait(p.exclusive());
  std::uint64_t s = 0;
  PMPI_Allreduce(&h, &s, 1, MPI_UINT64_T, MPI_SUM, c.get());
  return s;
}
static std::uint64_t kind_salt(Kind k, blas::Uplo u, SizeType b, SizeType e) {
  return mix(mix(mix(std::uint64_t(k), std::uint64_t(char(u))), std::uint64_t(b)), std::uint64_t(e));
}
template <class T>
void fake_eigen(Kind k, comm::CommunicatorGrid& grid, blas::Uplo u, Matrix<T, Device::CPU>& a, Matrix<T, Device::CPU>* b,
                Matrix<Real<T>, Device::CPU>& w, Matrix<T, Device::CPU>& z, SizeType beg, SizeType end) {
  std::uint64_t salt = mix(kind_salt(k, u, beg, end), digest(grid, a, u));
  if (b)
    salt = mix(salt, digest(grid, *b, u));
  fake_update(a, u, mix(salt, 1));
  if (b && k == GEIG)
    fake_update(*b, u, mix(salt, 2));
  each_tile(w, [&](LocalTileIndex l, GlobalElementIndex o) {
    dlaf::internal::transformDetach(
        dlaf::internal::Policy<Backend::MC>(),
        [=](const matrix::Tile<Real<T>, Device::CPU>& t) {
          usleep(unsigned(salt % 50));
          for (SizeType i = 0; i < t.size().rows(); ++i)
            t({i, 0}) = value_of<Real<T>>(mix(salt, std::uint64_t(o.row() + i)));
        },
        w.readwrite(l));
  });
  each_tile(z, [&](LocalTileIndex l, GlobalElementIndex o) {
    dlaf::internal::transformDetach(
        dlaf::internal::Policy<Backend::MC>(),
        [=](const matrix::Tile<T, Device::CPU>& t) {
          usleep(unsigned(salt % 70));
          for (SizeType y = 0; y < t.size().cols(); ++y)
            for (SizeType x = 0; x < t.size().rows(); ++x)
              if (o.col() + y < end)
                t({x, y}) = value_of<T>(mix(mix(mix(salt, 3), std::uint64_t(o.row() + x)), std::uint64_t(o.col() + y)));
        },
        z.readwrite(l));
  });
}
template <class T>
void fake_inplace(Kind k, comm::CommunicatorGrid& grid, blas::Uplo u, Matrix<T, Device::CPU>& a) {
  fake_update(a, u, mix(kind_salt(k, u, 0, 0), digest(grid, a, u)));
}

namespace dlaf::eigensolver::internal {
template <Backend B, Device D, class T>
void Eigensolver<B, D, T>::call(blas::Uplo, Matrix<T, D>&, Matrix<BaseType<T>, D>&, Matrix<T, D>&, const SizeType, const SizeType) {
  std::abort();
}
template <Backend B, Device D, class T>
void Eigensolver<B, D, T>::call(comm::CommunicatorGrid& grid, blas::Uplo u, Matrix<T, D>& a, Matrix<BaseType<T>, D>& w,
                                Matrix<T, D>& z, const SizeType b, const SizeType e) {
  fake_eigen<T>(EIG, grid, u, a, nullptr, w, z, b, e);
}
template <Backend B, Device D, class T>
void GenEigensolver<B, D, T>::call(blas::Uplo, Matrix<T, D>&, Matrix<T, D>&, Matrix<BaseType<T>, D>&, Matrix<T, D>&,
                                   const Factorization, const SizeType, const SizeType) {
  std::abort();
}
template <Backend B, Device D, class T>
void GenEigensolver<B, D, T>::call(comm::CommunicatorGrid& grid, blas::Uplo u, Matrix<T, D>& a, Matrix<T, D>& bm,
                                   Matrix<BaseType<T>, D>& w, Matrix<T, D>& z, const Factorization f, const SizeType b,
                                   const SizeType e) {
  fake_eigen<T>(f == Factorization::do_factorization ? GEIG : GEIG_FACT, grid, u, a, &bm, w, z, b, e);
}
#define ONE(T) DLAF_EIGENSOLVER_ETI(, Backend::MC, Device::CPU, T) DLAF_EIGENSOLVER_GEN_ETI(, Backend::MC, Device::CPU, T)
ONE(float) ONE(double) ONE(std::complex<float>) ONE(std::complex<double>)
#undef ONE
}
#ifndef VK_REAL
namespace dlaf::factorization::internal {
template <Backend B, Device D, class T>
void Cholesky<B, D, T>::call_L(Matrix<T, D>&) {
  std::abort();
}
template <Backend B, Device D, class T>
void Cholesky<B, D, T>::call_U(Matrix<T, D>&) {
  std::abort();
}
template <Backend B, Device D, class T>
void Cholesky<B, D, T>::call_L(comm::CommunicatorGrid& g, Matrix<T, D>& a) {
  fake_inplace(CHOL, g, blas::Uplo::Lower, a);
}
template <Backend B, Device D, class T>
void Cholesky<B, D, T>::call_U(comm::CommunicatorGrid& g, Matrix<T, D>& a) {
  fake_inplace(CHOL, g, blas::Uplo::Upper, a);
}
#define ONE(T) DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, T)
ONE(float) ONE(double) ONE(std::complex<float>) ONE(std::complex<double>)
#undef ONE
}
namespace dlaf::inverse::internal {
template <Backend B, Device D, class T>
void Triangular<B, D, T>::call_L(blas::Diag, Matrix<T, D>&) {
  std::abort();
}
template <Backend B, Device D, class T>
void Triangular<B, D, T>::call_U(blas::Diag, Matrix<T, D>&) {
  std::abort();
}
template <Backend B, Device D, class T>
void Triangular<B, D, T>::call_L(comm::CommunicatorGrid& g, blas::Diag d, Matrix<T, D>& a) {
  fake_inplace(d == blas::Diag::Unit ? TRI_UNIT : TRI, g, blas::Uplo::Lower, a);
}
template <Backend B, Device D, class T>
void Triangular<B, D, T>::call_U(comm::CommunicatorGrid& g, blas::Diag d, Matrix<T, D>& a) {
  fake_inplace(d == blas::Diag::Unit ? TRI_UNIT : TRI, g, blas::Uplo::Upper, a);
}
template <Backend B, Device D, class T>
void AssembleCholeskyInverse<B, D, T>::call_L(Matrix<T, D>&) {
  std::abort();
}
template <Backend B, Device D, class T>
void AssembleCholeskyInverse<B, D, T>::call_U(Matrix<T, D>&) {
  std::abort();
}
template <Backend B, Device D, class T>
void AssembleCholeskyInverse<B, D, T>::call_L(comm::CommunicatorGrid& g, Matrix<T, D>& a) {
  fake_inplace(INV, g, blas::Uplo::Lower, a);
}
template <Backend B, Device D, class T>
void AssembleCholeskyInverse<B, D, T>::call_U(comm::CommunicatorGrid& g, Matrix<T, D>& a) {
  fake_inplace(INV, g, blas::Uplo::Upper, a);
}
#define ONE(T) DLAF_INVERSE_CHOLESKY_ETI(, Backend::MC, Device::CPU, T) DLAF_INVERSE_TRIANGULAR_ETI(, Backend::MC, Device::CPU, T)
ONE(float) ONE(double) ONE(std::complex<float>) ONE(std::complex<double>)
#undef ONE
}
#endif

// ---------------------------------------------------------------- BLACS, as far as the library asks for it
struct Blacs {
  MPI_Comm comm;
  int rows, cols, row, col;
};
static std::map<int, Blacs> blacs;
extern "C" MPI_Comm Cblacs2sys_handle(int h) {
  auto it = blacs.find(h - 1000);
  return it == blacs.end() ? MPI_COMM_NULL : it->second.comm;
}
extern "C" void Cblacs_get(int ctx, int what, int* v) {
  *v = what == 10 ? 1000 + ctx : -1;
}
extern "C" void Cblacs_gridinfo(int ctx, int* np, int* mp, int* px, int* py) {
  auto it = blacs.find(ctx);
  *np = *mp = *px = *py = -1;
  if (it == blacs.end())
    return;
  *np = it->second.rows;
  *mp = it->second.cols;
  *px = it->second.row;
  *py = it->second.col;
}

// ---------------------------------------------------------------- the interface, by element type
template <class T>
struct Api {
  using R = Real<T>;
  using D = DLAF_descriptor;
  int (*inplace[2])(int, char, T*, D);                                                // CHOL, INV
  int (*eig)(int, char, T*, D, R*, T*, D);
  int (*eig_part)(int, char, T*, D, R*, T*, D, SizeType, SizeType);
  int (*gen[2])(int, char, T*, D, T*, D, R*, T*, D);                                    // GEIG, GEIG_FACT
  int (*gen_part[2])(int, char, T*, D, T*, D, R*, T*, D, SizeType, SizeType);
  void (*p_inplace[2])(char, int, T*, int, int, const int*, int*);
  void (*p_eig)(char, int, T*, int, int, const int*, R*, T*, int, int, const int*, int*);
  void (*p_eig_part)(char, int, T*, int, int, const int*, R*, T*, int, int, const int*, SizeType, SizeType, int*);
  void (*p_gen[2])(char, int, T*, int, int, const int*, T*, int, int, const int*, R*, T*, int, int, const int*, int*);
  void (*p_gen_part[2])(char, int, T*, int, int, const int*, T*, int, int, const int*, R*, T*, int, int, const int*, SizeType,
                        SizeType, int*);
};
// a C pointer parameter `const int desc[9]` and the noexcept of the declarations decay away in the assignment
template <class T>
Api<T> api();
#define API(T, x, sym, psy)                                                                                                \
  template <>                                                                                                              \
  Api<T> api<T>() {                                                                                                        \
    return {{dlaf_cholesky_factorization_##x, dlaf_inverse_from_cholesky_factor_##x},                                      \
            dlaf_##sym##_eigensolver_##x,                                                                                  \
            dlaf_##sym##_eigensolver_partial_spectrum_##x,                                                                 \
            {dlaf_##sym##_generalized_eigensolver_##x, dlaf_##sym##_generalized_eigensolver_factorized_##x},                \
            {dlaf_##sym##_generalized_eigensolver_partial_spectrum_##x,                                                    \
             dlaf_##sym##_generalized_eigensolver_partial_spectrum_factorized_##x},                                        \
            {dlaf_p##x##potrf, dlaf_p##x##potri},                                                                          \
            dlaf_p##x##psy##evd,                                                                                           \
            dlaf_p##x##psy##evd_partial_spectrum,                                                                          \
            {dlaf_p##x##psy##gvd, dlaf_p##x##psy##gvd_factorized},                                                         \
            {dlaf_p##x##psy##gvd_partial_spectrum, dlaf_p##x##psy##gvd_partial_spectrum_factorized}};                      \
  }
API(float, s, symmetric, sy)
API(double, d, symmetric, sy)
API(std::complex<float>, c, hermitian, he)
API(std::complex<double>, z, hermitian, he)

// ---------------------------------------------------------------- processes and grids
static int world_rank, np;
struct Split {  // one way to divide the processes
  MPI_Comm comm = MPI_COMM_NULL;
  int rank = 0, size = 1, index = 0;
};
static std::vector<Split> splits;
struct Slot {  // a grid, as the caller knows it
  int split = 0, ctx = -1, rows = 1, cols = 1;
  bool col_major = false, from_blacs = false, member = true;
  int row = 0, col = 0;
  std::string desc() const {
    return cat(rows, "x", cols, col_major ? "C" : "R", from_blacs ? "b" : "", " split ", split, " ctx ", from_blacs ? ctx : INT_MAX - ctx);
  }
};
static std::map<int, Slot> slots;  // by a number that is the same on all processes
static int next_slot = 0, next_blacs = 0;
static std::vector<int> retired;  // contexts that were freed
static void retire(const Slot& s) {
  retired.push_back(s.ctx);
}
static bool live(int ctx) {
  for (auto& k : slots)
    if (k.second.ctx == ctx)
      return true;
  return false;
}

static void position(Slot& s, const Split& p) {
  s.member = p.rank < s.rows * s.cols;
  s.row = s.col_major ? p.rank % s.rows : p.rank / s.cols;
  s.col = s.col_major ? p.rank / s.rows : p.rank % s.cols;
}
static void shape(Slot& s, const Split& p, Rng& gr, bool full) {
  std::vector<std::pair<int, int>> all;
  for (int r = 1; r <= p.size; ++r)
    for (int c = 1; r * c <= p.size; ++c)
      if (!full || r * c == p.size)
        all.push_back({r, c});
  const auto x = gr.pick(all);
  s.rows = x.first;
  s.cols = x.second;
  s.col_major = gr.chance(1, 2);
}
static void create(Rng& all) {
  const int id = next_slot++;
  Slot s;
  s.split = all.irange(0, int(splits.size()) - 1);
  s.from_blacs = all.chance(1, 3);
  Split& p = splits[std::size_t(s.split)];
  Rng gr(mix(all.u64(), std::uint64_t(p.index)));
  // most of the time all processes of the communicator take part in the grid
  shape(s, p, gr, s.from_blacs || gr.chance(3, 4));
  position(s, p);
  if (s.from_blacs) {
    s.ctx = next_blacs++;
    blacs[s.ctx] = {p.comm, s.rows, s.cols, s.row, s.col};
    CASE("create-blacs ", s.desc());
    dlaf_create_grid_from_blacs(s.ctx);
    vk::count("grids taken from BLACS");
  }
  else {
    const char o = s.col_major ? (gr.chance(1, 2) ? 'C' : 'c') : (gr.chance(1, 2) ? 'R' : 'r');
    CASE("create ", s.rows, "x", s.cols, std::string(1, o), " of ", p.size, " live ", slots.size());
    s.ctx = dlaf_create_grid(p.comm, s.rows, s.cols, o);
    vk::count("grids created");
    // far away from the contexts of BLACS
    VK_CHECK(s.ctx > INT_MAX / 2, "context-range", "context ", s.ctx);
  }
  for (auto& k : slots)
    VK_CHECK(k.second.ctx != s.ctx, "context-twice", "the new grid got context ", s.ctx, " of a live one (", k.second.desc(), ")");
  slots[id] = s;
  // what the ordering function says about it
  if (s.rows * s.cols == p.size) {
    const char want = s.col_major || s.rows == 1 || s.cols == 1 ? 'C' : 'R';
    const char got = grid_ordering(p.comm, s.rows, s.cols, s.row, s.col);
    VK_CHECK(got == want, "ordering", got, " instead of ", want, " for ", s.desc());
    vk::count("orderings asked");
  }
}

// ---------------------------------------------------------------- local arrays of a caller
static int numroc(int n, int nb, int rank, int src, int procs) {
  int c = 0;
  for (int i = 0; i < n; ++i)
    c += (i / nb + src) % procs == rank;
  return c;
}
template <class T>
struct Local {
  int n, nb, isrc, jsrc, ld, lr, lc;
  const Slot& s;
  std::vector<T> init;
  std::unique_ptr<T[]> p;
  std::size_t size;
  std::vector<int> gi, gj;  // global index of the local rows and columns
  Local(const Slot& s_, int n_, int nb_, int isrc_, int jsrc_, int extra, bool exact) : n(n_), nb(nb_), isrc(isrc_), jsrc(jsrc_), s(s_) {
    for (int i = 0; i < n; ++i) {
      if ((i / nb + isrc) % s.rows == s.row)
        gi.push_back(i);
      if ((i / nb + jsrc) % s.cols == s.col)
        gj.push_back(i);
    }
    lr = int(gi.size());
    lc = int(gj.size());
    ld = std::max(1, lr) + extra;
    size = lr == 0 || lc == 0 ? 0 : exact ? std::size_t(ld) * std::size_t(lc - 1) + std::size_t(lr) : std::size_t(ld) * std::size_t(lc);
    p.reset(new T[size]);
    std::memset(static_cast<void*>(p.get()), 0x5a, size * sizeof(T));
  }
  template <class F>
  void fill(F&& f) {
    for (int j = 0; j < lc; ++j)
      for (int i = 0; i < lr; ++i)
        p[std::size_t(i) + std::size_t(j) * std::size_t(ld)] = f(gi[std::size_t(i)], gj[std::size_t(j)]);
    init.assign(p.get(), p.get() + size);
  }
  DLAF_descriptor desc() const { return {n, n, nb, nb, isrc, jsrc, 0, 0, ld}; }
  // ScaLAPACK's; the array may belong to a larger matrix with the same first block
  std::vector<int> sdesc(int larger) const { return {1, s.ctx, n + larger, n + larger, nb, nb, isrc, jsrc, ld}; }
  // against the native result
  void check(const Ref<T>& want, const char* who) const {
    std::size_t changed = 0;
    for (std::size_t k = 0; k < size; ++k) {
      const int i = int(k % std::size_t(ld)), j = int(k / std::size_t(ld));
      if (i >= lr) {
        if (!same_bits(p[k], init[k])) {
          vk::violation(cat("padding:", who), cat(who, ": local element (", i, ",", j, ") below the ", lr, " rows was written"));
          return;
        }
        vk::count("padding elements compared");
        continue;
      }
      const T& w = want(gi[std::size_t(i)], gj[std::size_t(j)]);
      if (!same_bits(p[k], w)) {
        vk::violation(cat("result:", who), cat(who, ": element (", gi[std::size_t(i)], ",", gj[std::size_t(j)], ") is ", p[k],
                                               ", the native interface gives ", w, ", before ", init[k]));
        return;
      }
      changed += !same_bits(p[k], init[k]);
    }
    vk::count("elements compared", std::uint64_t(lr) * std::uint64_t(lc));
    vk::count("elements changed by a call", changed);
  }
};

static bool suspended_now() {
  return vks::running() && vks::suspended();
}

template <class T>
static Ref<T> whole(Group& g, Matrix<T, Device::CPU>& m) {
  Ref<T> r(m.size().rows(), m.size().cols());
  std::memset(static_cast<void*>(r.v.data()), 0, r.v.size() * sizeof(T));
  each_tile(m, [&](LocalTileIndex l, GlobalElementIndex o) {
    auto t = tt::sync_wait(m.read(l));
    for (SizeType b = 0; b < t.get().size().cols(); ++b)
      for (SizeType a = 0; a < t.get().size().rows(); ++a)
        r(o.row() + a, o.col() + b) = t.get()({a, b});
  });
  gather_bits(g, r.v.data(), r.v.size() * sizeof(T));
  return r;
}

template <class T>
static void compute(const Slot& s, Rng& gr, Rng& pr, int slot_id, int combination) {
  const Api<T> f = api<T>();
#ifdef VK_REAL
  const Kind k = combination % 2 ? CHOL : INV;
  const int n = gr.irange(0, 40);
#else
  const Kind k = Kind(1 + combination % (N_KINDS - 1));
  const bool large = gr.chance(1, 30);
  const int n = gr.chance(1, 12) ? 0 : gr.irange(1, large ? 120 : 23);
#endif
#ifdef VK_REAL
  const int nb = gr.irange(1, 7);
#else
  const int nb = large ? gr.irange(1, 70) : gr.irange(1, 7);
#endif
  const bool lower = gr.chance(1, 2);
  const blas::Uplo uplo = lower ? blas::Uplo::Lower : blas::Uplo::Upper;
  const char uc = lower ? (gr.chance(1, 2) ? 'L' : 'l') : (gr.chance(1, 2) ? 'U' : 'u');
  const bool scal = combination / 5 % 2, part = combination / 10 % 2;
  const SizeType end = part ? (n == 0 ? 0 : gr.irange(1, n)) : n;
  const int larger = gr.chance(1, 3) ? gr.irange(1, 5) : 0;
  struct Src {
    int r, c;
  } src[3];
  for (auto& x : src)
    x = {gr.irange(0, s.rows - 1), gr.irange(0, s.cols - 1)};
#ifdef VK_REAL
  src[1] = src[2] = src[0];
#endif
  std::vector<int> ex{pr.chance(1, 2) ? 0 : pr.irange(1, 5), pr.chance(1, 2) ? 0 : pr.irange(1, 5), pr.chance(1, 2) ? 0 : pr.irange(1, 5)};
  const std::uint64_t salt = gr.u64();
  static const char* names[] = {"", "chol", "inv", "eig", "geig", "geigf"};
  CASE(names[k], scal ? " scalapack" : " native", part ? " partial" : "", " ", name_of<T>::v, " n=", n, " nb=", nb, " uplo=", std::string(1, uc), " end=", end,
                 " src=", src[0].r, ",", src[0].c, "/", src[1].r, ",", src[1].c, "/", src[2].r, ",", src[2].c, " grid ", s.desc(), " slot ", slot_id);
  vk::nontrivial(cat(names[k], scal, part, name_of<T>::v, n, ".", nb, uc, end, ".", src[0].r, src[0].c, src[2].r, src[2].c, s.rows, s.cols, s.col_major));
#ifdef VK_REAL
  Rng vr(salt);
  Ref<T> ra = k == CHOL ? random_hpd<T>(vr, n) : random_tri<T>(vr, n, false);
  poison_outside(ra, uplo);
  auto av = [&](int i, int j) { return ra(i, j); };
#else
  auto av = [&](int i, int j) { return value_of<T>(mix(mix(salt, std::uint64_t(i)), std::uint64_t(j))); };
#endif
  auto bv = [&](int i, int j) { return value_of<T>(mix(mix(salt + 1, std::uint64_t(i)), std::uint64_t(j))); };
  auto zv = [&](int i, int j) { return value_of<T>(mix(mix(salt + 2, std::uint64_t(i)), std::uint64_t(j))); };

  Local<T> a(s, n, nb, src[0].r, src[0].c, ex[0], pr.chance(1, 2)), b(s, n, nb, src[1].r, src[1].c, ex[1], pr.chance(1, 2)),
      z(s, n, nb, src[2].r, src[2].c, ex[2], pr.chance(1, 2));
  a.fill(av);
  b.fill(bv);
  z.fill(zv);
  std::unique_ptr<Real<T>[]> w(new Real<T>[std::size_t(n)]);
  std::fill(w.get(), w.get() + n, Real<T>(77));

  // the call
  int info = 4711;
  const SizeType one = 1;
  const std::vector<int> sa = a.sdesc(larger), sb = b.sdesc(larger), sz = z.sdesc(larger);
  const int g = k == GEIG ? 0 : 1;
  switch (k) {
    case CHOL:
    case INV:
      if (scal)
        f.p_inplace[k == CHOL ? 0 : 1](uc, n, a.p.get(), 1, 1, sa.data(), &info);
      else
        info = f.inplace[k == CHOL ? 0 : 1](s.ctx, uc, a.p.get(), a.desc());
      break;
    case EIG:
      if (scal && part)
        f.p_eig_part(uc, n, a.p.get(), 1, 1, sa.data(), w.get(), z.p.get(), 1, 1, sz.data(), one, end, &info);
      else if (scal)
        f.p_eig(uc, n, a.p.get(), 1, 1, sa.data(), w.get(), z.p.get(), 1, 1, sz.data(), &info);
      else if (part)
        info = f.eig_part(s.ctx, uc, a.p.get(), a.desc(), w.get(), z.p.get(), z.desc(), 0, end);
      else
        info = f.eig(s.ctx, uc, a.p.get(), a.desc(), w.get(), z.p.get(), z.desc());
      break;
    default:
      if (scal && part)
        f.p_gen_part[g](uc, n, a.p.get(), 1, 1, sa.data(), b.p.get(), 1, 1, sb.data(), w.get(), z.p.get(), 1, 1, sz.data(), one, end, &info);
      else if (scal)
        f.p_gen[g](uc, n, a.p.get(), 1, 1, sa.data(), b.p.get(), 1, 1, sb.data(), w.get(), z.p.get(), 1, 1, sz.data(), &info);
      else if (part)
        info = f.gen_part[g](s.ctx, uc, a.p.get(), a.desc(), b.p.get(), b.desc(), w.get(), z.p.get(), z.desc(), 0, end);
      else
        info = f.gen[g](s.ctx, uc, a.p.get(), a.desc(), b.p.get(), b.desc(), w.get(), z.p.get(), z.desc());
  }
  VK_CHECK(info == 0, "info", "the call reports ", info);
  VK_CHECK(suspended_now(), "left-running", "the task runtime still runs after a call of the C interface");
  const auto st = vks::get_stats();
  VK_CHECK(st.submitted == st.executed, "work-left", st.submitted - st.executed, " tasks are left behind by the call");
  // what is there now is what the caller gets
  std::vector<T> now_a(a.p.get(), a.p.get() + a.size), now_z(z.p.get(), z.p.get() + z.size);
  vk::count(scal ? "calls in the style of ScaLAPACK" : "calls of the plain C interface");

  // the same with the native interface
  pika::resume();
  {
    Group gg;
    gg.comm = splits[std::size_t(s.split)].comm;
    gg.size = s.rows * s.cols;
    // all members of the grid take part; the communicator to gather on is the grid's own
    comm::CommunicatorGrid grid(comm::Communicator(gg.comm), s.rows, s.cols,
                                s.col_major ? common::Ordering::ColumnMajor : common::Ordering::RowMajor);
    auto dist = [&](int q) {
      return Distribution(GlobalElementSize(n, n), TileElementSize(nb, nb), comm::Size2D(s.rows, s.cols), comm::Index2D(s.row, s.col),
                          comm::Index2D(src[q].r, src[q].c));
    };
    Matrix<T, Device::CPU> ma(dist(0)), mb(dist(1)), mz(dist(2));
    Matrix<Real<T>, Device::CPU> mw(LocalElementSize(n, 1), TileElementSize(nb, 1));
    auto put = [&](auto& m, auto& v) {
      each_tile(m, [&](LocalTileIndex l, GlobalElementIndex o) {
        auto t = tt::sync_wait(m.readwrite(l));
        for (SizeType y = 0; y < t.size().cols(); ++y)
          for (SizeType x = 0; x < t.size().rows(); ++x)
            t({x, y}) = v(int(o.row() + x), int(o.col() + y));
      });
    };
    put(ma, av);
    put(mb, bv);
    put(mz, zv);
    constexpr Backend B = Backend::MC;
    constexpr Device D = Device::CPU;
    if (k == CHOL)
      cholesky_factorization<B, D, T>(grid, uplo, ma);
    else if (k == INV)
      inverse_from_cholesky_factor<B, D, T>(grid, uplo, ma);
    else if (k == EIG)
      hermitian_eigensolver<B, D, T>(grid, uplo, ma, mw, mz, SizeType(0), end);
    else if (k == GEIG)
      hermitian_generalized_eigensolver<B, D, T>(grid, uplo, ma, mb, mw, mz, SizeType(0), end);
    else
      hermitian_generalized_eigensolver_factorized<B, D, T>(grid, uplo, ma, mb, mw, mz, SizeType(0), end);
    pika::wait();
    {
      auto pipe = grid.full_communicator_pipeline();
      auto c = tt::sync_wait(pipe.exclusive());
      gg.comm = c.get();
      const Ref<T> wa = whole(gg, ma), wb = whole(gg, mb), wz = whole(gg, mz);
      a.check(wa, "A");
      b.check(wb, "B");
      z.check(wz, "Z");
    }
    if (k >= EIG)
      each_tile(mw, [&](LocalTileIndex l, GlobalElementIndex o) {
        auto t = tt::sync_wait(mw.read(l));
        for (SizeType x = 0; x < t.get().size().rows(); ++x)
          VK_CHECK(same_bits(t.get()({x, 0}), w[std::size_t(o.row() + x)]), "result:W", "eigenvalue ", o.row() + x, " is ", w[std::size_t(o.row() + x)],
                   ", the native interface gives ", t.get()({x, 0}));
      });
  }
  pika::suspend();
}

// ---------------------------------------------------------------- what must be refused
static void refused(const Slot& s, Rng& pr) {
  using T = double;
  const Api<T> f = api<T>();
  // arguments of a correct call on this grid
  const int n = pr.irange(4, 12), nb = pr.irange(1, 4);
  Local<T> a(s, n, nb, 0, 0, 0, false), z(s, n, nb, 0, 0, 0, false);
  a.fill([](int, int) { return 1.; });
  z.fill([](int, int) { return 1.; });
  std::vector<T> w(std::size_t(n), 0.);
  const int what = pr.irange(0, 15);
  CASE("refused ", what, " n=", n, " nb=", nb, " grid ", s.desc());
  // never created, or freed
  int dead = INT_MAX - 500;
  if (!retired.empty() && pr.chance(3, 4)) {
    const int c = pr.pick(retired);
    if (!live(c))
      dead = c;
  }
  DLAF_descriptor d = a.desc();
  std::vector<int> sd = a.sdesc(0), sz = z.sdesc(0);
  int ctx = s.ctx, ia = 1, ja = 1, iz = 1, info = 0;
  char u = 'L';
  SizeType beg = 1, end = n;
  bool scal = pr.chance(1, 2);
  bool eig = false, partial = false;
  bool ok = false;
  switch (what) {
    case 0:
      ctx = sd[1] = dead;
      break;
    case 1:
      (pr.chance(1, 2) ? d.i : d.j) = pr.pick(std::vector<int>{-1, 1, n});
      scal = false;
      break;
    case 2:
      (pr.chance(1, 2) ? ia : ja) = pr.pick(std::vector<int>{0, 2, n});
      scal = true;
      break;
    case 3:
      sd[0] = pr.pick(std::vector<int>{0, 2, -1, 501});
      scal = true;
      break;
    case 4:
      if (a.lr < 2 || a.lc < 1)
        return;
      d.ld = sd[8] = pr.irange(0, a.lr - 1);
      break;
    case 5:
      (pr.chance(1, 2) ? d.isrc : d.jsrc) = pr.chance(1, 2) ? -1 : std::max(s.rows, s.cols);
      sd[6] = d.isrc;
      sd[7] = d.jsrc;
      break;
    case 6:
      (pr.chance(1, 2) ? d.mb : d.nb) = pr.pick(std::vector<int>{0, -1});
      sd[4] = d.mb;
      sd[5] = d.nb;
      break;
    case 7:  // not square
      (pr.chance(1, 2) ? d.m : d.n) += 0;
      d.n -= 1;
      scal = false;
      break;
    case 8:  // blocks not square
      d.nb = sd[5] = nb + 1;
      break;
    case 9:
      u = pr.pick(std::vector<char>{'X', 'N', ' ', '\0', '1'});
      break;
    case 10:  // part of the spectrum that does not start with the first
      eig = partial = true;
      beg = 2;
      break;
    case 11:
      eig = partial = true;
      end = n + 1;
      break;
    case 12:  // matrices of different grids
      eig = scal = true;
      sz[1] = dead;
      break;
    case 13:
      eig = scal = true;
      iz = 2;
      break;
    case 14:  // the control: accepted when nothing is wrong, decided without calling the routine
      ok = true;
      break;
    case 15:
      eig = partial = true;
      end = pr.chance(1, 2) ? 0 : -1;
      scal = true;
      break;
  }
  if (ok) {
    if (s.rows * s.cols != 1)
      return;  // a child alone cannot take part in a distributed call
    vk::count("controls");
  }
  // a child has none of the threads of the runtime
  const auto o = vk::run_forked([&]() {
    alarm(20);
    if (ok) {
      (void)make_dlaf_descriptor(n, n, 1, 1, sd.data());
      return;
    }
    if (!eig) {
      if (scal)
        f.p_inplace[0](u, n, a.p.get(), ia, ja, sd.data(), &info);
      else
        f.inplace[0](ctx, u, a.p.get(), d);
    }
    else if (partial) {
      if (scal)
        f.p_eig_part(u, n, a.p.get(), ia, ja, sd.data(), w.data(), z.p.get(), iz, 1, sz.data(), beg, end, &info);
      else
        f.eig_part(ctx, u, a.p.get(), d, w.data(), z.p.get(), z.desc(), beg - 1, end);
    }
    else
      f.p_eig(u, n, a.p.get(), ia, ja, sd.data(), w.data(), z.p.get(), iz, 1, sz.data(), &info);
  });
  VK_CHECK(o == (ok ? vk::Outcome::Returned : vk::Outcome::Terminated), cat("refused:", what), "the call ", vk::outcome_name(o));
}

// ---------------------------------------------------------------- histories
static void start_library(Rng& all) {
  const int min_band = all.irange(3, 200);
  const std::string opt = cat("--dlaf:eigensolver-min-band=", min_band);
  const char* pa[] = {"vk", nullptr};
  const char* da[] = {"vk", opt.c_str(), nullptr};
  CASE("initialize ", opt);
  dlaf_initialize(1, pa, 2, da);
  VK_CHECK(suspended_now(), "not-suspended", "after dlaf_initialize running=", vks::running());
  VK_CHECK(getTuneParameters().eigensolver_min_band == min_band, "options-lost", "eigensolver_min_band is ",
           getTuneParameters().eigensolver_min_band, " instead of ", min_band);
  const int again = all.irange(0, 2);
  for (int k = 0; k < again; ++k) {
    // of no effect
    const char* x[] = {"vk", "--dlaf:eigensolver-min-band=7", nullptr};
    dlaf_initialize(1, pa, 2, x);
    VK_CHECK(suspended_now(), "not-suspended", "after a repeated dlaf_initialize");
    VK_CHECK(getTuneParameters().eigensolver_min_band == min_band, "initialize-twice", "a repeated dlaf_initialize changed an option");
    vk::count("repeated initialisations");
  }
  vk::count("lives");
}
static void stop_library(Rng& all) {
  const int again = all.irange(1, 2);
  for (int k = 0; k < again; ++k) {
    CASE("finalize ", k);
    dlaf_finalize();
    VK_CHECK(!vks::running(), "still-running", "the task runtime runs after dlaf_finalize");
  }
}

static void knobs(Rng& pr) {
  vks::set_policy(pr.irange(0, vks::n_policies - 1), pr.u64());
  const bool slow = pr.chance(1, 4);
  vks::set_delay(slow ? unsigned(pr.irange(5, 120)) : 0, 300);
  vks::set_mpi_delay(pr.chance(1, 2) ? unsigned(pr.irange(100, 800)) : 0, 40);
}

// every combination of routine, style, kind of spectrum and element type in turn, in an order that depends on the seed and the
// group of processes
template <class F>
static void of_type(int turn, int group, F&& f) {
  constexpr int N = 80;
  static std::map<int, std::vector<int>> order;
  auto& o = order[group];
  if (o.empty()) {
    Rng r = vk::rng(cat("order", group));
    for (int k = 0; k < N; ++k)
      o.push_back(k);
    for (int k = N - 1; k > 0; --k)
      std::swap(o[std::size_t(k)], o[std::size_t(r.irange(0, k))]);
  }
  const int c = o[std::size_t(turn % N)];
  switch (c / 20) {
#ifdef VK_TYPE_S
    case 0:
      return f(Tag<float>{}, c % 20);
    case 2:
      return f(Tag<std::complex<float>>{}, c % 20);
#endif
    case 1:
      return f(Tag<double>{}, c % 20);
    default:
      return f(Tag<std::complex<double>>{}, c % 20);
  }
}

int main(int argc, char** argv) {
  int got;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &got);
  MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  Rng all = vk::rng("history");
  for (int q = 0; q < 6; ++q) {
    // group sizes, then which process is where
    std::vector<int> of, perm;
    int left = np, g = 0;
    while (left > 0) {
      const int k = q == 0 ? np : all.irange(1, left);
      for (int i = 0; i < k; ++i)
        of.push_back(g);
      ++g;
      left -= k;
    }
    for (int i = 0; i < np; ++i)
      perm.push_back(i);
    if (q != 0)
      for (int i = np - 1; i > 0; --i)
        std::swap(perm[std::size_t(i)], perm[std::size_t(all.irange(0, i))]);
    Split s;
    s.index = of[std::size_t(perm[std::size_t(world_rank)])];
    PMPI_Comm_split(MPI_COMM_WORLD, s.index, perm[std::size_t(world_rank)], &s.comm);
    MPI_Comm_rank(s.comm, &s.rank);
    MPI_Comm_size(s.comm, &s.size);
    splits.push_back(s);
  }
  const std::int64_t base_comms = vkm::get(vkm::LIVE_COMMS);
  dlaf_finalize();  // of no effect before the first life
  int turn = 0;
  const int lives = vk::scale(4, 8);
  for (int life = 0; life < lives; ++life) {
    start_library(all);
    const int steps = vk::scale(220, 500);
    for (int k = 0; k < steps; ++k) {
      Rng r(all.u64());
      const int op = slots.empty() ? 0 : r.irange(0, 19);
      auto any = [&]() {
        auto it = slots.begin();
        std::advance(it, r.irange(0, int(slots.size()) - 1));
        return it;
      };
      if (op <= 2 && slots.size() < 7)
        create(r);
      else if (op <= 4) {
        auto it = any();
        CASE("free ", it->second.desc(), " of ", slots.size());
        dlaf_free_grid(it->second.ctx);
        retire(it->second);
        if (it->second.from_blacs && r.chance(1, 2))
          blacs.erase(it->second.ctx);
        slots.erase(it);
        vk::count("grids freed");
      }
      else if (op == 5 && r.chance(1, 4)) {
        CASE("free all ", slots.size());
        dlaf_free_all_grids();
        slots.clear();
        blacs.clear();
        VK_CHECK(vkm::get(vkm::LIVE_COMMS) == base_comms, "communicators-kept", vkm::get(vkm::LIVE_COMMS) - base_comms,
                 " communicators are alive after all grids were freed");
        vk::count("all grids freed");
      }
      else if (op == 6 && r.chance(1, 4)) {
        // a context that does not exist, or no longer
        CASE("free unknown");
        dlaf_free_grid(INT_MAX - 777);
        dlaf_free_grid(-1);
        vk::count("unknown contexts freed");
      }
      else if (op == 7) {
        auto it = any();
        if (it->second.member) {
          Rng pr(mix(r.u64(), std::uint64_t(world_rank)));
          refused(it->second, pr);
        }
      }
      else {
        auto it = any();
        const Slot& s = it->second;
        Rng gr(mix(r.u64(), std::uint64_t(splits[std::size_t(s.split)].index)));
        Rng pr(mix(r.u64(), std::uint64_t(world_rank)));
        knobs(pr);
        // the reference grid below is created on the whole communicator
        MPI_Comm c = splits[std::size_t(s.split)].comm;
        if (!s.member) {
          pika::resume();
          {
            comm::CommunicatorGrid grid(comm::Communicator(c), s.rows, s.cols,
                                        s.col_major ? common::Ordering::ColumnMajor : common::Ordering::RowMajor);
          }
          pika::suspend();
          vk::count("processes outside a grid");
        }
        else
          of_type(turn, splits[std::size_t(s.split)].index, [&](auto tag, int combination) {
            using T = typename decltype(tag)::type;
            compute<T>(s, gr, pr, it->first, combination);
          });
        ++turn;
      }
    }
    // freed one by one, in any order, some by free_all
    CASE("end of life ", life);
    while (!slots.empty() && all.chance(3, 4)) {
      auto it = slots.begin();
      std::advance(it, all.irange(0, int(slots.size()) - 1));
      dlaf_free_grid(it->second.ctx);
      slots.erase(it);
    }
    dlaf_free_all_grids();
    slots.clear();
    blacs.clear();
    VK_CHECK(vkm::get(vkm::LIVE_COMMS) == base_comms, "communicators-kept", vkm::get(vkm::LIVE_COMMS) - base_comms,
             " communicators are alive after all grids were freed");
    stop_library(all);
    VK_CHECK(vkm::get(vkm::LIVE_TYPES) == 0, "types-kept", vkm::get(vkm::LIVE_TYPES), " MPI datatypes are still alive");
  }
  for (auto& s : splits)
    PMPI_Comm_free(&s.comm);
  const int rc = vk::finish();
  PMPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  return rc;
}
