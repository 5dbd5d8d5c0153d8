// Workload side of the checks that run the asynchronous library: several process grids over the ranks of one MPI job,
// random geometry, allocation, schedule and message timing per case, global reference matrices known to every rank, and
// conservation monitors evaluated after each case.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>
#include <pika/init.hpp>
#include <pika/runtime.hpp>
#include <umpire/ResourceManager.hpp>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/init.h>
#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/tune.h>

#include <vk.hpp>
#include <vk_mon.hpp>

namespace alg {
using namespace dlaf;
using dlaf::comm::CommunicatorGrid;
using dlaf::matrix::AllocationLayout;
using dlaf::matrix::AllocationSpec;
using dlaf::matrix::ColMajorLayout;
using dlaf::matrix::Distribution;
using dlaf::matrix::Ld;
using dlaf::matrix::Matrix;
namespace tt = pika::this_thread::experimental;
namespace ex = pika::execution::experimental;
using vk::cat;
using vk::Rng;

// ---------------------------------------------------------------- scalars
template <class T>
struct name_of;
template <>
struct name_of<float> {
  static constexpr const char* v = "s";
};
template <>
struct name_of<double> {
  static constexpr const char* v = "d";
};
template <>
struct name_of<std::complex<float>> {
  static constexpr const char* v = "c";
};
template <>
struct name_of<std::complex<double>> {
  static constexpr const char* v = "z";
};
template <class T>
constexpr bool is_cx = false;
template <class R>
constexpr bool is_cx<std::complex<R>> = true;
template <class T>
using Real = BaseType<T>;
template <class T>
constexpr double eps() {
  return double(std::numeric_limits<Real<T>>::epsilon());
}
template <class T>
T conj_(T x) {
  if constexpr (is_cx<T>)
    return std::conj(x);
  else
    return x;
}
template <class T>
T rnd(Rng& r) {
  if constexpr (is_cx<T>) {
    const double a = r.real(), b = r.real();
    return T(Real<T>(a), Real<T>(b));
  }
  else
    return T(r.real());
}
template <class T>
T nan_() {
  const Real<T> q = std::numeric_limits<Real<T>>::quiet_NaN();
  if constexpr (is_cx<T>)
    return T(q, q);
  else
    return q;
}
template <class T>
bool same_bits(const T& a, const T& b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}

// ---------------------------------------------------------------- dense reference matrices
template <class T>
struct Ref {
  SizeType m = 0, n = 0;
  std::vector<T> v;
  Ref() = default;
  Ref(SizeType m_, SizeType n_, T x = T(0)) : m(m_), n(n_), v(std::size_t(m_ * n_), x) {}
  T& operator()(SizeType i, SizeType j) { return v[std::size_t(i + j * m)]; }
  const T& operator()(SizeType i, SizeType j) const { return v[std::size_t(i + j * m)]; }
};
template <class T>
Ref<T> random_ref(Rng& r, SizeType m, SizeType n) {
  Ref<T> a(m, n);
  for (auto& x : a.v)
    x = rnd<T>(r);
  return a;
}
template <class T>
Ref<T> adjoint(const Ref<T>& a, blas::Op op = blas::Op::ConjTrans) {
  if (op == blas::Op::NoTrans)
    return a;
  Ref<T> b(a.n, a.m);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      b(j, i) = op == blas::Op::Trans ? a(i, j) : conj_(a(i, j));
  return b;
}
template <class T>
Ref<T> mul(const Ref<T>& a, const Ref<T>& b) {
  Ref<T> c(a.m, b.n);
  for (SizeType j = 0; j < b.n; ++j)
    for (SizeType k = 0; k < a.n; ++k) {
      const T x = b(k, j);
      for (SizeType i = 0; i < a.m; ++i)
        c(i, j) += a(i, k) * x;
    }
  return c;
}
template <class T>
Ref<T> identity(SizeType n) {
  Ref<T> a(n, n);
  for (SizeType i = 0; i < n; ++i)
    a(i, i) = T(1);
  return a;
}
template <class T>
double max_abs(const Ref<T>& a) {
  double r = 0;
  for (auto& x : a.v) {
    const double q = std::abs(x);
    if (!(q <= r))
      r = q;
    if (std::isnan(q))
      return q;
  }
  return r;
}
// infinity norm
template <class T>
double norm_inf(const Ref<T>& a) {
  double r = 0;
  for (SizeType i = 0; i < a.m; ++i) {
    double s = 0;
    for (SizeType j = 0; j < a.n; ++j)
      s += std::abs(a(i, j));
    r = std::max(r, s);
  }
  return r;
}
template <class T>
double max_diff(const Ref<T>& a, const Ref<T>& b) {
  double r = 0;
  for (std::size_t k = 0; k < a.v.size(); ++k) {
    const double q = std::abs(a.v[k] - b.v[k]);
    if (std::isnan(q))
      return q;
    r = std::max(r, q);
  }
  return r;
}
inline bool in_tri(blas::Uplo u, SizeType i, SizeType j) {
  return u == blas::Uplo::General || (u == blas::Uplo::Lower ? i >= j : i <= j);
}
// the triangle as a full matrix (other part zero, unit diagonal when asked)
template <class T>
Ref<T> triangle(const Ref<T>& a, blas::Uplo u, blas::Diag d = blas::Diag::NonUnit) {
  Ref<T> b(a.m, a.n);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (in_tri(u, i, j))
        b(i, j) = (i == j && d == blas::Diag::Unit) ? T(1) : a(i, j);
  return b;
}
// Hermitian matrix stored in one triangle
template <class T>
Ref<T> hermitian_from(const Ref<T>& a, blas::Uplo u) {
  Ref<T> b(a.m, a.n);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      b(i, j) = i == j ? T(std::real(a(i, j))) : in_tri(u, i, j) ? a(i, j) : conj_(a(j, i));
  return b;
}
template <class T>
Ref<T> random_hermitian(Rng& r, SizeType n) {
  Ref<T> a = random_ref<T>(r, n, n);
  return hermitian_from(a, blas::Uplo::Lower);
}
template <class T>
Ref<T> random_hpd(Rng& r, SizeType n) {
  Ref<T> a = random_hermitian<T>(r, n);
  for (SizeType i = 0; i < n; ++i)
    a(i, i) = T(Real<T>(2 * n) + Real<T>(std::real(a(i, i))));
  return a;
}
// well conditioned triangular factor: full matrix of which either triangle may be used, with either kind of diagonal
template <class T>
Ref<T> random_tri(Rng& r, SizeType n, bool unit) {
  Ref<T> a = random_ref<T>(r, n, n);
  const Real<T> s = Real<T>(1) / Real<T>(std::max<SizeType>(n, 1));
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i)
      if (i == j) {
        const double mod = 0.7 + std::abs(r.real());
        T x = rnd<T>(r);
        const double q = std::abs(x);
        a(i, j) = unit ? nan_<T>() : q == 0 ? T(1) : x * T(Real<T>(mod / q));
      }
      else
        a(i, j) *= s * Real<T>(2);
  return a;
}
// NaN in everything outside the triangle
template <class T>
void poison_outside(Ref<T>& a, blas::Uplo u) {
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (!in_tri(u, i, j))
        a(i, j) = nan_<T>();
}

// ---------------------------------------------------------------- process groups and session
struct Group {
  int layout = 0, index = 0;
  MPI_Comm comm = MPI_COMM_NULL;
  int rank = 0, size = 1, rows = 1, cols = 1;
  common::Ordering order = common::Ordering::RowMajor;
  std::size_t pipelines = 1;
  bool permuted = false;
  std::unique_ptr<CommunicatorGrid> grid;
  bool single() const { return size == 1; }
  std::string desc() const {
    return cat(rows, "x", cols, order == common::Ordering::RowMajor ? "R" : "C", permuted ? "p" : "", "/", pipelines);
  }
};

// shapes of the grids that share the six ranks in each layout
struct Shape {
  int rows, cols;
};
inline const std::vector<std::vector<Shape>>& layouts(int np) {
  static const std::vector<std::vector<Shape>> six{
      {{1, 1}, {1, 1}, {1, 1}, {1, 1}, {1, 1}, {1, 1}}, {{2, 3}}, {{3, 2}}, {{2, 2}, {1, 2}}, {{2, 2}, {2, 1}},
      {{3, 1}, {1, 3}}, {{1, 6}}, {{6, 1}}, {{1, 2}, {2, 1}, {1, 2}}, {{2, 3}}, {{3, 2}}, {{1, 4}, {2, 1}}, {{2, 2}, {1, 1}, {1, 1}}};
  static const std::vector<std::vector<Shape>> four{{{1, 1}, {1, 1}, {1, 1}, {1, 1}}, {{2, 2}}, {{1, 4}}, {{4, 1}},
                                                    {{1, 3}, {1, 1}}, {{1, 2}, {2, 1}}, {{2, 2}}, {{3, 1}, {1, 1}}};
  static const std::vector<std::vector<Shape>> two{{{1, 1}, {1, 1}}, {{1, 2}}, {{2, 1}}};
  static const std::vector<std::vector<Shape>> one{{{1, 1}}};
  return np >= 6 ? six : np >= 4 ? four : np >= 2 ? two : one;
}

inline const char* policy_name(int p) {
  static const char* n[] = {"random", "lifo", "fifo", "starve", "revprio", "prio"};
  return n[p];
}

inline void fatal_setup(const char* w) {
  std::fprintf(stderr, "[alg] set-up failed: %s\n", w);
  std::_Exit(3);
}

struct Session {
  int rank = 0, np = 1;
  std::vector<std::unique_ptr<Group>> groups;  // of this rank, one per layout
  std::optional<TuneParameters> tune0;
  std::uint64_t base_live = 0;

  static void init_mpi(int& argc, char**& argv) {
    int got;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &got);
    if (got != MPI_THREAD_MULTIPLE)
      fatal_setup("MPI_THREAD_MULTIPLE");
    pika::start(argc, argv);
  }
  struct Runtime {
    Runtime(int& argc, char**& argv) { init_mpi(argc, argv); }
  } rt;

  // algorithms that hold two communicators of the same kind at once ask for at least two pipelines
  Session(int argc, char** argv, int min_pipelines = 1) : rt(argc, argv) {
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    const char* a[] = {"vk"};
    dlaf::initialize(1, a);
    Rng r = vk::rng("grids");
    const auto& ls = layouts(np);
    for (std::size_t l = 0; l < ls.size(); ++l) {
      // the same on all ranks
      std::vector<int> perm(static_cast<std::size_t>(np));
      for (int i = 0; i < np; ++i)
        perm[std::size_t(i)] = i;
      const bool permute = r.chance(1, 2);
      if (permute)
        for (int i = np - 1; i > 0; --i)
          std::swap(perm[std::size_t(i)], perm[std::size_t(r.irange(0, i))]);
      int at = 0;
      const int mine = perm[std::size_t(rank)];
      for (std::size_t g = 0; g < ls[l].size(); ++g) {
        const int sz = ls[l][g].rows * ls[l][g].cols;
        const auto order = r.chance(1, 2) ? common::Ordering::RowMajor : common::Ordering::ColumnMajor;
        const std::size_t pipes = std::size_t(r.irange(min_pipelines, 3));
        if (mine >= at && mine < at + sz) {
          auto p = std::make_unique<Group>();
          p->layout = int(l);
          p->index = int(g);
          p->size = sz;
          p->rows = ls[l][g].rows;
          p->cols = ls[l][g].cols;
          p->order = order;
          p->pipelines = pipes;
          p->permuted = permute;
          groups.push_back(std::move(p));
        }
        at += sz;
      }
      Group& g = *groups.back();
      PMPI_Comm_split(MPI_COMM_WORLD, g.index, mine, &g.comm);
      MPI_Comm_rank(g.comm, &g.rank);
      g.grid = std::make_unique<CommunicatorGrid>(comm::Communicator(g.comm), g.rows, g.cols, g.order, g.pipelines);
    }
    tune0 = getTuneParameters();
    pika::wait();
    base_live = live();
  }
  static std::uint64_t live() { return umpire::ResourceManager::getInstance().getAllocator("HOST").vk().live(); }

  // Runs n cases: each rank is handed the group it belongs to in a layout chosen for the case, and generators that are
  // common to the group and private to the rank.
  template <class F>
  void cases(const std::string& section, int n, F&& f, const std::vector<int>& allowed = {}) {
    for (int k = 0; k < n; ++k) {
      Rng all = vk::rng(section + "#" + std::to_string(k));
      const int l = allowed.empty() ? all.irange(0, int(groups.size()) - 1) : allowed[std::size_t(all.irange(0, int(allowed.size()) - 1))];
      Group& g = *groups[std::size_t(l)];
      Rng gr = vk::rng(section + "#" + std::to_string(k) + "g" + std::to_string(g.index));
      Rng pr = vk::rng(section + "#" + std::to_string(k) + "r" + std::to_string(rank));
      knobs(gr, pr);
      vks::reset_order();
      f(k, g, gr, pr);
      settle(section);
    }
  }
  std::string sched;
  void knobs_schedule(Rng& pr) {
    const int pol = pr.irange(0, vks::n_policies - 1);
    vks::set_policy(pol, pr.u64());
    const bool slow = pr.chance(1, 4);
    vks::set_delay(slow ? unsigned(pr.irange(5, 120)) : 0, 300);
    const bool hold = pr.chance(1, 2);
    vks::set_mpi_delay(hold ? unsigned(pr.irange(100, 800)) : 0, 40);
    sched = cat(" sched=", policy_name(pol), slow ? "+delay" : "", hold ? "+held-messages" : "");
  }
  void knobs(Rng& gr, Rng& pr) {
    knobs_schedule(pr);
    TuneParameters& t = getTuneParameters();
    t = *tune0;
    t.tfactor_num_threads = std::size_t(gr.irange(1, 4));
    t.red2band_panel_num_threads = std::size_t(gr.irange(1, 4));
    t.tridiag_rank1_num_threads = std::size_t(gr.irange(1, 4));
    t.eigensolver_min_band = gr.irange(2, 8);
    t.band_to_tridiag_1d_block_size_base = gr.pick(std::vector<SizeType>{1, 4, 8, 16, 64, 8192});
    t.bt_band_to_tridiag_hh_apply_group_size = gr.irange(1, 8);
    const AllocationLayout lay[] = {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles};
    t.default_allocation_layout = lay[gr.irange(0, 2)];
    t.tfactor_barrier_busy_wait_us = t.red2band_barrier_busy_wait_us = t.tridiag_rank1_barrier_busy_wait_us = 0;
  }

  // everything the case started must be over, and nothing it took may be kept
  void settle(const std::string& section) {
    pika::wait();
    // the last operation states are destroyed after the task that completed them
    for (int k = 0; k < 2000 && (vkp::live_ops.load() || vkp::detached.load() || live() != base_live); ++k) {
      usleep(100);
      pika::wait();
    }
    const auto s = vks::get_stats();
    VK_CHECK(vkp::live_ops.load() == 0, "lost-work", "after ", section, " ", vkp::live_ops.load(),
             " operations never completed");
    VK_CHECK(vkp::detached.load() == 0, "lost-work", "after ", section, " ", vkp::detached.load(),
             " detached operations never completed");
    VK_CHECK(s.submitted == s.executed, "lost-work", "tasks submitted ", s.submitted, " executed ", s.executed);
    VK_CHECK(s.mpi_registered == s.mpi_completed, "lost-work", "MPI requests registered ", s.mpi_registered, " completed ",
             s.mpi_completed);
    VK_CHECK(live() == base_live, "memory-kept", "after ", section, " ", std::int64_t(live()) - std::int64_t(base_live),
             " allocations of the library are still alive");
    base_live = live();
    VK_CHECK(vkm::get(vkm::LIVE_TYPES) == 0, "types-kept", vkm::get(vkm::LIVE_TYPES), " MPI datatypes are still alive");
    vk::count("tasks executed in an order other than submitted", s.reordered - last_reordered);
    vk::count("messages completed out of order", s.mpi_out_of_order - last_ooo);
    vk::count("messages posted by a task", s.mpi_posted_later - last_later);
    last_later = s.mpi_posted_later;
    last_reordered = s.reordered;
    last_ooo = s.mpi_out_of_order;
    if (orders.insert(s.order_hash).second)
      vk::count("distinct task orders");
  }
  std::unordered_set<std::uint64_t> orders;
  std::uint64_t last_reordered = 0, last_ooo = 0, last_later = 0;

  int finish() {
    pika::wait();
    const auto s = vks::get_stats();
    vk::count("tasks executed", s.executed);
    vk::count("MPI operations completed", s.mpi_completed);
    vk::count("BLAS/LAPACK calls watched", std::uint64_t(vkm::get(vkm::BLAS_CALLS)));
    vk::count("operand ranges watched", std::uint64_t(vkm::get(vkm::RANGES)));
    for (auto& g : groups)
      g->grid.reset();
    pika::wait();
    for (auto& g : groups)
      PMPI_Comm_free(&g->comm);
    VK_CHECK(vkm::get(vkm::LIVE_COMMS) == 0, "communicators-kept", vkm::get(vkm::LIVE_COMMS),
             " communicators are still alive after the grids were destroyed");
    dlaf::finalize();
    pika::stop();
    std::int64_t d[2] = {vkm::get(vkm::SENDS) - vkm::get(vkm::RECVS), vkm::get(vkm::SENDS)}, sum[2];
    PMPI_Allreduce(d, sum, 2, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD);
    VK_CHECK(sum[0] == 0, "messages-unmatched", "messages sent minus received over all processes: ", sum[0]);
    vk::count("messages", rank == 0 ? std::uint64_t(sum[1]) : 0);
    const int rc = vk::finish();
    PMPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return rc;
  }
};

// ---------------------------------------------------------------- matrices
// bitwise union over the processes of a group
inline void gather_bits(const Group& g, void* p, std::size_t n) {
  if (g.size == 1 || n == 0)
    return;
  PMPI_Allreduce(MPI_IN_PLACE, p, int(n), MPI_BYTE, MPI_BOR, g.comm);
}

struct AllocKind {
  int kind = 0;  // 0 ColMajor, 1 Blocks, 2 Tiles, 3 user memory
  int ld = 0;    // 0 compact, 1 padded, 2 larger by `extra`
  SizeType extra = 0;
  std::string desc() const {
    static const char* k[] = {"colmajor", "blocks", "tiles", "user"};
    return cat(k[kind], ld == 0 ? "" : ld == 1 ? "/padded" : cat("+", extra));
  }
};
inline AllocKind random_alloc(Rng& r) {
  AllocKind a;
  a.kind = r.irange(0, 3);
  a.ld = r.irange(0, 2);
  a.extra = r.irange(1, 5);
  return a;
}

template <class T>
Matrix<T, Device::CPU> make_matrix(const Distribution& d, const AllocKind& a, std::unique_ptr<T[]>& user) {
  const SizeType lr = d.local_size().rows();
  if (a.kind == 3) {
    const SizeType ld = std::max<SizeType>(1, lr) + (a.ld == 0 ? 0 : a.extra);
    ColMajorLayout lay(d, ld);
    const SizeType n = lr == 0 || d.local_size().cols() == 0 ? 0 : ld * (d.local_size().cols() - 1) + lr;
    user.reset(new T[std::size_t(n)]);
    std::memset(static_cast<void*>(user.get()), 0xa5, std::size_t(n) * sizeof(T));
    return Matrix<T, Device::CPU>(lay, user.get());
  }
  const AllocationLayout lay = a.kind == 0 ? AllocationLayout::ColMajor : a.kind == 1 ? AllocationLayout::Blocks : AllocationLayout::Tiles;
  if (a.ld == 0)
    return Matrix<T, Device::CPU>(d, AllocationSpec{lay, Ld::Compact});
  if (a.ld == 1)
    return Matrix<T, Device::CPU>(d, AllocationSpec{lay, Ld::Padded});
  SizeType min = a.kind == 0 ? std::max<SizeType>(1, lr) : a.kind == 1 ? d.block_size().rows() : d.tile_size().rows();
  return Matrix<T, Device::CPU>(d, AllocationSpec{lay, min + a.extra});
}

template <class T>
struct Mat {
  Group* g;
  Distribution dist;
  std::unique_ptr<T[]> user;
  std::unique_ptr<Matrix<T, Device::CPU>> m;
  struct Region {
    unsigned char* base;
    std::vector<unsigned char> bytes;
    std::vector<bool> element;
  };
  std::vector<Region> regions;

  Mat(Group& g_, const Distribution& d, const AllocKind& a) : g(&g_), dist(d) {
    m = std::make_unique<Matrix<T, Device::CPU>>(make_matrix<T>(d, a, user));
  }
  Mat(Group& g_, const Distribution& d, const AllocKind& a, const Ref<T>& r) : Mat(g_, d, a) { fill(r); }
  ~Mat() {
    // user memory must outlive the pending accesses
    m.reset();
    if (user)
      pika::wait();
  }
  Matrix<T, Device::CPU>& operator*() { return *m; }

  template <class F>
  void each_local(F&& f) const {  // f(local tile index, first global element, tile size)
    for (SizeType j = 0; j < dist.local_nr_tiles().cols(); ++j)
      for (SizeType i = 0; i < dist.local_nr_tiles().rows(); ++i) {
        const LocalTileIndex l(i, j);
        const GlobalTileIndex t = dist.global_tile_index(l);
        f(l, dist.global_element_index(t, {0, 0}), dist.tile_size_of(t));
      }
  }
  void write(const Ref<T>& r) {
    each_local([&](LocalTileIndex l, GlobalElementIndex o, TileElementSize s) {
      auto t = tt::sync_wait(m->readwrite(l));
      for (SizeType b = 0; b < s.cols(); ++b)
        for (SizeType a = 0; a < s.rows(); ++a)
          t({a, b}) = r(o.row() + a, o.col() + b);
    });
  }
  void fill(const Ref<T>& r) {
    write(r);
    snapshot();
  }
  // remembers all bytes of the allocations that hold no element
  void snapshot() {
    regions.clear();
    auto acc = umpire::ResourceManager::getInstance().getAllocator("HOST");
    const SizeType lr = dist.local_size().rows(), lc = dist.local_size().cols();
    each_local([&](LocalTileIndex l, GlobalElementIndex, TileElementSize s) {
      auto t = tt::sync_wait(m->read(l));
      const T* p = t.get().ptr();
      const SizeType ld = t.get().ld();
      void* base = nullptr;
      std::size_t n = 0;
      if (user) {
        base = user.get();
        const SizeType uld = ld;
        n = std::size_t(uld * (lc - 1) + lr) * sizeof(T);
      }
      else if (!acc.vk().find(p, &base, &n)) {
        vk::violation("tile-memory", "a tile lies outside every allocation of the library");
        return;
      }
      Region* r = nullptr;
      for (auto& x : regions)
        if (x.base == base)
          r = &x;
      if (!r) {
        regions.push_back({static_cast<unsigned char*>(base), {}, std::vector<bool>(n, false)});
        r = &regions.back();
      }
      for (SizeType b = 0; b < s.cols(); ++b) {
        const std::size_t o = std::size_t(reinterpret_cast<const unsigned char*>(p + b * ld) - r->base);
        for (std::size_t k = o; k < o + std::size_t(s.rows()) * sizeof(T) && k < n; ++k)
          r->element[k] = true;
      }
    });
    for (auto& r : regions)
      r.bytes.assign(r.base, r.base + r.element.size());
  }
  void check_padding(const char* who) const {
    std::size_t n = 0;
    for (auto& r : regions)
      for (std::size_t k = 0; k < r.bytes.size(); ++k)
        if (!r.element[k]) {
          ++n;
          if (r.base[k] != r.bytes[k]) {
            vk::violation("padding", cat(who, ": memory between the columns or tiles was written, offset ", k, " of ", r.bytes.size()));
            return;
          }
        }
    vk::count("padding bytes compared", n);
  }
  // local elements against expected ones, bit by bit (where `where` says so)
  template <class W>
  void check_bits(const Ref<T>& want, const char* who, W&& where) {
    bool bad = false;
    std::size_t n = 0;
    each_local([&](LocalTileIndex l, GlobalElementIndex o, TileElementSize s) {
      auto t = tt::sync_wait(m->read(l));
      for (SizeType b = 0; b < s.cols(); ++b)
        for (SizeType a = 0; a < s.rows(); ++a)
          if (where(o.row() + a, o.col() + b)) {
            ++n;
            if (!bad && !same_bits(t.get()({a, b}), want(o.row() + a, o.col() + b))) {
              bad = true;
              vk::violation(cat("changed:", who), cat(who, ": element (", o.row() + a, ",", o.col() + b, ") changed from ",
                                                      want(o.row() + a, o.col() + b), " to ", t.get()({a, b})));
            }
          }
    });
    vk::count("elements compared bit by bit", n);
    check_padding(who);
  }
  void check_unchanged(const Ref<T>& want, const char* who) {
    check_bits(want, who, [](SizeType, SizeType) { return true; });
  }
  // local part in a zero matrix; with gather_bits the whole
  Ref<T> local() {
    Ref<T> r(dist.size().rows(), dist.size().cols());
    std::memset(static_cast<void*>(r.v.data()), 0, r.v.size() * sizeof(T));
    each_local([&](LocalTileIndex l, GlobalElementIndex o, TileElementSize s) {
      auto t = tt::sync_wait(m->read(l));
      for (SizeType b = 0; b < s.cols(); ++b)
        for (SizeType a = 0; a < s.rows(); ++a)
          r(o.row() + a, o.col() + b) = t.get()({a, b});
    });
    return r;
  }
  Ref<T> gather() {
    Ref<T> r = local();
    gather_bits(*g, r.v.data(), r.v.size() * sizeof(T));
    return r;
  }
};

// |got - want| <= tol for all elements selected
template <class T, class W>
void check_close(const Ref<T>& got, const Ref<T>& want, double tol, const char* key, W&& where) {
  double worst = 0;
  for (SizeType j = 0; j < want.n; ++j)
    for (SizeType i = 0; i < want.m; ++i)
      if (where(i, j)) {
        const double e = std::abs(got(i, j) - want(i, j));
        if (!(e <= tol)) {
          vk::violation(key, cat(key, ": element (", i, ",", j, ") is ", got(i, j), ", expected ", want(i, j), " +- ", tol));
          return;
        }
        worst = std::max(worst, e);
      }
  vk::count_max(cat("error, in 1/1000 of the tolerance: ", key), std::uint64_t(1000 * worst / (tol > 0 ? tol : 1)));
}
template <class T>
void check_close(const Ref<T>& got, const Ref<T>& want, double tol, const char* key) {
  check_close(got, want, tol, key, [](SizeType, SizeType) { return true; });
}
inline void check_small(double e, double tol, const char* key, const std::string& msg = "") {
  if (!(e <= tol))
    vk::violation(key, cat(key, ": residual ", e, " > ", tol, " ", msg));
  else
    vk::count_max(cat("error, in 1/1000 of the tolerance: ", key), std::uint64_t(1000 * e / (tol > 0 ? tol : 1)));
}

// powers of two whole matrices are scaled by: the squares of the elements stay in the range of the type
template <class T>
constexpr int scale_range() {
  return std::is_same_v<Real<T>, float> ? 24 : 200;
}

// ---------------------------------------------------------------- geometry
// the largest extent of a case: usually so many tiles, now and then twice as many, but never more than so many elements
inline SizeType most(Rng& r, SizeType tiles, SizeType nb, SizeType cap) {
  return std::min<SizeType>((r.chance(1, 8) ? 2 : 1) * tiles * nb, cap);
}
inline SizeType random_size(Rng& r, SizeType nb, SizeType max) {
  switch (r.irange(0, 9)) {
    case 0:
      return r.chance(1, 3) ? 0 : 1;
    case 1:
      return std::min(max, nb);
    case 2:
      return std::min(max, nb * r.irange(1, 4));
    case 3:
      return std::max<SizeType>(1, std::min(max, nb * r.irange(1, 4) - 1));
    case 4:
      return std::min(max, nb * r.irange(1, 4) + 1);
    default:
      return r.range(1, max);
  }
}
// Now and then a case is larger: with tiles beyond a cache line, a kernel's block and MPI's eager limit, or with many small tiles.
enum Bulk { Usual, BigTiles, ManyTiles };
inline Bulk random_bulk(Rng& r) {
  const int n = int(vk::scale(30, 15)), k = r.irange(0, 2 * n - 1);
  const Bulk b = k == 0 || k == 1 ? BigTiles : k == 2 ? ManyTiles : Usual;
  if (b != Usual)
    vk::count(b == BigTiles ? "cases with big tiles" : "cases with many tiles");
  return b;
}
inline SizeType tile_of(Rng& r, Bulk b, SizeType lo, SizeType hi) {
  return b == BigTiles ? r.irange(16, 70) : b == ManyTiles ? r.irange(int(lo), int(lo) + 2) : r.irange(int(lo), int(hi));
}
inline SizeType size_of(Rng& r, Bulk b, SizeType nb, SizeType tiles, SizeType cap) {
  if (b == BigTiles)
    return random_size(r, nb, std::min<SizeType>(4 * nb, 160));
  if (b == ManyTiles)
    return random_size(r, nb, std::min<SizeType>(30 * nb, 80));
  return random_size(r, nb, most(r, tiles, nb, cap));
}
inline comm::Index2D random_source(Rng& r, const Group& g) {
  if (r.chance(1, 3))
    return {0, 0};
  return {r.irange(0, g.rows - 1), r.irange(0, g.cols - 1)};
}
inline Distribution make_dist(const Group& g, SizeType m, SizeType n, SizeType mb, SizeType nb, comm::Index2D src) {
  return Distribution(GlobalElementSize(m, n), TileElementSize(mb, nb), g.grid->size(), g.grid->rank(), src);
}
inline Distribution make_dist_blocks(const Group& g, SizeType m, SizeType n, SizeType mb, SizeType nb, SizeType kr, SizeType kc, comm::Index2D src) {
  return Distribution(GlobalElementSize(m, n), GlobalElementSize(mb * kr, nb * kc), TileElementSize(mb, nb), g.grid->size(), g.grid->rank(), src);
}
inline std::string src_desc(comm::Index2D s) {
  return cat(" src=", s.row(), ",", s.col());
}

template <class T>
struct Tag {
  using type = T;
};
// one of the element types this build instantiates
template <class F>
void with_type(Rng& r, F&& f) {
  std::vector<int> t;
#ifdef VK_TYPE_S
  t.push_back(0);
#endif
#ifdef VK_TYPE_D
  t.push_back(1);
#endif
#ifdef VK_TYPE_C
  t.push_back(2);
#endif
#ifdef VK_TYPE_Z
  t.push_back(3);
#endif
  switch (r.pick(t)) {
#ifdef VK_TYPE_S
    case 0:
      return f(Tag<float>{});
#endif
#ifdef VK_TYPE_D
    case 1:
      return f(Tag<double>{});
#endif
#ifdef VK_TYPE_C
    case 2:
      return f(Tag<std::complex<float>>{});
#endif
#ifdef VK_TYPE_Z
    case 3:
      return f(Tag<std::complex<double>>{});
#endif
    default:
      return;
  }
}
}
