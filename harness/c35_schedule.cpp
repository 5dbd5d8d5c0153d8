// C35: programs of algorithm calls on shared matrices. Each is run once waiting after every call, in submission order, and then
// without any waiting under random schedules, message timings and numbers of communicators; all matrices must come out with the
// same bits. Built with the race detector.
#include <alg.hpp>
#include <dlaf/auxiliary/norm.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/solver/triangular.h>
#include <dlaf/util_matrix.h>
using namespace alg;
constexpr Backend B = Backend::MC;
constexpr Device D = Device::CPU;

// what is known about the contents of a matrix
enum Kind { GENERAL, HPD, HPD_LO, HPD_UP, HERM_LO, HERM_UP, FAC_LO, FAC_UP, NOTHING };
static const char* kind_names[] = {"G", "P", "Pl", "Pu", "Hl", "Hu", "Fl", "Fu", "-"};

template <class T>
struct Env {
  Group* g;
  CommunicatorGrid* grid;
  bool local;
  std::vector<std::unique_ptr<Mat<T>>> m;
  std::vector<std::unique_ptr<Mat<Real<T>>>> w;
  std::vector<Real<T>> norms;
  Matrix<T, D>& at(int k) { return **m[std::size_t(k)]; }
};
template <class T>
using Op = std::function<void(Env<T>&)>;

template <class T>
struct Program {
  std::vector<Op<T>> ops;
  std::vector<std::string> names;
  std::string text() const {
    std::string s;
    for (auto& n : names)
      s += (s.empty() ? "" : "; ") + n;
    return s;
  }
};

template <class T>
Program<T> make_program(Rng& r, int nvar, std::vector<Kind> st, SizeType n, SizeType nb, bool local, int length) {
  Program<T> p;
  auto with = [&](auto&& ok) {
    std::vector<int> v;
    for (int k = 0; k < nvar; ++k)
      if (ok(k))
        v.push_back(k);
    return v.empty() ? -1 : r.pick(v);
  };
  constexpr int keep = 3;  // the first ones are never changed
  auto herm_lo = [&](int k) { return st[std::size_t(k)] == HPD || st[std::size_t(k)] == HPD_LO || st[std::size_t(k)] == HERM_LO; };
  auto herm_up = [&](int k) { return st[std::size_t(k)] == HPD || st[std::size_t(k)] == HPD_UP || st[std::size_t(k)] == HERM_UP; };
  auto fac = [&](int k) { return st[std::size_t(k)] == FAC_LO || st[std::size_t(k)] == FAC_UP; };
  auto add = [&](std::string n, Op<T> f) {
    p.names.push_back(std::move(n));
    p.ops.push_back(std::move(f));
  };
  auto scalar = [&]() { return r.chance(1, 4) ? T(1) : T(Real<T>(0.4)) * rnd<T>(r); };
  const blas::Op ops[] = {blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans};
  int heavy = 0;
  while (int(p.ops.size()) < length) {
    switch (r.irange(0, 17)) {
      case 0:
      case 1:
      case 2: {
        const int a = with([&](int k) { return st[std::size_t(k)] != NOTHING; }), c = r.irange(keep, nvar - 1);
        if (a < 0 || a == c)
          break;
        st[std::size_t(c)] = st[std::size_t(a)];
        add(cat("copy ", a, ">", c), [=](Env<T>& e) { matrix::copy(e.at(a), e.at(c)); });
        break;
      }
      case 3:
      case 4: {
        const bool lo = r.chance(1, 2);
        const int a = with([&](int k) { return k >= keep && (st[std::size_t(k)] == HPD || st[std::size_t(k)] == (lo ? HPD_LO : HPD_UP)); });
        if (a < 0)
          break;
        st[std::size_t(a)] = lo ? FAC_LO : FAC_UP;
        const auto u = lo ? blas::Uplo::Lower : blas::Uplo::Upper;
        const bool sub = r.chance(1, 3);
        add(cat("chol", lo ? "L " : "U ", a, sub ? "s" : ""), [=](Env<T>& e) {
          auto run = [&](Matrix<T, D>& x) {
            if (e.local)
              cholesky_factorization<B, D, T>(u, x);
            else
              cholesky_factorization<B, D, T>(*e.grid, u, x);
          };
          if (sub) {
            auto x = e.at(a).subPipeline();
            run(x);
          }
          else
            run(e.at(a));
        });
        break;
      }
      case 5:
      case 6: {
        const int a = with(fac), b = with([&](int k) { return k >= keep && k != a && st[std::size_t(k)] != NOTHING; });
        if (a < 0 || b < 0)
          break;
        const auto side = r.chance(1, 2) ? blas::Side::Left : blas::Side::Right;
        const auto u = st[std::size_t(a)] == FAC_LO ? blas::Uplo::Lower : blas::Uplo::Upper;
        const auto op = ops[r.irange(0, 2)];
        const T al = scalar();
        st[std::size_t(b)] = GENERAL;
        add(cat("trsm ", a, ",", b), [=](Env<T>& e) {
          if (e.local)
            triangular_solver<B, D, T>(side, u, op, blas::Diag::NonUnit, al, e.at(a), e.at(b));
          else
            triangular_solver<B, D, T>(*e.grid, side, u, op, blas::Diag::NonUnit, al, e.at(a), e.at(b));
        });
        break;
      }
      case 7:
      case 8: {
        const int a = with(fac), b = with([&](int k) { return k >= keep && k != a && st[std::size_t(k)] != NOTHING; });
        if (a < 0 || b < 0)
          break;
        const auto side = r.chance(1, 2) ? blas::Side::Left : blas::Side::Right;
        const auto u = st[std::size_t(a)] == FAC_LO ? blas::Uplo::Lower : blas::Uplo::Upper;
        const auto op = local ? ops[r.irange(0, 2)] : blas::Op::NoTrans;
        const T al = scalar();
        st[std::size_t(b)] = GENERAL;
        add(cat("trmm ", a, ",", b), [=](Env<T>& e) {
          if (e.local)
            triangular_multiplication<B, D, T>(side, u, op, blas::Diag::NonUnit, al, e.at(a), e.at(b));
          else
            triangular_multiplication<B, D, T>(*e.grid, side, u, op, blas::Diag::NonUnit, al, e.at(a), e.at(b));
        });
        break;
      }
      case 9: {
        const int f = with(fac);
        if (f < 0)
          break;
        const bool lo = st[std::size_t(f)] == FAC_LO;
        const int a = with([&](int k) { return k >= keep && k != f && (lo ? herm_lo(k) : herm_up(k)); });
        if (a < 0)
          break;
        st[std::size_t(a)] = lo ? HERM_LO : HERM_UP;
        const auto u = lo ? blas::Uplo::Lower : blas::Uplo::Upper;
        add(cat("hegst ", a, ",", f), [=](Env<T>& e) {
          if (e.local)
            eigensolver::internal::generalized_to_standard<B, D, T>(u, e.at(a), e.at(f));
          else
            eigensolver::internal::generalized_to_standard<B, D, T>(*e.grid, u, e.at(a), e.at(f));
        });
        break;
      }
      case 10: {
        const int a = with(herm_lo), b = with([&](int k) { return k != a && st[std::size_t(k)] != NOTHING; }),
                  c = with([&](int k) { return k >= keep && k != a && k != b && st[std::size_t(k)] != NOTHING; });
        if (a < 0 || b < 0 || c < 0)
          break;
        const T al = scalar(), be = scalar();
        st[std::size_t(c)] = GENERAL;
        add(cat("hemm ", a, ",", b, ">", c), [=](Env<T>& e) {
          if (e.local)
            hermitian_multiplication<B, D, T>(blas::Side::Left, blas::Uplo::Lower, al, e.at(a), e.at(b), be, e.at(c));
          else
            hermitian_multiplication<B, D, T>(*e.grid, blas::Side::Left, blas::Uplo::Lower, al, e.at(a), e.at(b), be, e.at(c));
        });
        break;
      }
      case 11: {
        const int a = with([&](int k) { return st[std::size_t(k)] != NOTHING; }), b = with([&](int k) { return k != a && st[std::size_t(k)] != NOTHING; }),
                  c = with([&](int k) { return k >= keep && k != a && k != b && st[std::size_t(k)] != NOTHING; });
        if (a < 0 || b < 0 || c < 0)
          break;
        const T al = scalar(), be = scalar();
        st[std::size_t(c)] = GENERAL;
        add(cat("gemm ", a, ",", b, ">", c), [=](Env<T>& e) {
          using matrix::internal::MatrixRef;
          MatrixRef<const T, D> x(e.at(a)), y(e.at(b));
          MatrixRef<T, D> z(e.at(c));
          if (e.local)
            multiplication::internal::generalMatrix<B, D, T>(blas::Op::NoTrans, blas::Op::NoTrans, al, x, y, be, z);
          else {
            auto row = e.grid->row_communicator_pipeline();
            auto col = e.grid->col_communicator_pipeline();
            multiplication::internal::generalMatrix<B, D, T>(row, col, al, x, y, be, z);
          }
        });
        break;
      }
      case 12: {
        const bool inv = r.chance(1, 2);
        const int f = with([&](int k) { return k >= keep && fac(k); });
        if (f < 0)
          break;
        const bool lo = st[std::size_t(f)] == FAC_LO;
        const auto u = lo ? blas::Uplo::Lower : blas::Uplo::Upper;
        if (inv) {
          st[std::size_t(f)] = lo ? HPD_LO : HPD_UP;
          add(cat("potri ", f), [=](Env<T>& e) {
            if (e.local)
              inverse_from_cholesky_factor<B, D, T>(u, e.at(f));
            else
              inverse_from_cholesky_factor<B, D, T>(*e.grid, u, e.at(f));
          });
        }
        else
          add(cat("trtri ", f), [=](Env<T>& e) {
            if (e.local)
              triangular_inverse<B, D, T>(u, blas::Diag::NonUnit, e.at(f));
            else
              triangular_inverse<B, D, T>(*e.grid, u, blas::Diag::NonUnit, e.at(f));
          });
        break;
      }
      case 13: {
        const int a = with([&](int k) { return st[std::size_t(k)] != NOTHING && st[std::size_t(k)] != FAC_UP; });
        if (a < 0)
          break;
        add(cat("norm ", a), [=](Env<T>& e) {
          // the value exists on one process only
          const auto v = tt::sync_wait(auxiliary::max_norm<B, D, T>(*e.grid, comm::Index2D(0, 0), blas::Uplo::Lower, e.at(a)));
          if (e.grid->rank() == comm::Index2D(0, 0))
            e.norms.push_back(v);
        });
        break;
      }
      case 14: {
        const int c = r.irange(keep, nvar - 1);
        const bool id = r.chance(1, 2);
        st[std::size_t(c)] = id ? HPD : GENERAL;
        add(cat(id ? "one " : "zero ", c), [=](Env<T>& e) {
          if (id)
            matrix::util::set_identity(e.at(c));
          else
            matrix::util::set0<B>(pika::execution::thread_priority::normal, e.at(c));
        });
        break;
      }
      case 15: {
        // a matrix that is gone before the work on it is done
        const int a = with([&](int k) { return st[std::size_t(k)] == HPD; }), c = with([&](int k) { return k >= keep && k != a && st[std::size_t(k)] != NOTHING; });
        if (a < 0 || c < 0)
          break;
        const T al = scalar();
        st[std::size_t(c)] = GENERAL;
        add(cat("temporary ", a, ">", c), [=](Env<T>& e) {
          Matrix<T, D> t(e.at(a).distribution());
          matrix::copy(e.at(a), t);
          if (e.local) {
            cholesky_factorization<B, D, T>(blas::Uplo::Lower, t);
            triangular_solver<B, D, T>(blas::Side::Left, blas::Uplo::Lower, blas::Op::NoTrans, blas::Diag::NonUnit, al, t, e.at(c));
          }
          else {
            cholesky_factorization<B, D, T>(*e.grid, blas::Uplo::Lower, t);
            triangular_solver<B, D, T>(*e.grid, blas::Side::Left, blas::Uplo::Lower, blas::Op::NoTrans, blas::Diag::NonUnit, al, t, e.at(c));
          }
        });
        break;
      }
      default: {
        // the band of the eigensolvers has at least two rows
        if (heavy >= 2 || nb < 2 || r.chance(1, 2))
          break;
        const bool gen = r.chance(1, 3);
        const int a = with([&](int k) { return k >= keep && herm_lo(k); });
        const int b = gen ? with([&](int k) { return k >= keep && k != a && (st[std::size_t(k)] == HPD || st[std::size_t(k)] == HPD_LO); }) : -1;
        const int z = with([&](int k) { return k >= keep && k != a && k != b; });
        if (a < 0 || z < 0 || (gen && b < 0))
          break;
        ++heavy;
        const SizeType end = r.chance(1, 2) ? n : r.range(0, n);
        st[std::size_t(a)] = NOTHING;
        // columns beyond the range asked for hold nothing
        st[std::size_t(z)] = end == n ? GENERAL : NOTHING;
        if (gen)
          st[std::size_t(b)] = FAC_LO;
        const std::size_t w = r.chance(1, 2) ? 0 : 1;
        add(cat(gen ? "hegv " : "heev ", a, gen ? cat(",", b) : "", ">", z, "[", end, "]"), [=](Env<T>& e) {
          const auto lo = blas::Uplo::Lower;
          auto& ev = **e.w[w];
          if (e.local) {
            if (gen)
              hermitian_generalized_eigensolver<B, D, T>(lo, e.at(a), e.at(b), ev, e.at(z), SizeType(0), end);
            else
              hermitian_eigensolver<B, D, T>(lo, e.at(a), ev, e.at(z), SizeType(0), end);
          }
          else {
            if (gen)
              hermitian_generalized_eigensolver<B, D, T>(*e.grid, lo, e.at(a), e.at(b), ev, e.at(z), SizeType(0), end);
            else
              hermitian_eigensolver<B, D, T>(*e.grid, lo, e.at(a), ev, e.at(z), SizeType(0), end);
          }
        });
      }
    }
  }
  // only what is defined is compared
  p.names.push_back("[");
  for (int k = 0; k < nvar; ++k)
    p.names.back() += kind_names[st[std::size_t(k)]];
  p.names.back() += "]";
  return p;
}

int main(int argc, char** argv) {
  Session s(argc, argv, 2);
  // further grids on the same processes, with other numbers of communicators
  std::map<Group*, std::vector<std::unique_ptr<CommunicatorGrid>>> grids;
  for (auto& g : s.groups)
    for (std::size_t p : {2, 3})
      grids[g.get()].push_back(std::make_unique<CommunicatorGrid>(comm::Communicator(g->comm), g->rows, g->cols, g->order, p));
  std::unordered_set<std::uint64_t> seen;
  s.cases("programs", vk::scale(180, 700), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const Bulk bulk = random_bulk(r);
      const SizeType nb = bulk == BigTiles ? r.irange(12, 30) : r.irange(1, 6);
      const SizeType n = r.chance(1, 20) ? 0 : bulk == BigTiles ? r.range(1, 3 * nb) : r.range(1, std::min<SizeType>(7 * nb, bulk == ManyTiles ? 40 : 24));
      const auto src = random_source(r, g);
      const bool local = g.single() && r.chance(1, 2);
      constexpr int nvar = 8;
      const Distribution dist = make_dist(g, n, n, nb, nb, src);
      std::vector<AllocKind> alloc;
      for (int k = 0; k < nvar; ++k)
        alloc.push_back(random_alloc(r));
      std::vector<Kind> st{HPD, GENERAL, FAC_LO, HPD, GENERAL, HPD, GENERAL, HPD};
      std::vector<Ref<T>> init;
      for (auto k : st)
        init.push_back(k == HPD ? random_hpd<T>(r, n) : k == GENERAL ? random_ref<T>(r, n, n) : random_tri<T>(r, n, false));
      const Program<T> p = make_program<T>(r, nvar, st, n, nb, local, r.irange(3, 12));
      const std::string d = cat(name_of<T>::v, " n=", n, "/", nb, " grid=", local ? "local" : g.desc(), src_desc(src), " ", p.text());

      struct Result {
        std::vector<Ref<T>> m;
        std::vector<Ref<Real<T>>> w;
        std::vector<Real<T>> norms;
      };
      auto run = [&](CommunicatorGrid& grid, bool waiting, const std::string& how) {
        vk::case_begin(cat(d, " ", how));
        Env<T> e;
        e.g = &g;
        e.grid = &grid;
        e.local = local;
        for (int k = 0; k < nvar; ++k)
          e.m.push_back(std::make_unique<Mat<T>>(g, dist, alloc[std::size_t(k)], init[std::size_t(k)]));
        for (int k = 0; k < 2; ++k) {
          const Distribution wd(LocalElementSize(n, 1), TileElementSize(nb, 1));
          e.w.push_back(std::make_unique<Mat<Real<T>>>(g, wd, AllocKind{}, Ref<Real<T>>(n, 1, Real<T>(3))));
        }
        for (auto& f : p.ops) {
          f(e);
          if (waiting)
            pika::wait();
        }
        Result res;
        for (auto& x : e.m) {
          res.m.push_back(x->gather());
          x->check_padding("matrix");
        }
        for (auto& x : e.w)
          res.w.push_back(x->local());
        res.norms = e.norms;
        vk::count(waiting ? "programs run call by call" : "programs run without waiting");
        vk::count("algorithm calls", p.ops.size());
        return res;
      };
      auto& other = grids[&g];
      vks::set_policy(vks::FIFO, 0);
      vks::set_delay(0, 0);
      vks::set_mpi_delay(0, 0);
      const Result want = run(*g.grid, true, "call by call");
      const int repeats = vk::scale(2, 3);
      for (int k = 0; k < repeats; ++k) {
        s.settle("a program");
        s.knobs_schedule(pr);
        vks::reset_order();
        CommunicatorGrid& grid = k == 0 ? *g.grid : *other[std::size_t(k - 1)];
        const Result got = run(grid, false, s.sched);
        auto same = [&](auto& a, auto& b, const std::string& what) {
          std::size_t at = 0;
          while (at < a.v.size() && same_bits(a.v[at], b.v[at]))
            ++at;
          vk::count("elements compared bit by bit", a.v.size());
          if (at < a.v.size())
            vk::violation("schedule-dependent", cat(what, " element (", SizeType(at) % a.m, ",", SizeType(at) / a.m, ") is ", b.v[at],
                                                    ", with waiting after each call ", a.v[at]));
        };
        for (std::size_t i = 0; i < want.m.size(); ++i)
          same(want.m[i], got.m[i], cat("matrix ", i));
        for (std::size_t i = 0; i < want.w.size(); ++i)
          same(want.w[i], got.w[i], cat("eigenvalues ", i));
        VK_CHECK(want.norms.size() == got.norms.size() &&
                     (want.norms.empty() || std::memcmp(want.norms.data(), got.norms.data(), want.norms.size() * sizeof(Real<T>)) == 0),
                 "schedule-dependent", "norms differ");
      }
      if (n > 0)
        vk::nontrivial(d);
    });
  });
  grids.clear();
  pika::wait();
  return s.finish();
}
