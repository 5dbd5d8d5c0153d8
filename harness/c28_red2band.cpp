// C28: reduction to band form and its back-transformation. The band matrix and the reflectors are put together again: Q is
// built one reflector at a time, must be unitary and give back A; the back-transformation must equal multiplication by it.
#include <alg.hpp>
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/reduction_to_band.h>
using namespace alg;
using namespace dlaf::eigensolver::internal;

// H = I - tau v v^H applied from the left
template <class T>
void apply_left(Ref<T>& c, const std::vector<T>& v, T tau) {
  for (SizeType j = 0; j < c.n; ++j) {
    T s(0);
    for (SizeType i = 0; i < c.m; ++i)
      s += conj_(v[std::size_t(i)]) * c(i, j);
    s *= tau;
    for (SizeType i = 0; i < c.m; ++i)
      c(i, j) -= v[std::size_t(i)] * s;
  }
}

template <class T>
Ref<T> input(Rng& r, SizeType n, SizeType b, std::string& what) {
  Ref<T> a = random_hermitian<T>(r, n);
  const int kind = r.irange(0, 11);
  what = "general";
  if (kind == 0) {
    what = "already band";
    const SizeType w = r.irange(0, int(b));
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < n; ++i)
        if (std::abs(i - j) > w)
          a(i, j) = T(0);
  }
  else if (kind == 1) {
    what = "zero";
    a = Ref<T>(n, n);
  }
  else if (kind == 2) {
    what = "rank one";
    std::vector<T> u;
    for (SizeType i = 0; i < n; ++i)
      u.push_back(rnd<T>(r));
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < n; ++i)
        a(i, j) = i == j ? T(std::norm(u[std::size_t(i)])) : u[std::size_t(i)] * conj_(u[std::size_t(j)]);
    a = hermitian_from(a, blas::Uplo::Lower);
  }
  else if (kind == 3) {
    what = "sparse";
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = j; i < n; ++i)
        if (r.chance(3, 4))
          a(i, j) = a(j, i) = T(0);
  }
  else if (kind == 4) {
    what = "graded";
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < n; ++i)
        a(i, j) *= T(Real<T>(std::pow(2., -double(std::min<SizeType>(i + j, 36)) / 3)));
  }
  else if (kind == 5) {
    what = "zero below the band in some columns";
    for (SizeType j = 0; j < n; ++j)
      if (r.chance(1, 3))
        for (SizeType i = j + b; i < n; ++i)
          a(i, j) = a(j, i) = T(0);
  }
  else if (kind == 6) {
    what = "purely real";
    for (auto& x : a.v)
      x = T(std::real(x));
  }
  else if (kind == 7) {
    what = "scaled";
    const int e = scale_range<T>();
    const Real<T> f = Real<T>(std::ldexp(1., r.irange(-e, e)));
    for (auto& x : a.v)
      x *= f;
  }
  else if (kind == 8 || kind == 9) {
    // small against the norm, but far above rounding: squares around the machine epsilon
    what = "weak below the band";
    const Real<T> f = Real<T>(std::ldexp(1., -(std::is_same_v<Real<T>, float> ? r.irange(4, 14) : r.irange(8, 32))));
    const bool all = r.chance(1, 2);
    for (SizeType j = 0; j < n; ++j)
      if (all || r.chance(1, 2))
        for (SizeType i = j + b; i < n; ++i) {
          a(i, j) *= f;
          a(j, i) = conj_(a(i, j));
        }
  }
  return a;
}

// Columns whose squares are not representable, in a matrix of norm one: a run of its own.
int beyond(Session& s) {
  s.cases("beyond", 1, [&](int, Group&, Rng&, Rng&) {
    using T = double;
    const SizeType n = 8, nb = 4, b = 2;
    Group own;
    own.grid.reset();
    vk::case_begin("beyond the range: red2band d n=8/4 band=2 identity with couplings of 2^-535");
    Ref<T> full = identity<T>(n);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = j + 1; i < n; ++i)
        full(i, j) = full(j, i) = std::ldexp(std::sin(double(i + 3 * j + 1)), -535);
    Mat<T> a(own, Distribution(LocalElementSize(n, n), TileElementSize(nb, nb)), AllocKind{}, full);
    auto taus = reduction_to_band<Backend::MC, Device::CPU, T>(*a, b);
    const Ref<T> aout = a.local();
    Ref<T> q = identity<T>(n);
    for (SizeType j = n - b - 2; j >= 0; --j) {
      std::vector<T> v(std::size_t(n), T(0));
      v[std::size_t(j + b)] = T(1);
      auto t = tt::sync_wait(taus.read(LocalTileIndex(j / nb, 0)));
      const T tau = t.get()({j % nb, 0});
      for (SizeType i = j + b + 1; i < n; ++i)
        v[std::size_t(i)] = tau == T(0) ? T(0) : aout(i, j);
      apply_left(q, v, tau);
    }
    check_close(mul(adjoint(q), q), identity<T>(n), 1e-13, "beyond the range: Q unitary");
  });
  return s.finish();
}

int main(int argc, char** argv) {
  Session s(argc, argv, 2);
  if (std::getenv("VK_BEYOND"))
    return beyond(s);
  s.cases("red2band", vk::scale(1200, 4000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const Bulk bulk = random_bulk(r);
      const SizeType b = bulk == BigTiles ? r.irange(6, 24) : r.irange(2, 5), nb = b * r.irange(1, bulk == ManyTiles ? 1 : 3);
      const SizeType n = size_of(r, bulk, nb, 7, 34);
      const auto src = random_source(r, g);
      const bool local = g.single() && r.chance(3, 4);
      const AllocKind la = random_alloc(r), lc = random_alloc(r);
      std::string what;
      const Ref<T> full = input<T>(r, n, b, what);
      Ref<T> ain = full;
      poison_outside(ain, blas::Uplo::Lower);
      // the back-transformation is applied to all of C or some of its columns
      const SizeType cb = r.chance(1, 2) ? nb : r.irange(1, 6);
      const SizeType cn = r.chance(1, 2) ? n : random_size(r, cb, 20);
      const SizeType c0 = r.chance(1, 3) ? r.irange(0, int(cn)) : 0, c1 = r.chance(1, 3) ? r.irange(int(c0), int(cn)) : cn;
      const auto srcc = comm::Index2D(src.row(), r.irange(0, g.cols - 1));
      const std::string d = cat(name_of<T>::v, " n=", n, "/", nb, " band=", b, " grid=", local ? "local" : g.desc(), src_desc(src), " ", what,
                                " C ", cn, "/", cb, " [", c0, ",", c1, ")", src_desc(srcc));
      vk::case_begin(cat("red2band ", d, " ", la.desc(), " ", lc.desc(), s.sched));
      const Ref<T> cin = random_ref<T>(r, n, cn);
      const Distribution dist = make_dist(g, n, n, nb, nb, src);
      Mat<T> a(g, dist, la, ain);
      Mat<T> c(g, make_dist(g, n, cn, nb, cb, srcc), lc, cin);
      const bool wait = r.chance(1, 2);
      auto taus = local ? reduction_to_band<Backend::MC, Device::CPU, T>(*a, b)
                        : reduction_to_band<Backend::MC, Device::CPU, T>(*g.grid, *a, b);
      if (wait)
        pika::wait();
      {
        matrix::internal::MatrixRef<T, Device::CPU> cref(*c, {{0, c0}, {n, c1 - c0}});
        Matrix<const T, Device::CPU>& va = *a;
        Matrix<const T, Device::CPU>& ta = taus;
        if (local)
          bt_reduction_to_band<Backend::MC, Device::CPU, T>(b, cref, va, ta);
        else
          bt_reduction_to_band<Backend::MC, Device::CPU, T>(*g.grid, b, cref, va, ta);
      }
      // what has not been asked for stays
      a.check_bits(ain, "upper triangle", [](SizeType i, SizeType j) { return i < j; });
      c.check_bits(cin, "columns not selected", [&](SizeType, SizeType j) { return j < c0 || j >= c1; });
      const Ref<T> aout = a.gather();
      const Ref<T> cout = c.gather();
      // scaling factors: a copy on each row of processes
      const SizeType nr = std::max<SizeType>(0, n - b - 1);
      VK_CHECK(taus.size() == GlobalElementSize(nr, 1), "taus-size", "factors: ", taus.size(), " reflectors: ", nr);
      Ref<T> tau(nr, 1), mine(nr, 1);
      std::memset(static_cast<void*>(tau.v.data()), 0, tau.v.size() * sizeof(T));
      std::vector<SizeType> own;
      const auto& dt = taus.distribution();
      for (SizeType l = 0; l < dt.local_nr_tiles().rows(); ++l) {
        auto t = tt::sync_wait(taus.read(LocalTileIndex(l, 0)));
        const auto o = dt.global_element_index(dt.global_tile_index(LocalTileIndex(l, 0)), {0, 0});
        for (SizeType i = 0; i < t.get().size().rows(); ++i) {
          mine(o.row() + i, 0) = t.get()({i, 0});
          own.push_back(o.row() + i);
          if (g.grid->rank().row() == 0)
            tau(o.row() + i, 0) = t.get()({i, 0});
        }
      }
      gather_bits(g, tau.v.data(), tau.v.size() * sizeof(T));
      for (SizeType i : own)
        VK_CHECK(std::abs(mine(i, 0) - tau(i, 0)) <= 100 * eps<T>(), "taus-copies", "factor ", i, " is ", mine(i, 0), " here and ", tau(i, 0),
                 " on the first row of processes");
      Ref<T> band(n, n), q = identity<T>(n), qc(n, cn);
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = j; i < std::min(n, j + b + 1); ++i)
          band(i, j) = aout(i, j);
      // the diagonal must be real
      for (SizeType i = 0; i < n; ++i)
        VK_CHECK(std::abs(std::imag(aout(i, i))) <= 50 * double(n + 2) * eps<T>() * max_abs(full), "diagonal-not-real", "element ", i, " is ", aout(i, i));
      band = hermitian_from(band, blas::Uplo::Lower);
      qc = cin;
      for (SizeType j = nr - 1; j >= 0; --j) {
        std::vector<T> v(std::size_t(n), T(0));
        v[std::size_t(j + b)] = T(1);
        for (SizeType i = j + b + 1; i < n; ++i)
          v[std::size_t(i)] = tau(j, 0) == T(0) ? T(0) : aout(i, j);
        apply_left(q, v, tau(j, 0));
        apply_left(qc, v, tau(j, 0));
      }
      const double e = eps<T>() * double(n + 5);
      check_close(mul(adjoint(q), q), identity<T>(n), 20 * e, "Q unitary");
      const double na = max_abs(full);
      check_close(mul(mul(q, band), adjoint(q)), full, 20 * e * (na > 0 ? double(n) * na : 1.0 * (n == 0)), "Q B Q^H = A");
      check_close(cout, qc, 20 * e * std::sqrt(double(n + 1)) * std::max(1., max_abs(cin)), "Q C", [&](SizeType, SizeType j) { return j >= c0 && j < c1; });
      vk::count("reductions checked");
      if (nr > 0 && c1 > c0)
        vk::count("back-transformations checked");
      if (nr > 0)
        vk::nontrivial(d);
    });
  });
  return s.finish();
}
