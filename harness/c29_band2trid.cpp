// C29: band to tridiagonal form by bulge chasing, and the back-transformation. The unitary matrix is accumulated one
// reflector at a time from the documented storage, must give back the band matrix, and the back-transformation must equal
// multiplication by it. Everything outside the band is NaN.
#include <alg.hpp>
#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
using namespace alg;
using namespace dlaf::eigensolver::internal;

template <class T>
void apply_left(Ref<T>& c, SizeType start, const std::vector<T>& v, T tau) {
  for (SizeType j = 0; j < c.n; ++j) {
    T s(0);
    for (std::size_t i = 0; i < v.size(); ++i)
      s += conj_(v[i]) * c(start + SizeType(i), j);
    s *= tau;
    for (std::size_t i = 0; i < v.size(); ++i)
      c(start + SizeType(i), j) -= v[i] * s;
  }
}

template <class T>
Ref<T> input(Rng& r, SizeType n, SizeType b, std::string& what) {
  Ref<T> a = random_hermitian<T>(r, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i)
      if (std::abs(i - j) > b)
        a(i, j) = T(0);
  const int kind = r.irange(0, 11);
  what = "general";
  auto zero = [&](auto&& where) {
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = j; i < n; ++i)
        if (where(i, j))
          a(i, j) = a(j, i) = T(0);
  };
  if (kind == 0) {
    what = "tridiagonal";
    zero([&](SizeType i, SizeType j) { return i > j + 1; });
  }
  else if (kind == 1) {
    what = "diagonal";
    zero([&](SizeType i, SizeType j) { return i > j; });
  }
  else if (kind == 2) {
    what = "zero";
    a = Ref<T>(n, n);
  }
  else if (kind == 3) {
    what = "sparse";
    zero([&](SizeType, SizeType) { return r.chance(2, 3); });
  }
  else if (kind == 4) {
    what = "decoupled blocks";
    const SizeType k = r.irange(1, int(std::max<SizeType>(1, n - 1)));
    zero([&](SizeType i, SizeType j) { return i >= k && j < k; });
  }
  else if (kind == 5) {
    what = "scaled";
    const int e = scale_range<T>();
    const Real<T> f = Real<T>(std::ldexp(1., r.irange(-e, e)));
    for (auto& x : a.v)
      x *= f;
  }
  else if (kind == 7 || kind == 8) {
    // small against the norm, but far above rounding: squares around the machine epsilon
    what = "weak off the tridiagonal";
    const Real<T> f = Real<T>(std::ldexp(1., -(std::is_same_v<Real<T>, float> ? r.irange(4, 14) : r.irange(8, 32))));
    const bool all = r.chance(1, 2);
    for (SizeType j = 0; j < n; ++j)
      if (all || r.chance(1, 2))
        for (SizeType i = j + (all ? 1 : 2); i < n; ++i) {
          a(i, j) *= f;
          a(j, i) = conj_(a(i, j));
        }
  }
  else if (kind == 6) {
    what = "outermost diagonal only";
    zero([&](SizeType i, SizeType j) { return i != j + b && i != j; });
  }
  return a;
}

int main(int argc, char** argv) {
  Session s(argc, argv, 2);
  s.cases("band2trid", vk::scale(600, 3000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const Bulk bulk = random_bulk(r);
      const SizeType b = bulk == BigTiles ? r.irange(6, 24) : r.irange(2, 5), nb = b * r.irange(1, bulk == ManyTiles ? 1 : 3);
      const SizeType n = size_of(r, bulk, nb, 9, 44);
      const auto src = random_source(r, g);
      const bool local = g.single() && r.chance(3, 4);
      const AllocKind la = random_alloc(r), le = random_alloc(r);
      std::string what;
      const Ref<T> full = input<T>(r, n, b, what);
      Ref<T> ain = full;
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (i < j || i > j + b)
            ain(i, j) = nan_<T>();
      const SizeType cb = r.chance(1, 2) ? nb : r.irange(1, 7);
      const SizeType cn = r.chance(1, 2) ? n : random_size(r, cb, 20);
      const SizeType c0 = 0, c1 = r.chance(1, 3) ? r.irange(int(c0), int(cn)) : cn;
      // the one-dimensional distribution needs blocks of at least a tile
      const auto srce = comm::Index2D(src.row(), r.irange(0, g.cols - 1));
      const std::string d = cat(name_of<T>::v, " n=", n, "/", nb, " band=", b, " grid=", local ? "local" : g.desc(), src_desc(src), " ", what,
                                " E ", cn, "/", cb, " [", c0, ",", c1, ")", src_desc(srce));
      vk::case_begin(cat("band2trid ", d, " ", la.desc(), " ", le.desc(), " block=", getTuneParameters().band_to_tridiag_1d_block_size_base,
                         " group=", getTuneParameters().bt_band_to_tridiag_hh_apply_group_size, s.sched));
      const Ref<T> ein = random_ref<T>(r, n, cn);
      Mat<T> a(g, make_dist(g, n, n, nb, nb, src), la, ain);
      Mat<T> e(g, make_dist(g, n, cn, nb, cb, srce), le, ein);
      Matrix<const T, Device::CPU>& ca = *a;
      auto res = local ? band_to_tridiagonal<Backend::MC, Device::CPU, T>(blas::Uplo::Lower, b, ca)
                       : band_to_tridiagonal<Backend::MC, Device::CPU, T>(*g.grid, blas::Uplo::Lower, b, ca);
      {
        matrix::internal::MatrixRef<T, Device::CPU> eref(*e, {{0, c0}, {n, c1 - c0}});
        Matrix<const T, Device::CPU>& hh = res.hh_reflectors;
        if (r.chance(1, 2))
          pika::wait();
        if (local)
          bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(b, eref, hh);
        else
          bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(*g.grid, b, eref, hh);
      }
      a.check_unchanged(ain, "band matrix");
      e.check_bits(ein, "columns not selected", [&](SizeType, SizeType j) { return j < c0 || j >= c1; });
      const Ref<T> eout = e.gather();
      // tridiagonal matrix: a copy everywhere
      VK_CHECK(res.tridiagonal.size() == GlobalElementSize(n, 2), "tridiagonal-size", res.tridiagonal.size(), " for n=", n);
      Ref<Real<T>> td(n, 2), td0;
      for (SizeType i = 0; i < res.tridiagonal.nr_tiles().rows(); ++i) {
        auto t = tt::sync_wait(res.tridiagonal.read(LocalTileIndex(i, 0)));
        const SizeType o = res.tridiagonal.distribution().global_element_index(GlobalTileIndex(i, 0), {0, 0}).row();
        for (SizeType k = 0; k < t.get().size().rows(); ++k)
          for (SizeType c = 0; c < 2; ++c)
            td(o + k, c) = t.get()({k, c});
      }
      if (n > 0)
        td(n - 1, 1) = 0;
      td0 = td;
      if (!g.single())
        PMPI_Bcast(td0.v.data(), int(td0.v.size() * sizeof(Real<T>)), MPI_BYTE, 0, g.comm);
      VK_CHECK(td0.v.empty() || std::memcmp(td0.v.data(), td.v.data(), td.v.size() * sizeof(Real<T>)) == 0, "tridiagonal-copies",
               "the tridiagonal matrix differs between processes");
      // reflectors
      Ref<T> hh(n, n);
      std::memset(static_cast<void*>(hh.v.data()), 0, hh.v.size() * sizeof(T));
      {
        const auto& dh = res.hh_reflectors.distribution();
        for (SizeType j = 0; j < dh.local_nr_tiles().cols(); ++j)
          for (SizeType i = 0; i < dh.local_nr_tiles().rows(); ++i) {
            auto t = tt::sync_wait(res.hh_reflectors.read(LocalTileIndex(i, j)));
            const auto o = dh.global_element_index(dh.global_tile_index(LocalTileIndex(i, j)), {0, 0});
            for (SizeType y = 0; y < t.get().size().cols(); ++y)
              for (SizeType x = 0; x < t.get().size().rows(); ++x)
                hh(o.row() + x, o.col() + y) = t.get()({x, y});
          }
        gather_bits(g, hh.v.data(), hh.v.size() * sizeof(T));
      }
      Ref<T> q = identity<T>(n), qe = ein;
      SizeType reflectors = 0;
      const SizeType sweeps = is_cx<T> ? n - 1 : n - 2;
      for (SizeType sw = sweeps - 1; sw >= 0; --sw) {
        const SizeType steps = sw == n - 2 ? 1 : (n - sw - 2 + b - 1) / b;
        for (SizeType st = steps - 1; st >= 0; --st) {
          const SizeType start = 1 + sw + st * b, len = std::min(b, n - start), pos = (sw / b + st) * b;
          std::vector<T> v(static_cast<std::size_t>(len));
          v[0] = T(1);
          for (SizeType k = 1; k < len; ++k)
            v[std::size_t(k)] = hh(pos + k, sw);
          apply_left(q, start, v, hh(pos, sw));
          apply_left(qe, start, v, hh(pos, sw));
          ++reflectors;
        }
      }
      Ref<T> t(n, n);
      for (SizeType i = 0; i < n; ++i) {
        t(i, i) = T(td(i, 0));
        if (i + 1 < n)
          t(i + 1, i) = t(i, i + 1) = T(td(i, 1));
      }
      const double u = eps<T>() * double(n + 5), na = max_abs(full);
      check_close(mul(adjoint(q), q), identity<T>(n), 20 * u, "Q unitary");
      check_close(mul(mul(q, t), adjoint(q)), full, 20 * u * double(b + 1) * na, "Q T Q^H = A");
      check_close(eout, qe, 20 * u * std::sqrt(double(n + 1)) * std::max(1., max_abs(ein)), "Q E", [&](SizeType, SizeType j) { return j >= c0 && j < c1; });
      vk::count("reductions checked");
      vk::count("reflectors accumulated", std::uint64_t(reflectors));
      if (reflectors > 0 && c1 > c0)
        vk::count("back-transformations checked");
      if (reflectors > 0)
        vk::nontrivial(d);
    });
  });
  return s.finish();
}
