// C31: standard and generalized Hermitian eigensolvers, whole and partial spectrum, all entry points; residual,
// (B-)orthonormality, order; the eigenvalues against ones computed by LAPACK.
#include <alg.hpp>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <lapack.hh>
using namespace alg;

template <class T>
Ref<T> random_unitary(Rng& r, SizeType n) {
  Ref<T> q = identity<T>(n);
  for (int k = 0; k < 3; ++k) {
    std::vector<T> v;
    double s = 0;
    for (SizeType i = 0; i < n; ++i) {
      v.push_back(rnd<T>(r));
      s += std::norm(v.back());
    }
    if (s == 0)
      continue;
    for (SizeType j = 0; j < n; ++j) {
      T w(0);
      for (SizeType i = 0; i < n; ++i)
        w += conj_(v[std::size_t(i)]) * q(i, j);
      w *= T(Real<T>(2 / s));
      for (SizeType i = 0; i < n; ++i)
        q(i, j) -= v[std::size_t(i)] * w;
    }
  }
  return q;
}

template <class T>
Ref<T> input(Rng& r, SizeType n, std::string& what) {
  Ref<T> a = random_hermitian<T>(r, n);
  auto with_spectrum = [&](auto&& f) {
    const Ref<T> q = random_unitary<T>(r, n);
    Ref<T> l(n, n);
    for (SizeType i = 0; i < n; ++i)
      l(i, i) = T(Real<T>(f(i)));
    a = hermitian_from(mul(mul(q, l), adjoint(q)), blas::Uplo::Lower);
  };
  what = "general";
  switch (r.irange(0, 12)) {
    case 0:
      what = "zero";
      a = Ref<T>(n, n);
      break;
    case 1:
      what = "identity";
      a = identity<T>(n);
      break;
    case 2:
      what = "diagonal";
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (i != j)
            a(i, j) = T(0);
      break;
    case 3:
      what = "few eigenvalues";
      with_spectrum([&](SizeType) { return r.irange(-1, 1); });
      break;
    case 4:
      what = "clustered";
      with_spectrum([&](SizeType i) { return 1 + 1e-3 * double(i % 3) + eps<T>() * r.real() * 8; });
      break;
    case 5:
      what = "geometric";
      with_spectrum([&](SizeType i) { return std::pow(0.5, double(std::min<SizeType>(i, 50))); });
      break;
    case 6: {
      what = "scaled";
      const int e = scale_range<T>();
      const Real<T> f = Real<T>(std::ldexp(1., r.irange(-e, e)));
      for (auto& x : a.v)
        x *= f;
      break;
    }
    case 8: {
      what = "weakly coupled";
      const Real<T> f = Real<T>(std::ldexp(1., -(std::is_same_v<Real<T>, float> ? r.irange(4, 14) : r.irange(8, 32))));
      const SizeType w = r.irange(0, 4);
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = j + 1 + w; i < n; ++i) {
          a(i, j) *= f;
          a(j, i) = conj_(a(i, j));
        }
      break;
    }
    case 7: {
      what = "block diagonal";
      const SizeType k = n > 0 ? r.irange(0, int(n)) : 0;
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if ((i < k) != (j < k))
            a(i, j) = T(0);
      break;
    }
    default:;
  }
  return a;
}

// Cholesky factor (lower) as the library would be given
template <class T>
Ref<T> cholesky(const Ref<T>& b) {
  const SizeType n = b.m;
  Ref<T> l(n, n);
  for (SizeType j = 0; j < n; ++j) {
    Real<T> d = std::real(b(j, j));
    for (SizeType k = 0; k < j; ++k)
      d -= std::norm(l(j, k));
    l(j, j) = T(std::sqrt(d));
    for (SizeType i = j + 1; i < n; ++i) {
      T x = b(i, j);
      for (SizeType k = 0; k < j; ++k)
        x -= l(i, k) * conj_(l(j, k));
      l(i, j) = x / l(j, j);
    }
  }
  return l;
}

template <class T>
Ref<T> apply_inv_lower(const Ref<T>& l, Ref<T> x) {
  for (SizeType c = 0; c < x.n; ++c)
    for (SizeType i = 0; i < x.m; ++i) {
      for (SizeType k = 0; k < i; ++k)
        x(i, c) -= l(i, k) * x(k, c);
      x(i, c) /= l(i, i);
    }
  return x;
}

int main(int argc, char** argv) {
  Session s(argc, argv, 2);
  s.cases("eigensolver", vk::scale(600, 2400), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      using R = Real<T>;
      constexpr Backend B = Backend::MC;
      constexpr Device D = Device::CPU;
      // band sizes are taken from the divisors of the tile size, at least two
      const Bulk bulk = random_bulk(r);
      const SizeType nb = bulk == Usual ? r.pick(std::vector<SizeType>{2, 3, 4, 5, 6, 8, 9, 12}) : tile_of(r, bulk, 2, 4);
      const SizeType n = size_of(r, bulk, nb, 7, 34);
      const auto src = random_source(r, g);
      const bool local = g.single() && r.chance(3, 4);
      const int kind = r.irange(0, 3);  // standard, standard, generalized, generalized with the factor given
      const bool gen = kind >= 2, fact = kind == 3;
      const bool partial = r.chance(1, 2);
      const SizeType k = partial ? r.irange(0, int(n)) : n;
      const bool explicit_range = partial || r.chance(1, 2);
      const bool given = r.chance(1, 2);  // result matrices provided by the caller
      const AllocKind la = random_alloc(r), lb = random_alloc(r), lz = random_alloc(r), lw = random_alloc(r);
      std::string what;
      const Ref<T> full = input<T>(r, n, what);
      const std::string d = cat(name_of<T>::v, gen ? fact ? " generalized/factor" : " generalized" : " standard", " n=", n, "/", nb, " ", what, " grid=",
                                local ? "local" : g.desc(), src_desc(src), explicit_range ? cat(" [0,", k, ")") : "", given ? " into" : "");
      vk::case_begin(cat("eigen ", d, " ", la.desc(), " ", lb.desc(), " ", lz.desc(), " ", lw.desc(), " min band=", getTuneParameters().eigensolver_min_band, s.sched));
      Ref<T> ain = full;
      poison_outside(ain, blas::Uplo::Lower);
      const Distribution dist = make_dist(g, n, n, nb, nb, src);
      Mat<T> a(g, dist, la, ain);
      Ref<T> bfull, l, bin;
      if (gen) {
        bfull = random_hpd<T>(r, n);
        if (r.chance(1, 3))
          for (auto& x : bfull.v)
            x *= T(R(0.125));
        l = cholesky(bfull);
        bin = fact ? l : bfull;
      }
      else
        bin = Ref<T>(n, n);
      poison_outside(bin, blas::Uplo::Lower);
      Mat<T> b(g, dist, lb, bin);
      Group own;
      Mat<R> w(own, Distribution(LocalElementSize(n, 1), TileElementSize(nb, 1)), lw, Ref<R>(n, 1, std::numeric_limits<R>::quiet_NaN()));
      Mat<T> z(g, dist, lz, Ref<T>(n, n, nan_<T>()));
      const auto lo = blas::Uplo::Lower;
      std::optional<EigensolverResult<T, D>> res;
      const SizeType z0 = 0;
      if (given) {
        if (!gen) {
          if (local)
            explicit_range ? hermitian_eigensolver<B, D, T>(lo, *a, *w, *z, z0, k) : hermitian_eigensolver<B, D, T>(lo, *a, *w, *z);
          else
            explicit_range ? hermitian_eigensolver<B, D, T>(*g.grid, lo, *a, *w, *z, z0, k) : hermitian_eigensolver<B, D, T>(*g.grid, lo, *a, *w, *z);
        }
        else if (!fact) {
          if (local)
            explicit_range ? hermitian_generalized_eigensolver<B, D, T>(lo, *a, *b, *w, *z, z0, k)
                           : hermitian_generalized_eigensolver<B, D, T>(lo, *a, *b, *w, *z);
          else
            explicit_range ? hermitian_generalized_eigensolver<B, D, T>(*g.grid, lo, *a, *b, *w, *z, z0, k)
                           : hermitian_generalized_eigensolver<B, D, T>(*g.grid, lo, *a, *b, *w, *z);
        }
        else {
          if (local)
            explicit_range ? hermitian_generalized_eigensolver_factorized<B, D, T>(lo, *a, *b, *w, *z, z0, k)
                           : hermitian_generalized_eigensolver_factorized<B, D, T>(lo, *a, *b, *w, *z);
          else
            explicit_range ? hermitian_generalized_eigensolver_factorized<B, D, T>(*g.grid, lo, *a, *b, *w, *z, z0, k)
                           : hermitian_generalized_eigensolver_factorized<B, D, T>(*g.grid, lo, *a, *b, *w, *z);
        }
      }
      else {
        if (!gen) {
          if (local)
            res = explicit_range ? hermitian_eigensolver<B, D, T>(lo, *a, z0, k) : hermitian_eigensolver<B, D, T>(lo, *a);
          else
            res = explicit_range ? hermitian_eigensolver<B, D, T>(*g.grid, lo, *a, z0, k) : hermitian_eigensolver<B, D, T>(*g.grid, lo, *a);
        }
        else if (!fact) {
          if (local)
            res = explicit_range ? hermitian_generalized_eigensolver<B, D, T>(lo, *a, *b, z0, k) : hermitian_generalized_eigensolver<B, D, T>(lo, *a, *b);
          else
            res = explicit_range ? hermitian_generalized_eigensolver<B, D, T>(*g.grid, lo, *a, *b, z0, k)
                                 : hermitian_generalized_eigensolver<B, D, T>(*g.grid, lo, *a, *b);
        }
        else {
          if (local)
            res = explicit_range ? hermitian_generalized_eigensolver_factorized<B, D, T>(lo, *a, *b, z0, k)
                                 : hermitian_generalized_eigensolver_factorized<B, D, T>(lo, *a, *b);
          else
            res = explicit_range ? hermitian_generalized_eigensolver_factorized<B, D, T>(*g.grid, lo, *a, *b, z0, k)
                                 : hermitian_generalized_eigensolver_factorized<B, D, T>(*g.grid, lo, *a, *b);
        }
        // the values into our matrices
        const auto& ed = res->eigenvectors.distribution();
        VK_CHECK(ed.size() == GlobalElementSize(n, n) && res->eigenvalues.size() == GlobalElementSize(n, 1), "result-size", ed.size(), " ", res->eigenvalues.size());
        Ref<T> zz(n, n);
        std::memset(static_cast<void*>(zz.v.data()), 0, zz.v.size() * sizeof(T));
        for (SizeType j = 0; j < ed.local_nr_tiles().cols(); ++j)
          for (SizeType i = 0; i < ed.local_nr_tiles().rows(); ++i) {
            auto t = tt::sync_wait(res->eigenvectors.read(LocalTileIndex(i, j)));
            const auto o = ed.global_element_index(ed.global_tile_index(LocalTileIndex(i, j)), {0, 0});
            for (SizeType y = 0; y < t.get().size().cols(); ++y)
              for (SizeType x = 0; x < t.get().size().rows(); ++x)
                zz(o.row() + x, o.col() + y) = t.get()({x, y});
          }
        gather_bits(g, zz.v.data(), zz.v.size() * sizeof(T));
        z.fill(zz);
        Ref<R> ww(n, 1);
        const auto& wd = res->eigenvalues.distribution();
        for (SizeType i = 0; i < wd.local_nr_tiles().rows(); ++i) {
          auto t = tt::sync_wait(res->eigenvalues.read(LocalTileIndex(i, 0)));
          for (SizeType x = 0; x < t.get().size().rows(); ++x)
            ww(i * nb + x, 0) = t.get()({x, 0});
        }
        w.fill(ww);
      }
      a.check_bits(ain, "upper triangle of A", [](SizeType i, SizeType j) { return i < j; });
      if (!gen || fact)
        b.check_unchanged(bin, "B");
      else
        b.check_bits(bin, "upper triangle of B", [](SizeType i, SizeType j) { return i < j; });
      w.check_padding("eigenvalues");
      z.check_padding("eigenvectors");
      const Ref<R> wl = w.local();
      Ref<R> w0 = wl;
      if (!g.single())
        PMPI_Bcast(w0.v.data(), int(w0.v.size() * sizeof(R)), MPI_BYTE, 0, g.comm);
      VK_CHECK(wl.v.empty() || std::memcmp(wl.v.data(), w0.v.data(), wl.v.size() * sizeof(R)) == 0, "eigenvalues-copies", "eigenvalues differ between processes");
      const Ref<T> zall = z.gather();
      Ref<T> zk(n, k);
      for (SizeType j = 0; j < k; ++j)
        for (SizeType i = 0; i < n; ++i)
          zk(i, j) = zall(i, j);
      for (SizeType i = 0; i + 1 < n; ++i)
        VK_CHECK(wl(i, 0) <= wl(i + 1, 0), "order", "eigenvalues ", i, " and ", i + 1, ": ", wl(i, 0), " ", wl(i + 1, 0));
      const double na = norm_inf(full), nbn = gen ? norm_inf(bfull) : 1;
      const double u = eps<T>() * double(n + 5);
      const Ref<T> bz = gen ? mul(bfull, zk) : zk;
      Ref<T> bzw = bz;
      double wmax = 0;
      for (SizeType j = 0; j < k; ++j) {
        wmax = std::max(wmax, double(std::abs(wl(j, 0))));
        for (SizeType i = 0; i < n; ++i)
          bzw(i, j) *= T(wl(j, 0));
      }
      const double zm = max_abs(zk);
      // B is well conditioned (between n and 3n, times a factor)
      const double cond = gen ? 10 : 1;
      check_close(mul(full, zk), bzw, 20 * u * cond * (k > 0 ? (na + wmax * nbn) * (gen ? zm : 1) : 0), "A Z = B Z W");
      check_close(mul(adjoint(zk), bz), identity<T>(k), 20 * u * cond, "Z^H B Z = I");
      if (gen && !fact)
        check_close(mul(triangle(b.gather(), lo), adjoint(triangle(b.gather(), lo))), bfull, 20 * u * nbn, "factor of B");
      // the values themselves: all are returned, whatever range of vectors was asked for
      Ref<T> c = full;
      if (gen) {
        c = apply_inv_lower(l, c);
        c = adjoint(apply_inv_lower(l, adjoint(c)));
        c = hermitian_from(c, lo);
      }
      std::vector<R> ref(std::size_t(n), R(0));
      const double nc = norm_inf(c);
      if (n > 0)
        lapack::heev(lapack::Job::NoVec, lapack::Uplo::Lower, n, c.v.data(), n, ref.data());
      for (SizeType i = 0; i < k; ++i)
        check_small(std::abs(double(ref[std::size_t(i)]) - double(wl(i, 0))), 20 * u * cond * nc, "eigenvalues", cat("number ", i, " is ", wl(i, 0), " expected ", ref[std::size_t(i)]));
      vk::count(gen ? fact ? "generalized with given factor" : "generalized problems" : "standard problems");
      if (k < n)
        vk::count("partial spectra");
      if (n > 1 && k > 0)
        vk::nontrivial(d);
    });
  });
  return s.finish();
}
