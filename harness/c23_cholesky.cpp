// C23: Cholesky factorisation on random grids, tilings, schedules; residual against the input, the other triangle is NaN.
#include <alg.hpp>
#include <dlaf/factorization/cholesky.h>
using namespace alg;

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("cholesky", vk::scale(3000, 12000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const Bulk bulk = random_bulk(r);
      const SizeType nb = tile_of(r, bulk, 1, 7);
      const SizeType n = size_of(r, bulk, nb, 8, 34);
      const auto src = random_source(r, g);
      const auto uplo = r.chance(1, 2) ? blas::Uplo::Lower : blas::Uplo::Upper;
      const bool local = g.single() && r.chance(3, 4);
      const AllocKind al = random_alloc(r);
      vk::case_begin(cat("cholesky ", name_of<T>::v, " n=", n, " nb=", nb, " uplo=", uplo == blas::Uplo::Lower ? "L" : "U", " grid=", local ? "local" : g.desc(),
                         src_desc(src), " ", al.desc(), s.sched));
      Ref<T> full = random_hpd<T>(r, n);
      // badly scaled rows and columns now and then
      if (r.chance(1, 4))
        for (SizeType k = 0; k < n; ++k) {
          const Real<T> f = std::ldexp(Real<T>(1), r.irange(-10, 10));
          for (SizeType i = 0; i < n; ++i) {
            full(k, i) *= f;
            full(i, k) *= f;
          }
        }
      Ref<T> in = full;
      poison_outside(in, uplo);
      Mat<T> a(g, make_dist(g, n, n, nb, nb, src), al, in);
      if (local)
        cholesky_factorization<Backend::MC, Device::CPU>(uplo, *a);
      else
        cholesky_factorization<Backend::MC, Device::CPU>(*g.grid, uplo, *a);
      a.check_bits(in, "other triangle", [&](SizeType i, SizeType j) { return !in_tri(uplo, i, j); });
      const Ref<T> out = a.gather();
      const Ref<T> f = triangle(out, uplo);
      const Ref<T> p = uplo == blas::Uplo::Lower ? mul(f, adjoint(f)) : mul(adjoint(f), f);
      // componentwise backward error of Cholesky: |A - L L^H| <= c n eps |L||L^H|, diag(|L||L^H|) = diag(A)
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i) {
          const double tol = 8 * double(n + 2) * eps<T>() * std::sqrt(std::abs(full(i, i)) * std::abs(full(j, j)));
          if (!(std::abs(p(i, j) - full(i, j)) <= tol)) {
            vk::violation("factor", cat("the product of the factor with its adjoint at (", i, ",", j, ") is ", p(i, j), ", the matrix ", full(i, j)));
            return;
          }
        }
      for (SizeType i = 0; i < n; ++i)
        VK_CHECK(std::real(f(i, i)) > 0 && std::imag(f(i, i)) == 0, "factor-diagonal", "diagonal element ", i, " is ", f(i, i));
      vk::count("factors checked");
      if (n > 0)
        vk::nontrivial(cat(name_of<T>::v, n, ",", nb, int(uplo), g.desc(), src_desc(src), al.desc(), local));
    });
  });
  return s.finish();
}
