// C26: inverses of triangular matrices and of HPD matrices from their Cholesky factor, multiplied back.
#include <alg.hpp>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
using namespace alg;

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("inverse", vk::scale(3000, 12000), [&](int, Group& g, Rng& r, Rng&) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const bool chol = r.chance(1, 2);
      const auto uplo = r.chance(1, 2) ? blas::Uplo::Lower : blas::Uplo::Upper;
      const auto diag = !chol && r.chance(1, 3) ? blas::Diag::Unit : blas::Diag::NonUnit;
      const Bulk bulk = random_bulk(r);
      const SizeType nb = tile_of(r, bulk, 1, 6);
      const SizeType n = size_of(r, bulk, nb, 8, 30);
      const auto src = random_source(r, g);
      const bool local = g.single() && r.chance(3, 4);
      // several tiles per block are allowed (panels refuse them in the distributed versions)
      const SizeType k = local && r.chance(1, 3) ? r.irange(2, 3) : 1;
      const AllocKind al = random_alloc(r);
      const std::string d = cat(name_of<T>::v, chol ? " hpd " : " tri ", uplo == blas::Uplo::Lower ? "L" : "U", diag == blas::Diag::Unit ? "U" : "N",
                                " n=", n, "/", nb, "*", k, " grid=", local ? "local" : g.desc(), src_desc(src));
      vk::case_begin(cat("inverse ", d, " ", al.desc(), s.sched));
      Ref<T> in = random_tri<T>(r, n, diag == blas::Diag::Unit);
      if (chol)
        for (SizeType i = 0; i < n; ++i)
          in(i, i) = T(std::abs(in(i, i)));
      poison_outside(in, uplo);
      Mat<T> a(g, make_dist_blocks(g, n, n, nb, nb, k, k, src), al, in);
      if (chol) {
        if (local)
          inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(uplo, *a);
        else
          inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(*g.grid, uplo, *a);
      }
      else if (local)
        triangular_inverse<Backend::MC, Device::CPU, T>(uplo, diag, *a);
      else
        triangular_inverse<Backend::MC, Device::CPU, T>(*g.grid, uplo, diag, *a);
      a.check_bits(in, "outside the triangle", [&](SizeType i, SizeType j) {
        return !in_tri(uplo, i, j) || (i == j && diag == blas::Diag::Unit);
      });
      const Ref<T> out = a.gather();
      const Ref<T> t = triangle(in, uplo, diag);
      if (chol) {
        const Ref<T> m = uplo == blas::Uplo::Lower ? mul(t, adjoint(t)) : mul(adjoint(t), t);
        const Ref<T> inv = hermitian_from(out, uplo);
        for (SizeType i = 0; i < n; ++i)
          VK_CHECK(std::abs(std::imag(out(i, i))) <= 10 * (n + 4) * eps<T>() * max_abs(inv), "inverse-diagonal", "diagonal element ", i, " is ", out(i, i));
        const double tol = 20 * double(n + 4) * eps<T>() * std::max(1.0, norm_inf(m) * norm_inf(inv));
        check_close(mul(m, inv), identity<T>(n), tol, "HPD inverse");
        vk::count("HPD inverses");
      }
      else {
        const Ref<T> inv = triangle(out, uplo, diag);
        const double tol = 20 * double(n + 4) * eps<T>() * std::max(1.0, norm_inf(t) * norm_inf(inv));
        check_close(mul(t, inv), identity<T>(n), tol, "triangular inverse");
        check_close(mul(inv, t), identity<T>(n), tol, "triangular inverse");
        vk::count("triangular inverses");
      }
      if (n > 0)
        vk::nontrivial(d);
    });
  });
  return s.finish();
}
