// C27: reduction of the generalized to the standard eigenproblem, both triangles.
#include <alg.hpp>
#include <dlaf/eigensolver/gen_to_std.h>
using namespace alg;

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("hegst", vk::scale(3000, 12000), [&](int, Group& g, Rng& r, Rng&) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const auto uplo = r.chance(1, 2) ? blas::Uplo::Lower : blas::Uplo::Upper;
      const Bulk bulk = random_bulk(r);
      const SizeType nb = tile_of(r, bulk, 1, 6);
      const SizeType n = size_of(r, bulk, nb, 8, 30);
      const auto src = random_source(r, g);
      const bool local = g.single() && r.chance(3, 4);
      const AllocKind la = random_alloc(r), lb = random_alloc(r);
      const std::string d = cat(name_of<T>::v, uplo == blas::Uplo::Lower ? " L" : " U", " n=", n, "/", nb, " grid=", local ? "local" : g.desc(),
                                src_desc(src));
      vk::case_begin(cat("hegst ", d, " ", la.desc(), " ", lb.desc(), s.sched));
      const Ref<T> full = random_hermitian<T>(r, n);
      Ref<T> ain = full, bin = random_tri<T>(r, n, false);
      for (SizeType i = 0; i < n; ++i)
        bin(i, i) = T(std::abs(bin(i, i)));
      poison_outside(ain, uplo);
      poison_outside(bin, uplo);
      Mat<T> a(g, make_dist(g, n, n, nb, nb, src), la, ain);
      Mat<T> b(g, make_dist(g, n, n, nb, nb, src), lb, bin);
      if (local)
        eigensolver::internal::generalized_to_standard<Backend::MC, Device::CPU, T>(uplo, *a, *b);
      else
        eigensolver::internal::generalized_to_standard<Backend::MC, Device::CPU, T>(*g.grid, uplo, *a, *b);
      b.check_unchanged(bin, "Cholesky factor");
      a.check_bits(ain, "other triangle", [&](SizeType i, SizeType j) { return !in_tri(uplo, i, j); });
      const Ref<T> out = a.gather();
      const Ref<T> c = hermitian_from(out, uplo);
      for (SizeType i = 0; i < n; ++i)
        VK_CHECK(std::abs(std::imag(out(i, i))) <= 10 * (n + 4) * eps<T>() * max_abs(c), "diagonal", "diagonal element ", i, " is ", out(i, i));
      const Ref<T> f = triangle(bin, uplo);
      // L C L^H = A or U^H C U = A
      const Ref<T> l = uplo == blas::Uplo::Lower ? f : adjoint(f);
      const Ref<T> p = mul(mul(l, c), adjoint(l));
      const double nl = norm_inf(l) * norm_inf(adjoint(l));
      const double tol = 20 * double(n + 4) * eps<T>() * std::max(1.0, nl * nl * max_abs(c) / std::max(1.0, nl) * 2);
      check_close(p, full, tol, "congruence");
      vk::count("transformations checked");
      if (n > 0)
        vk::nontrivial(d);
    });
  });
  return s.finish();
}
