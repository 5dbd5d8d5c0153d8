// C32: maximum norm of the whole matrix or its lower triangle, delivered at any process.
#include <alg.hpp>
#include <dlaf/auxiliary/norm.h>
using namespace alg;

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("norm", vk::scale(3000, 15000), [&](int, Group& g, Rng& r, Rng&) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const bool lower = r.chance(1, 2);
      const auto uplo = lower ? blas::Uplo::Lower : blas::Uplo::General;
      const Bulk bulk = random_bulk(r);
      const SizeType mb = tile_of(r, bulk, 1, 6), nb = lower ? mb : tile_of(r, bulk, 1, 6);
      const SizeType m = size_of(r, bulk, mb, 7, 24), n = lower ? m : size_of(r, bulk, nb, 7, 24);
      const auto src = random_source(r, g);
      const comm::Index2D at(r.irange(0, g.rows - 1), r.irange(0, g.cols - 1));
      const AllocKind al = random_alloc(r);
      // where the largest element lies: anywhere, at the edge of the region, just outside it
      const int how = r.irange(0, 5);
      Ref<T> in = random_ref<T>(r, m, n);
      if (how == 1)
        for (auto& x : in.v)
          x = T(0);
      if (how == 2)
        for (auto& x : in.v)
          x *= Real<T>(std::ldexp(1.0, r.irange(-120, 120)));
      const std::string d = cat(name_of<T>::v, lower ? " L " : " G ", m, "/", mb, "x", n, "/", nb, " grid=", g.desc(), src_desc(src), " at ", at.row(), ",",
                                at.col(), " ", how);
      if (m > 0 && n > 0 && how >= 3) {
        SizeType i = r.range(0, m - 1), j = r.range(0, n - 1);
        if (lower && how == 3 && i < j)
          std::swap(i, j);
        if (lower && how == 4)
          i = j;
        in(i, j) = rnd<T>(r) * Real<T>(1000);
      }
      // the unreferenced triangle must not matter
      if (lower)
        for (SizeType j = 0; j < n; ++j)
          for (SizeType i = 0; i < j; ++i)
            in(i, j) = r.chance(1, 2) ? nan_<T>() : T(Real<T>(1e30));
      vk::case_begin(cat("max norm ", d, " ", al.desc(), s.sched));
      double want = 0;
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < m; ++i)
          if (in_tri(uplo, i, j))
            want = std::max(want, double(std::abs(in(i, j))));
      Mat<T> a(g, make_dist(g, m, n, mb, nb, src), al, in);
      const Real<T> got = tt::sync_wait(auxiliary::max_norm<Backend::MC, Device::CPU, T>(*g.grid, at, uplo, *a));
      a.check_unchanged(in, "matrix");
      if (g.grid->rank() == at || m == 0 || n == 0) {
        // complex absolute values may differ in the last bits between implementations
        const double tol = is_cx<T> ? 4 * eps<T>() * want : 0;
        VK_CHECK(std::abs(double(got) - want) <= tol, "norm", "max norm ", got, ", expected ", want);
        vk::count("norms checked");
      }
      if (m > 0 && n > 0)
        vk::nontrivial(d);
    });
  });
  return s.finish();
}
