// C24: triangular solves, all sides/triangles/operations/diagonals/scalars; the solution is put back into the equation, the
// parts of A that must not be used are NaN, A and everything around the right-hand side are compared bit by bit.
#include <alg.hpp>
#include <dlaf/solver/triangular.h>
using namespace alg;

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("trsm", vk::scale(3000, 12000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const bool left = r.chance(1, 2);
      const auto side = left ? blas::Side::Left : blas::Side::Right;
      const auto uplo = r.chance(1, 2) ? blas::Uplo::Lower : blas::Uplo::Upper;
      const auto diag = r.chance(1, 3) ? blas::Diag::Unit : blas::Diag::NonUnit;
      const blas::Op ops[] = {blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans};
      const auto op = ops[r.irange(0, 2)];
      const Bulk bulk = random_bulk(r);
      const SizeType nb = tile_of(r, bulk, 1, 6), ob = tile_of(r, bulk, 1, 6);
      const SizeType n = size_of(r, bulk, nb, 8, 28), o = size_of(r, bulk, ob, 7, 20);
      T alpha = rnd<T>(r);
      if (r.chance(1, 3))
        alpha = r.chance(1, 3) ? T(0) : r.chance(1, 2) ? T(1) : T(-1);
      const auto src = random_source(r, g);
      const bool local = g.single() && r.chance(3, 4);
      // the right-hand side may be part of a larger matrix
      const bool sub = r.chance(1, 3) && n > 0 && o > 0;
      SizeType bm = left ? n : o, bn = left ? o : n, m = bm, k = bn;
      SizeType bmb = left ? nb : ob, bnb = left ? ob : nb;
      GlobalElementIndex org(0, 0);
      comm::Index2D bsrc = src;
      if (sub) {
        // along A: whole tiles before; across: anything before
        const SizeType ta = r.irange(0, 3), oo = r.irange(0, int(2 * ob));
        org = left ? GlobalElementIndex(ta * nb, oo) : GlobalElementIndex(oo, ta * nb);
        m = org.row() + bm + (r.chance(1, 2) ? r.irange(0, 5) : 0);
        k = org.col() + bn + (r.chance(1, 2) ? r.irange(0, 5) : 0);
        auto back = [](int s, SizeType t, int p) { return int(((s - t) % p + p) % p); };
        bsrc = left ? comm::Index2D(back(src.row(), ta, g.rows), r.irange(0, g.cols - 1))
                    : comm::Index2D(r.irange(0, g.rows - 1), back(src.col(), ta, g.cols));
      }
      const AllocKind la = random_alloc(r), lb = random_alloc(r);
      const std::string d = cat(name_of<T>::v, left ? " L" : " R", uplo == blas::Uplo::Lower ? "L" : "U",
                                op == blas::Op::NoTrans ? "N" : op == blas::Op::Trans ? "T" : "C", diag == blas::Diag::Unit ? "U" : "N", " n=", n,
                                "/", nb, " o=", o, "/", ob, " grid=", local ? "local" : g.desc(), src_desc(src),
                                sub ? cat(" part at ", org.row(), ",", org.col(), " of ", m, "x", k, src_desc(bsrc)) : "");
      vk::case_begin(cat("trsm ", d, " alpha=", alpha, " ", la.desc(), " ", lb.desc(), s.sched));
      const Ref<T> ain = [&]() {
        Ref<T> a = random_tri<T>(r, n, diag == blas::Diag::Unit);
        poison_outside(a, uplo);
        return a;
      }();
      const Ref<T> bin = random_ref<T>(r, m, k);
      Mat<T> a(g, make_dist(g, n, n, nb, nb, src), la, ain);
      Mat<T> b(g, make_dist(g, m, k, bmb, bnb, bsrc), lb, bin);
      {
        matrix::internal::MatrixRef<T, Device::CPU> bref(*b, {org, {bm, bn}});
        if (sub) {
          if (local)
            solver::internal::triangular_solver<Backend::MC, Device::CPU, T>(side, uplo, op, diag, alpha, *a, bref);
          else
            solver::internal::triangular_solver<Backend::MC, Device::CPU, T>(*g.grid, side, uplo, op, diag, alpha, *a, bref);
        }
        else if (local)
          triangular_solver<Backend::MC, Device::CPU, T>(side, uplo, op, diag, alpha, *a, *b);
        else
          triangular_solver<Backend::MC, Device::CPU, T>(*g.grid, side, uplo, op, diag, alpha, *a, *b);
      }
      a.check_unchanged(ain, "triangular matrix");
      auto inside = [&](SizeType i, SizeType j) {
        return i >= org.row() && i < org.row() + bm && j >= org.col() && j < org.col() + bn;
      };
      b.check_bits(bin, "around the right-hand side", [&](SizeType i, SizeType j) { return !inside(i, j); });
      const Ref<T> bout = b.gather();
      Ref<T> x(bm, bn), rhs(bm, bn);
      for (SizeType j = 0; j < bn; ++j)
        for (SizeType i = 0; i < bm; ++i) {
          x(i, j) = bout(org.row() + i, org.col() + j);
          rhs(i, j) = alpha * bin(org.row() + i, org.col() + j);
        }
      const Ref<T> t = adjoint(triangle(ain, uplo, diag), op);
      const Ref<T> p = left ? mul(t, x) : mul(x, t);
      const double tol = 10 * double(n + 4) * eps<T>() * (4 * max_abs(x) + max_abs(rhs));
      check_close(p, rhs, tol, "equation");
      vk::count("solutions checked");
      if (n > 0 && o > 0)
        vk::nontrivial(d);
    });
  });
  return s.finish();
}
