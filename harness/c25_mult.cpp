// C25: triangular, Hermitian and general products against their definition; unreferenced parts are NaN, everything outside
// the result is compared bit by bit.
#include <alg.hpp>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/triangular.h>
using namespace alg;

template <class T>
T scalar(Rng& r) {
  switch (r.irange(0, 5)) {
    case 0:
      return T(0);
    case 1:
      return T(1);
    case 2:
      return T(-1);
    default:
      return rnd<T>(r);
  }
}
template <class T>
void tri(Session& s, Group& g, Rng& r) {
  const bool left = r.chance(1, 2);
  const bool local = g.single() && r.chance(3, 4);
  const auto side = left ? blas::Side::Left : blas::Side::Right;
  const auto uplo = r.chance(1, 2) ? blas::Uplo::Lower : blas::Uplo::Upper;
  const auto diag = r.chance(1, 3) ? blas::Diag::Unit : blas::Diag::NonUnit;
  const blas::Op ops[] = {blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans};
  const auto op = local ? ops[r.irange(0, 2)] : blas::Op::NoTrans;
  const Bulk bulk = random_bulk(r);
  const SizeType nb = tile_of(r, bulk, 1, 6), ob = tile_of(r, bulk, 1, 6);
  const SizeType n = size_of(r, bulk, nb, 8, 28), o = size_of(r, bulk, ob, 7, 20);
  const T alpha = scalar<T>(r);
  const auto src = random_source(r, g);
  const AllocKind la = random_alloc(r), lb = random_alloc(r);
  const std::string d = cat(name_of<T>::v, left ? " L" : " R", uplo == blas::Uplo::Lower ? "L" : "U",
                            op == blas::Op::NoTrans ? "N" : op == blas::Op::Trans ? "T" : "C", diag == blas::Diag::Unit ? "U" : "N", " n=", n,
                            "/", nb, " o=", o, "/", ob, " grid=", local ? "local" : g.desc(), src_desc(src));
  vk::case_begin(cat("trmm ", d, " alpha=", alpha, " ", la.desc(), " ", lb.desc(), s.sched));
  Ref<T> ain = random_tri<T>(r, n, diag == blas::Diag::Unit);
  poison_outside(ain, uplo);
  const SizeType bm = left ? n : o, bn = left ? o : n;
  const Ref<T> bin = random_ref<T>(r, bm, bn);
  Mat<T> a(g, make_dist(g, n, n, nb, nb, src), la, ain);
  Mat<T> b(g, make_dist(g, bm, bn, left ? nb : ob, left ? ob : nb, src), lb, bin);
  if (local)
    triangular_multiplication<Backend::MC, Device::CPU, T>(side, uplo, op, diag, alpha, *a, *b);
  else
    triangular_multiplication<Backend::MC, Device::CPU, T>(*g.grid, side, uplo, op, diag, alpha, *a, *b);
  a.check_unchanged(ain, "triangular matrix");
  b.check_padding("product");
  const Ref<T> t = adjoint(triangle(ain, uplo, diag), op);
  Ref<T> want = left ? mul(t, bin) : mul(bin, t);
  for (auto& x : want.v)
    x *= alpha;
  check_close(b.gather(), want, 10 * double(n + 4) * eps<T>() * std::max(1.0, double(std::abs(alpha))) * 2, "triangular product");
  vk::count("triangular products");
  if (n > 0 && o > 0)
    vk::nontrivial("t" + d);
}
template <class T>
void herm(Session& s, Group& g, Rng& r) {
  const bool local = g.single() && r.chance(3, 4);
  const Bulk bulk = random_bulk(r);
  const SizeType nb = tile_of(r, bulk, 1, 6), ob = tile_of(r, bulk, 1, 6);
  const SizeType n = size_of(r, bulk, nb, 8, 28), o = size_of(r, bulk, ob, 7, 20);
  const T alpha = scalar<T>(r), beta = scalar<T>(r);
  const auto src = random_source(r, g);
  const AllocKind la = random_alloc(r), lb = random_alloc(r), lc = random_alloc(r);
  const std::string d = cat(name_of<T>::v, " n=", n, "/", nb, " o=", o, "/", ob, " grid=", local ? "local" : g.desc(), src_desc(src));
  vk::case_begin(cat("hemm ", d, " alpha=", alpha, " beta=", beta, " ", la.desc(), " ", lb.desc(), " ", lc.desc(), s.sched));
  const Ref<T> full = random_hermitian<T>(r, n);
  Ref<T> ain = full;
  poison_outside(ain, blas::Uplo::Lower);
  const Ref<T> bin = random_ref<T>(r, n, o), cin = random_ref<T>(r, n, o);
  Mat<T> a(g, make_dist(g, n, n, nb, nb, src), la, ain);
  Mat<T> b(g, make_dist(g, n, o, nb, ob, src), lb, bin);
  Mat<T> c(g, make_dist(g, n, o, nb, ob, src), lc, cin);
  if (local)
    hermitian_multiplication<Backend::MC, Device::CPU, T>(blas::Side::Left, blas::Uplo::Lower, alpha, *a, *b, beta, *c);
  else
    hermitian_multiplication<Backend::MC, Device::CPU, T>(*g.grid, blas::Side::Left, blas::Uplo::Lower, alpha, *a, *b, beta, *c);
  a.check_unchanged(ain, "Hermitian matrix");
  b.check_unchanged(bin, "factor");
  c.check_padding("product");
  Ref<T> want = mul(full, bin);
  for (std::size_t k = 0; k < want.v.size(); ++k)
    want.v[k] = alpha * want.v[k] + beta * cin.v[k];
  check_close(c.gather(), want, 10 * double(n + 4) * eps<T>() * 3, "Hermitian product");
  vk::count("Hermitian products");
  if (n > 0 && o > 0)
    vk::nontrivial("h" + d);
}
template <class T>
void gen(Session& s, Group& g, Rng& r) {
  const bool local = g.single() && r.chance(3, 4);
  const bool part = r.chance(2, 3);
  const Bulk bulk = random_bulk(r);
  const SizeType mb = tile_of(r, bulk, 1, 6), nb = tile_of(r, bulk, 1, 6), kb = tile_of(r, bulk, 1, 6);
  auto extent = [&](SizeType b, SizeType max) { return size_of(r, bulk, b, 7, max); };
  const SizeType m = extent(mb, 22), n = extent(nb, 22), k = extent(kb, 22);
  const SizeType om = part ? r.range(0, mb - 1) : 0, on = part ? r.range(0, nb - 1) : 0, ok = part ? r.range(0, kb - 1) : 0;
  // whole tiles before the selected part: rows of A and C, columns of B and C, columns of A and rows of B
  auto tiles = [&]() { return part ? SizeType(r.irange(0, 3)) : SizeType(0); };
  const SizeType tam = tiles(), tcm = tiles(), tbn = tiles(), tcn = tiles(), tak = tiles(), tbk = tiles();
  auto tail = [&]() { return part && r.chance(1, 2) ? SizeType(r.irange(0, 5)) : SizeType(0); };
  const T alpha = scalar<T>(r), beta = scalar<T>(r);
  const auto src = random_source(r, g);
  auto shift = [](int s, SizeType have, SizeType want, int p) { return int(((s + want - have) % p + p) % p); };
  // rows of A start on the process row of the rows of C, columns of B on the process column of those of C
  const comm::Index2D asrc(shift(src.row(), tam, tcm, g.rows), part ? r.irange(0, g.cols - 1) : src.col());
  const comm::Index2D bsrc(part ? r.irange(0, g.rows - 1) : src.row(), shift(src.col(), tbn, tcn, g.cols));
  const GlobalElementIndex ao(tam * mb + om, tak * kb + ok), bo(tbk * kb + ok, tbn * nb + on), co(tcm * mb + om, tcn * nb + on);
  const AllocKind la = random_alloc(r), lb = random_alloc(r), lc = random_alloc(r);
  const std::string d = cat(name_of<T>::v, " ", m, "/", mb, "x", n, "/", nb, "x", k, "/", kb, " A at ", ao.row(), ",", ao.col(), " B at ", bo.row(),
                            ",", bo.col(), " C at ", co.row(), ",", co.col(), " grid=", local ? "local" : g.desc(), src_desc(src));
  vk::case_begin(cat("gemm ", d, " alpha=", alpha, " beta=", beta, " ", la.desc(), " ", lb.desc(), " ", lc.desc(), s.sched));
  Ref<T> ain = random_ref<T>(r, ao.row() + m + tail(), ao.col() + k + tail());
  Ref<T> bin = random_ref<T>(r, bo.row() + k + tail(), bo.col() + n + tail());
  const Ref<T> cin = random_ref<T>(r, co.row() + m + tail(), co.col() + n + tail());
  auto in = [](GlobalElementIndex o, SizeType a, SizeType b, SizeType i, SizeType j) {
    return i >= o.row() && i < o.row() + a && j >= o.col() && j < o.col() + b;
  };
  // outside the selected parts: NaN
  for (SizeType j = 0; j < ain.n; ++j)
    for (SizeType i = 0; i < ain.m; ++i)
      if (!in(ao, m, k, i, j))
        ain(i, j) = nan_<T>();
  for (SizeType j = 0; j < bin.n; ++j)
    for (SizeType i = 0; i < bin.m; ++i)
      if (!in(bo, k, n, i, j))
        bin(i, j) = nan_<T>();
  Mat<T> a(g, make_dist(g, ain.m, ain.n, mb, kb, asrc), la, ain);
  Mat<T> b(g, make_dist(g, bin.m, bin.n, kb, nb, bsrc), lb, bin);
  Mat<T> c(g, make_dist(g, cin.m, cin.n, mb, nb, src), lc, cin);
  {
    using matrix::internal::MatrixRef;
    MatrixRef<const T, Device::CPU> ar(*a, {ao, {m, k}}), br(*b, {bo, {k, n}});
    MatrixRef<T, Device::CPU> cr(*c, {co, {m, n}});
    if (local)
      multiplication::internal::generalMatrix<Backend::MC, Device::CPU, T>(blas::Op::NoTrans, blas::Op::NoTrans, alpha, ar, br, beta, cr);
    else {
      auto row = g.grid->row_communicator_pipeline();
      auto col = g.grid->col_communicator_pipeline();
      multiplication::internal::generalMatrix<Backend::MC, Device::CPU, T>(row, col, alpha, ar, br, beta, cr);
    }
  }
  a.check_unchanged(ain, "first factor");
  b.check_unchanged(bin, "second factor");
  c.check_bits(cin, "around the product", [&](SizeType i, SizeType j) { return !in(co, m, n, i, j); });
  const Ref<T> got = c.gather();
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i) {
      T x(0);
      for (SizeType l = 0; l < k; ++l)
        x += ain(ao.row() + i, ao.col() + l) * bin(bo.row() + l, bo.col() + j);
      const T want = alpha * x + beta * cin(co.row() + i, co.col() + j);
      const T have = got(co.row() + i, co.col() + j);
      if (!(std::abs(want - have) <= 10 * double(k + 4) * eps<T>() * 3)) {
        vk::violation("general product", cat("element (", i, ",", j, ") of the product is ", have, ", expected ", want));
        return;
      }
    }
  vk::count("general products");
  if (m > 0 && n > 0)
    vk::nontrivial("g" + d);
}
// One matrix as both factors.
template <class T>
void square(Session& s, Group& g, Rng& r) {
  const bool local = g.single() && r.chance(3, 4);
  const bool hermitian = r.chance(1, 2);
  const Bulk bulk = random_bulk(r);
  const SizeType nb = tile_of(r, bulk, 1, 6), n = size_of(r, bulk, nb, 8, 28);
  const T alpha = scalar<T>(r), beta = r.chance(1, 3) ? alpha : scalar<T>(r);
  const auto src = random_source(r, g);
  const AllocKind la = random_alloc(r), lc = random_alloc(r);
  const std::string d = cat(name_of<T>::v, hermitian ? " Hermitian" : "", " n=", n, "/", nb, " grid=", local ? "local" : g.desc(), src_desc(src));
  vk::case_begin(cat("square ", d, " alpha=", alpha, " beta=", beta, " ", la.desc(), " ", lc.desc(), s.sched));
  const Ref<T> ain = hermitian ? random_hermitian<T>(r, n) : random_ref<T>(r, n, n), cin = random_ref<T>(r, n, n);
  Mat<T> a(g, make_dist(g, n, n, nb, nb, src), la, ain);
  Mat<T> c(g, make_dist(g, n, n, nb, nb, src), lc, cin);
  if (hermitian) {
    if (local)
      hermitian_multiplication<Backend::MC, Device::CPU, T>(blas::Side::Left, blas::Uplo::Lower, alpha, *a, *a, beta, *c);
    else
      hermitian_multiplication<Backend::MC, Device::CPU, T>(*g.grid, blas::Side::Left, blas::Uplo::Lower, alpha, *a, *a, beta, *c);
  }
  else {
    using matrix::internal::MatrixRef;
    MatrixRef<const T, Device::CPU> ar(*a, {{0, 0}, {n, n}}), br(*a, {{0, 0}, {n, n}});
    MatrixRef<T, Device::CPU> cr(*c, {{0, 0}, {n, n}});
    if (local)
      multiplication::internal::generalMatrix<Backend::MC, Device::CPU, T>(blas::Op::NoTrans, blas::Op::NoTrans, alpha, ar, br, beta, cr);
    else {
      auto row = g.grid->row_communicator_pipeline();
      auto col = g.grid->col_communicator_pipeline();
      multiplication::internal::generalMatrix<Backend::MC, Device::CPU, T>(row, col, alpha, ar, br, beta, cr);
    }
  }
  a.check_unchanged(ain, "both factors");
  c.check_padding("product");
  Ref<T> want = mul(ain, ain);
  for (std::size_t k = 0; k < want.v.size(); ++k)
    want.v[k] = alpha * want.v[k] + beta * cin.v[k];
  check_close(c.gather(), want, 10 * double(n + 4) * eps<T>() * 3, "product with itself");
  vk::count("products of a matrix with itself");
  if (n > 0)
    vk::nontrivial("s" + d);
}
int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("mult", vk::scale(2500, 12000), [&](int, Group& g, Rng& r, Rng&) {
    with_type(r, [&](auto tag) {
      using T = typename decltype(tag)::type;
      if (r.chance(1, 8))
        return square<T>(s, g, r);
      switch (r.irange(0, 2)) {
        case 0:
          return tri<T>(s, g, r);
        case 1:
          return herm<T>(s, g, r);
        default:
          return gen<T>(s, g, r);
      }
    });
  });
  return s.finish();
}
