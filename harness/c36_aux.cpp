// C36: norms, copies, initialisation and temporary tiles.
#include "c36_tiles.hpp"
TK(scaleCol) TK(lange) TK(lantr) TK(laset) TK(set0)
KERNEL(copy, dlaf::matrix::internal::copy, dlaf::matrix::copy)
template <class T>
struct Case : Base<T> {
  USE_BASE
  void scale_col() {
    const SizeType m = dim(), n = std::max<SizeType>(1, dim());
    const T al = scalar();
    const SizeType k = r.range(0, n - 1);
    auto a = make(random_ref<T>(r, m, n));
    Ref<T> want = a.val;
    for (SizeType i = 0; i < m; ++i)
      want(i, k) *= al;
    begin("scaleCol", " alpha=", al, " col=", k, " ", a.desc());
    invoke<K_scaleCol>(c, nullptr, al, k, out(a));
    result(a, want, tol(0), "scaleCol", [&](SizeType, SizeType j) { return j == k; });
  }
  R norm_of(const Ref<T>& a, lapack::Norm nrm) {
    double v = 0;
    if (nrm == lapack::Norm::Max)
      v = max_abs(a);
    else if (nrm == lapack::Norm::Inf)
      v = norm_inf(a);
    else if (nrm == lapack::Norm::One)
      v = norm_inf(adjoint(a));
    else {
      for (auto& x : a.v)
        v += std::norm(std::complex<double>(x));
      v = std::sqrt(v);
    }
    return R(v);
  }
  void norms(bool triangular) {
    if (c.mode == Call::BLOCKING)  // returns nothing
      c.mode = Call::DIRECT;
    SizeType m = dim(), n = dim();
    const lapack::Norm ns[] = {lapack::Norm::Max, lapack::Norm::One, lapack::Norm::Inf, lapack::Norm::Fro};
    const auto nrm = ns[r.irange(0, 3)];
    const auto u = uplo();
    const auto d = diag();
    if (triangular && (u == Uplo::Lower ? m < n : m > n))
      std::swap(m, n);
    Ref<T> v = random_ref<T>(r, m, n);
    if (r.chance(1, 4))
      v = scaled(T(R(r.chance(1, 2) ? 1e30 : 1e-30)), v);
    Ref<T> full = v;
    if (triangular) {
      poison_outside(v, u);
      full = triangle(v, u, d);
      if (d == Diag::Unit)
        for (SizeType i = 0; i < std::min(m, n); ++i)
          v(i, i) = nan_<T>();
    }
    auto a = make(v);
    R got = R(-5);
    auto sink = [&](R x) { got = x; };
    const R want = m && n ? norm_of(full, nrm) : R(0);
    if (triangular) {
      begin("lantr", char(nrm), char(u), char(d), " ", a.desc());
      invoke<K_lantr>(c, sink, nrm, u, d, in(a));
    }
    else {
      begin("lange", char(nrm), " ", a.desc());
      invoke<K_lange>(c, sink, nrm, in(a));
    }
    VK_CHECK(std::abs(double(got) - double(want)) <= 32 * double(m + n + 2) * E * double(want), triangular ? "lantr" : "lange", "norm is ", got, ", expected ", want);
    vk::count("results checked");
    a.check_unchanged("norm operand");
  }
  void laset() {
    if (c.mode == Call::BLOCKING)  // exists for two arguments or more
      c.mode = Call::DIRECT;
    const SizeType m = dim(), n = dim();
    const Uplo us[] = {Uplo::General, Uplo::Lower, Uplo::Upper};
    const auto u = us[r.irange(0, 2)];
    const T al = scalar(), be = r.chance(1, 3) ? al : scalar();
    const bool zero = r.chance(1, 3);
    auto a = make(r.chance(1, 2) ? Ref<T>(m, n, nan_<T>()) : random_ref<T>(r, m, n));
    Ref<T> want(m, n);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        want(i, j) = zero ? T(0) : i == j ? be : al;
    if (zero) {
      begin("set0", " ", a.desc());
      invoke<K_set0>(c, nullptr, out(a));
      result(a, want, 0, "set0");
    }
    else {
      begin("laset", char(u), " alpha=", al, " beta=", be, " ", a.desc());
      invoke<K_laset>(c, nullptr, u, al, be, out(a));
      result(a, want, 0, "laset", tri(u));
    }
  }
  void copy() {
    const SizeType m = dim(), n = dim();
    auto a = make(random_ref<T>(r, m, n));
    auto x = make(Ref<T>(m, n, nan_<T>()));
    const Ref<T> want = a.val;
    begin("copy", " ", a.desc(), " ", x.desc());
    invoke<K_copy>(c, nullptr, in(a), out(x));
    result(x, want, 0, "copy");
    a.check_unchanged("copy source");
  }
  void copy_int() {
    const SizeType m = dim(), n = dim();
    auto run = [&](auto tag) {
      using I = decltype(tag);
      auto some = [&] {
        Ref<I> v(m, n);
        for (auto& x : v.v)
          x = I(r.u64());
        return v;
      };
      Op<I> a(r, g, c.own(), some()), x(r, g, c.own(), some());
      const Ref<I> want = a.val;
      vk::case_begin(cat("copy int", sizeof(I), " ", c.desc(), " ", a.desc(), " ", x.desc(), sched));
      invoke<K_copy>(c, nullptr, in(a), out(x));
      VK_CHECK(x.get().v == want.v, "copy", "integers differ");
      x.check_outside("copy");
      a.check_unchanged("copy source");
      vk::count("results checked");
    };
    if (r.chance(1, 2))
      run(int(0));
    else
      run(SizeType(0));
  }
  // part of a tile to part of another
  void lacpy() {
    const SizeType m = dim(), n = dim();
    const Call c0 = c;
    c.mode = Call::DIRECT;
    if (r.chance(1, 4)) {
      auto a = make(random_ref<T>(r, m, n));
      auto x = make(Ref<T>(m, n, nan_<T>()));
      begin("lacpy", " ", a.desc(), " ", x.desc());
      dlaf::tile::lacpy<T>(direct(in(a)), direct(out(x)));
      result(x, a.val, 0, "lacpy");
      a.check_unchanged("lacpy source");
    }
    else {
      const TileElementSize reg(m, n);
      const TileElementIndex ia(r.irange(0, 3), r.irange(0, 3)), ix(r.irange(0, 3), r.irange(0, 3));
      auto a = make(random_ref<T>(r, ia.row() + m + r.irange(0, 2), ia.col() + n + r.irange(0, 2)));
      auto x = make(random_ref<T>(r, ix.row() + m + r.irange(0, 2), ix.col() + n + r.irange(0, 2)));
      Ref<T> want = x.val;
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < m; ++i)
          want(ix.row() + i, ix.col() + j) = a.val(ia.row() + i, ia.col() + j);
      begin("lacpy part", " ", reg, ia, a.desc(), ix, x.desc());
      dlaf::tile::lacpy<T>(reg, ia, direct(in(a)), ix, direct(out(x)));
      result(x, want, 0, "lacpy", [&](SizeType i, SizeType j) { return i >= ix.row() && i < ix.row() + m && j >= ix.col() && j < ix.col() + n; });
      a.check_unchanged("lacpy source");
    }
    c = c0;
  }
  void any() {
    switch (r.irange(0, 8)) {
      case 0:
        return scale_col();
      case 1:
        return norms(false);
      case 2:
        return norms(true);
      case 3:
        return norms(true);
      case 4:
        return laset();
      case 5:
        return copy();
      case 6:
        return copy_int();
      case 7:
        return lacpy();
      default:
        return lacpy();
    }
  }
};
RUN_CASE(aux_case)

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("tiles", vk::scale(20000, 80000), [&](int, Group& g, Rng& r, Rng&) {
    const thread_priority ps[] = {thread_priority::normal, thread_priority::high, thread_priority::low};
    Call c;
    c.mode = Call::Mode(r.irange(0, 3));
    c.detach = r.chance(2, 3);
    c.prio = ps[r.irange(0, 2)];
    c.prio2 = ps[r.irange(0, 2)];
    switch (r.irange(0, 3)) {
      case 0:
        return blas_case(r, g, c, s.sched);
      case 1:
        return lapack_case(r, g, c, s.sched);
      case 2:
        return temp_case(r, g, c, s.sched);
      default:
        return aux_case(r, g, c, s.sched);
    }
  }, {0});
  return s.finish();
}
