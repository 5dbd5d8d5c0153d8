// C36: the BLAS kernels.
#include "c36_tiles.hpp"
TK(gemm) TK(hemm) TK(her2k) TK(herk) TK(trmm) TK(trmm3) TK(trsm) TK(add) TK(scal)
template <class T>
struct Case : Base<T> {
  USE_BASE
  void gemm() {
    const SizeType m = dim(), n = dim(), k = dim();
    const auto oa = op(), ob = op();
    const T al = scalar(), be = scalar();
    auto a = make(oa == blas::Op::NoTrans ? random_ref<T>(r, m, k) : random_ref<T>(r, k, m));
    auto b = make(ob == blas::Op::NoTrans ? random_ref<T>(r, k, n) : random_ref<T>(r, n, k));
    auto x = make(maybe_nan(random_ref<T>(r, m, n), be));
    const Ref<T> want = plus(scaled(al, mul(opped(a.val, oa), opped(b.val, ob))), beta_c(be, x.val));
    begin("gemm", char(oa), char(ob), " alpha=", al, " beta=", be, " ", a.desc(), " ", b.desc(), " ", x.desc());
    invoke<K_gemm>(c, nullptr, oa, ob, al, in(a), in(b), be, out(x));
    result(x, want, tol(k), "gemm");
    a.check_unchanged("gemm A");
    b.check_unchanged("gemm B");
  }
  void hemm() {
    const SizeType m = dim(), n = dim();
    const auto s = side();
    const auto u = uplo();
    const T al = scalar(), be = scalar();
    const SizeType k = s == Side::Left ? m : n;
    const Ref<T> h = random_hermitian<T>(r, k);
    auto a = make(half(h, u));
    auto b = make(random_ref<T>(r, m, n));
    auto x = make(maybe_nan(random_ref<T>(r, m, n), be));
    const Ref<T> want = plus(scaled(al, s == Side::Left ? mul(h, b.val) : mul(b.val, h)), beta_c(be, x.val));
    begin("hemm", char(s), char(u), " alpha=", al, " beta=", be, " ", a.desc(), " ", b.desc(), " ", x.desc());
    invoke<K_hemm>(c, nullptr, s, u, al, in(a), in(b), be, out(x));
    result(x, want, tol(k), "hemm");
    a.check_unchanged("hemm A");
    b.check_unchanged("hemm B");
  }
  void her2k() {
    const SizeType n = dim(), k = dim();
    const auto o = herm_op();
    const auto u = uplo();
    const T al = scalar();
    const R be = real_scalar();
    auto a = make(o == blas::Op::NoTrans ? random_ref<T>(r, n, k) : random_ref<T>(r, k, n));
    auto b = make(o == blas::Op::NoTrans ? random_ref<T>(r, n, k) : random_ref<T>(r, k, n));
    auto x = make(half(maybe_nan(random_hermitian<T>(r, n), T(be)), u));
    const Ref<T> aa = o == blas::Op::NoTrans ? a.val : adjoint(a.val), bb = o == blas::Op::NoTrans ? b.val : adjoint(b.val);
    // alpha op(A) op(B)^H + its adjoint
    const Ref<T> p = scaled(al, mul(aa, adjoint(bb)));
    const Ref<T> want = plus(plus(p, adjoint(p)), beta_c(T(be), x.val));
    begin("her2k", char(u), char(o), " alpha=", al, " beta=", be, " ", a.desc(), " ", b.desc(), " ", x.desc());
    invoke<K_her2k>(c, nullptr, u, o, al, in(a), in(b), be, out(x));
    result(x, want, tol(2 * k), "her2k", tri(u));
    a.check_unchanged("her2k A");
    b.check_unchanged("her2k B");
  }
  void herk() {
    const SizeType n = dim(), k = dim();
    const auto o = herm_op();
    const auto u = uplo();
    const R al = real_scalar(), be = real_scalar();
    auto a = make(o == blas::Op::NoTrans ? random_ref<T>(r, n, k) : random_ref<T>(r, k, n));
    auto x = make(half(maybe_nan(random_hermitian<T>(r, n), T(be)), u));
    const Ref<T> aa = o == blas::Op::NoTrans ? a.val : adjoint(a.val);
    const Ref<T> want = plus(scaled(T(al), mul(aa, adjoint(aa))), beta_c(T(be), x.val));
    begin("herk", char(u), char(o), " alpha=", al, " beta=", be, " ", a.desc(), " ", x.desc());
    invoke<K_herk>(c, nullptr, u, o, al, in(a), be, out(x));
    result(x, want, tol(k), "herk", tri(u));
    a.check_unchanged("herk A");
  }
  void trmm(int which) {  // trmm, trmm3, trsm
    const SizeType m = dim(), n = dim();
    const auto s = side();
    const auto u = uplo();
    const auto o = op();
    const auto d = diag();
    const T al = scalar();
    const SizeType k = s == Side::Left ? m : n;
    auto a = make(tri_input(k, u, d));
    auto b = make(random_ref<T>(r, m, n));
    const Ref<T> f = opped(triangle(a.val, u, d), o), b0 = b.val;
    const std::string p = cat(char(s), char(u), char(o), char(d), " alpha=", al, " ", a.desc(), " ", b.desc());
    if (which == 0) {
      begin("trmm", p);
      invoke<K_trmm>(c, nullptr, s, u, o, d, al, in(a), out(b));
      result(b, scaled(al, s == Side::Left ? mul(f, b0) : mul(b0, f)), tol(k), "trmm");
    }
    else if (which == 1) {
      auto x = make(Ref<T>(m, n, nan_<T>()));
      begin("trmm3", p, " ", x.desc());
      invoke<K_trmm3>(c, nullptr, s, u, o, d, al, in(a), in(b), out(x));
      result(x, scaled(al, s == Side::Left ? mul(f, b0) : mul(b0, f)), tol(k), "trmm3");
      b.check_unchanged("trmm3 B");
    }
    else {
      begin("trsm", p);
      invoke<K_trsm>(c, nullptr, s, u, o, d, al, in(a), out(b));
      b.check_outside("trsm");
      const Ref<T> x = b.get();
      check_close(s == Side::Left ? mul(f, x) : mul(x, f), scaled(al, b0), 8 * double(k + 4) * E * (1 + max_abs(x)) * double(k + 2), "trsm");
      vk::count("results checked");
    }
    a.check_unchanged("triangular A");
  }
  void add() {
    const SizeType m = dim(), n = dim();
    const T al = scalar();
    auto b = make(random_ref<T>(r, m, n));
    auto a = make(random_ref<T>(r, m, n));
    const Ref<T> want = plus(a.val, scaled(al, b.val));
    begin("add", " alpha=", al, " ", b.desc(), " ", a.desc());
    invoke<K_add>(c, nullptr, al, in(b), out(a));
    result(a, want, tol(0), "add");
    b.check_unchanged("add B");
  }
  void scal() {
    const SizeType m = dim(), n = dim();
    const T be = scalar();
    auto a = make(maybe_nan(random_ref<T>(r, m, n), be));
    const Ref<T> want = beta_c(be, a.val);
    begin("scal", " beta=", be, " ", a.desc());
    invoke<K_scal>(c, nullptr, be, out(a));
    result(a, want, tol(0), "scal");
  }
  void any() {
    switch (r.irange(0, 9)) {
      case 0:
        return gemm();
      case 1:
        return gemm();
      case 2:
        return hemm();
      case 3:
        return her2k();
      case 4:
        return herk();
      case 5:
        return trmm(0);
      case 6:
        return trmm(1);
      case 7:
        return trmm(2);
      case 8:
        return add();
      default:
        return scal();
    }
  }
};
RUN_CASE(blas_case)
