// C36: kernels that factorise, transform and solve.
#include "c36_tiles.hpp"
TK(hegst) TK(lauum) TK(potrf) TK(potrfInfo) TK(stedc) TK(trtri) TK(trtri_info) TK(lauum_workspace) TK(trtri_workspace)
template <class T>
struct Case : Base<T> {
  USE_BASE
  void hegst() {
    const SizeType n = dim();
    const int it = r.irange(1, 3);
    const auto u = uplo();
    const Ref<T> h = random_hermitian<T>(r, n);
    Ref<T> f = random_tri<T>(r, n, false);
    // a Cholesky factor has a real positive diagonal
    for (SizeType i = 0; i < n; ++i)
      f(i, i) = T(R(std::abs(f(i, i))));
    auto a = make(half(h, u));
    auto b = make(half(f, u));
    begin("hegst", it, char(u), " ", a.desc(), " ", b.desc());
    // the operand B is handed over for writing, too
    invoke<K_hegst>(c, nullptr, it, u, out(a), out(b));
    b.check_unchanged("hegst B");
    a.check_kept("hegst", [&](SizeType i, SizeType j) { return !in_tri(u, i, j); });
    const Ref<T> x = hermitian_from(a.get(), u), l = u == Uplo::Lower ? triangle(f, u) : adjoint(triangle(f, u));  // B = L L^H
    if (it == 1)
      check_close(mul(mul(l, x), adjoint(l)), h, 16 * double(n + 4) * E * (1 + max_abs(x)) * double(n + 2), "hegst");
    else
      // L^H A L when the factor is lower, U A U^H = L^H A L with L = U^H otherwise
      check_close(x, mul(mul(adjoint(l), h), l), 16 * double(n + 4) * E * double(n + 2), "hegst");
    vk::count("results checked");
  }
  void lauum(bool ws) {
    const SizeType n = dim();
    const auto u = uplo();
    auto a = make(half(random_ref<T>(r, n, n), u));
    const Ref<T> f = triangle(a.val, u);
    const Ref<T> want = u == Uplo::Lower ? mul(adjoint(f), f) : mul(f, adjoint(f));
    // the diagonal of the factor is real
    if (ws) {
      auto w = make(Ref<T>(n + r.irange(0, 2), n + r.irange(0, 2), nan_<T>()));
      begin("lauum_workspace", char(u), " ", a.desc(), " ", w.desc());
      invoke<K_lauum_workspace>(c, nullptr, u, out(a), out(w));
      w.check_kept("lauum workspace", [&](SizeType i, SizeType j) { return i >= n || j >= n; });
      result(a, want, tol(n), "lauum_workspace", tri(u));
    }
    else {
      for (SizeType i = 0; i < n; ++i)
        a.val(i, i) = T(R(std::real(a.val(i, i))));
      auto b = make(a.val);
      const Ref<T> f2 = triangle(b.val, u);
      begin("lauum", char(u), " ", b.desc());
      invoke<K_lauum>(c, nullptr, u, out(b));
      result(b, u == Uplo::Lower ? mul(adjoint(f2), f2) : mul(f2, adjoint(f2)), tol(n), "lauum", tri(u));
    }
  }
  void potrf(bool info) {
    if (info && c.mode == Call::BLOCKING)  // returns nothing
      c.mode = Call::DIRECT;
    const SizeType n = dim();
    const auto u = uplo();
    Ref<T> h = random_hpd<T>(r, n);
    const bool bad = info && n > 0 && r.chance(1, 2);
    const SizeType at = bad ? r.range(0, n - 1) : -1;
    if (bad)
      h(at, at) = T(R(-1 - 2 * n));
    auto a = make(half(h, u));
    long long got = -1;
    auto sink = [&](long long x) { got = x; };
    if (info) {
      begin("potrfInfo", char(u), bad ? cat(" bad=", at) : "", " ", a.desc());
      invoke<K_potrfInfo>(c, sink, u, out(a));
      VK_CHECK(got == at + 1, "potrfInfo", "returned ", got, ", expected ", at + 1);
    }
    else {
      begin("potrf", char(u), " ", a.desc());
      invoke<K_potrf>(c, nullptr, u, out(a));
    }
    a.check_kept("potrf", [&](SizeType i, SizeType j) { return !in_tri(u, i, j); });
    if (bad)
      return;
    const Ref<T> f = triangle(a.get(), u);
    check_close(u == Uplo::Lower ? mul(f, adjoint(f)) : mul(adjoint(f), f), h, 8 * double(n + 4) * E * double(3 * n + 2), "potrf");
    vk::count("results checked");
  }
  void trtri(int which) {
    if (which == 1 && c.mode == Call::BLOCKING)  // returns nothing
      c.mode = Call::DIRECT;
    const SizeType n = dim();
    const auto u = uplo();
    const auto d = diag();
    Ref<T> f = tri_input(n, u, d);
    const bool bad = which == 1 && d == Diag::NonUnit && n > 0 && r.chance(1, 2);
    const SizeType at = bad ? r.range(0, n - 1) : -1;
    if (bad)
      f(at, at) = T(0);
    auto a = make(f);
    const std::string p = cat(char(u), char(d), bad ? cat(" singular=", at) : "", " ", a.desc());
    if (which == 0) {
      begin("trtri", p);
      invoke<K_trtri>(c, nullptr, u, d, out(a));
    }
    else if (which == 1) {
      begin("trtri_info", p);
      long long got = -1;
      auto sink = [&](long long x) { got = x; };
      invoke<K_trtri_info>(c, sink, u, d, out(a));
      VK_CHECK(got == at + 1, "trtri_info", "returned ", got, ", expected ", at + 1);
    }
    else {
      auto w = make(Ref<T>(n + r.irange(0, 2), n + r.irange(0, 2), nan_<T>()));
      begin("trtri_workspace", p, " ", w.desc());
      invoke<K_trtri_workspace>(c, nullptr, u, d, out(a), out(w));
      w.check_kept("trtri workspace", [&](SizeType i, SizeType j) { return i >= n || j >= n; });
    }
    auto w = tri(u, d);
    a.check_kept("trtri", [&](SizeType i, SizeType j) { return !w(i, j); });
    if (bad)
      return;
    const Ref<T> x = triangle(a.get(), u, d);
    check_close(mul(triangle(f, u, d), x), identity<T>(n), 16 * double(n + 4) * E * (1 + max_abs(x)) * double(n + 2), "trtri");
    vk::count("results checked");
  }
  void stedc() {
    if constexpr (!is_cx<T>) {
      const SizeType n = dim();
      Ref<T> t(n, 2);
      for (auto& x : t.v)
        x = rnd<T>(r);
      if (n && r.chance(1, 3))
        t(r.range(0, n - 1), 1) = T(0);
      if (r.chance(1, 4))
        for (SizeType i = 0; i < n; ++i)
          t(i, 0) = T(0.5);
      if (n)
        t(n - 1, 1) = nan_<T>();
      auto a = make(t);
      auto z = make(Ref<T>(n, n, nan_<T>()));
      begin("stedc", a.desc(), " ", z.desc());
      invoke<K_stedc>(c, nullptr, out(a), out(z));
      z.check_outside("stedc vectors");
      a.check_kept("stedc", [&](SizeType i, SizeType j) { return j == 1 && i == n - 1; });
      const Ref<T> w = a.get(), q = z.get();
      Ref<T> full(n, n), ql = q;
      for (SizeType i = 0; i < n; ++i) {
        full(i, i) = t(i, 0);
        if (i + 1 < n)
          full(i + 1, i) = full(i, i + 1) = t(i, 1);
        VK_CHECK(i == 0 || w(i - 1, 0) <= w(i, 0), "stedc", "eigenvalues ", i - 1, " and ", i, " out of order");
      }
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          ql(i, j) *= w(j, 0);
      const double tl = 16 * double(n + 4) * E * 4;
      check_close(mul(full, q), ql, tl, "stedc residual");
      check_close(mul(adjoint(q), q), identity<T>(n), tl, "stedc orthogonality");
      vk::count("results checked");
    }
    else
      hegst();
  }

  void any() {
    switch (r.irange(0, 9)) {
      case 0:
        return hegst();
      case 1:
        return hegst();
      case 2:
        return lauum(false);
      case 3:
        return lauum(true);
      case 4:
        return potrf(false);
      case 5:
        return potrf(true);
      case 6:
        return trtri(0);
      case 7:
        return trtri(1);
      case 8:
        return trtri(2);
      default:
        return stedc();
    }
  }
};
RUN_CASE(lapack_case)
