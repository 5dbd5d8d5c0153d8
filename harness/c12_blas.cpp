// C12: supplementary BLAS/LAPACK entry points act on exactly the described elements.
#include <cmath>
#include <complex>
#include <cstring>
#include <limits>
#include <vector>

#include <blas.hh>
#include <lapack.hh>

#include <vk.hpp>

#include <dlaf/blas/scal.h>
#include <dlaf/types.h>
#include <dlaf/util_lapack.h>

using vk::cat;

template <class T>
const char* tname() {
  if constexpr (std::is_same_v<T, float>) return "float";
  else if constexpr (std::is_same_v<T, double>) return "double";
  else if constexpr (std::is_same_v<T, std::complex<float>>) return "complex<float>";
  else return "complex<double>";
}

template <class T>
T rnd(vk::Rng& r) {
  using B = dlaf::BaseType<T>;
  if constexpr (dlaf::isComplex_v<T>)
    return T(static_cast<B>(r.real()), static_cast<B>(r.real()));
  else
    return static_cast<T>(r.real());
}
// any bit pattern, NaNs included
template <class T>
void stamp(vk::Rng& r, std::vector<T>& v) {
  for (auto& x : v) {
    unsigned char b[sizeof(T)];
    for (auto& c : b)
      c = static_cast<unsigned char>(r.u64());
    std::memcpy(&x, b, sizeof(T));
  }
}
template <class T>
bool same(const T& a, const T& b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}

template <class T>
void scal(vk::Rng& r) {
  using B = dlaf::BaseType<T>;
  std::int64_t n = r.chance(1, 10) ? r.range(-2, 0) : r.chance(1, 10) ? r.range(200, 3000) : r.range(1, 70);
  std::int64_t incx = r.chance(1, 2) ? 1 : r.range(2, 9);
  B a = r.chance(1, 8) ? B(r.irange(-1, 1)) : static_cast<B>(r.real() * 5);
  std::int64_t pre = r.range(0, 5), post = r.range(0, 9);
  vk::case_begin(cat("scal ", tname<T>(), " n ", n, " a ", double(a), " incx ", incx, " offset ", pre));
  if (n > 0)
    vk::nontrivial_current();
  std::int64_t len = pre + (n > 0 ? (n - 1) * incx + 1 : 0) + post;
  std::vector<T> v(static_cast<std::size_t>(len));
  stamp(r, v);
  for (std::int64_t k = 0; k < n; ++k)
    v[static_cast<std::size_t>(pre + k * incx)] = rnd<T>(r);
  auto ref = v;
  blas::scal(n, a, v.data() + pre, incx);
  for (std::int64_t i = 0; i < len; ++i) {
    auto u = static_cast<std::size_t>(i);
    bool in = n > 0 && i >= pre && (i - pre) % incx == 0 && (i - pre) / incx < n;
    if (!in)
      VK_CHECK(same(v[u], ref[u]), "scal-outside", "element ", i - pre, " changed");
    else {
      T want(a * ref[u].real(), a * ref[u].imag());
      B tol = 4 * std::numeric_limits<B>::epsilon();
      bool ok = std::abs(v[u].real() - want.real()) <= tol * std::abs(want.real()) && std::abs(v[u].imag() - want.imag()) <= tol * std::abs(want.imag());
      VK_CHECK(ok, "scal-value", "element ", (i - pre) / incx, " ", v[u], " expected ", want);
    }
  }
  vk::count("vectors scaled");
}

bool in_region(blas::Uplo u, std::int64_t i, std::int64_t j) {
  return u == blas::Uplo::General || (u == blas::Uplo::Lower ? i >= j : i <= j);
}
const char* uname(blas::Uplo u) {
  return u == blas::Uplo::General ? "General" : u == blas::Uplo::Lower ? "Lower" : "Upper";
}

template <class T>
void region(vk::Rng& r) {
  const blas::Uplo uplos[] = {blas::Uplo::Lower, blas::Uplo::Upper, blas::Uplo::General};
  blas::Uplo u = uplos[r.irange(0, 2)];
  std::int64_t m = r.range(0, 14), n = r.range(0, 14);
  if (r.chance(1, 15))
    m = r.range(100, 400);
  if (r.chance(1, 15))
    n = r.range(60, 120);
  std::int64_t lda = std::max<std::int64_t>(1, m) + (r.chance(1, 3) ? 0 : r.range(1, 5));
  std::int64_t ldb = std::max<std::int64_t>(1, m) + (r.chance(1, 3) ? 0 : r.range(1, 5));
  std::int64_t pre = r.range(0, 4), post = r.range(0, 4);
  vk::case_begin(cat("lacpy/laset ", tname<T>(), " ", uname(u), " ", m, "x", n, " ld ", lda, " ", ldb));
  if (m > 0 && n > 0)
    vk::nontrivial_current();
  std::vector<T> a(static_cast<std::size_t>(pre + lda * n + post)), b(static_cast<std::size_t>(post + ldb * n + pre));
  stamp(r, a);
  stamp(r, b);
  // numbers in the copied region, so that a conversion of NaNs by the backend does not matter
  for (std::int64_t j = 0; j < n; ++j)
    for (std::int64_t i = 0; i < m; ++i)
      a[static_cast<std::size_t>(pre + i + j * lda)] = rnd<T>(r);
  auto ra = a, rb = b;
  lapack::lacpy(u, m, n, a.data() + pre, lda, b.data() + post, ldb);
  for (std::size_t k = 0; k < a.size(); ++k)
    VK_CHECK(same(a[k], ra[k]), "lacpy-source", "source position ", k, " changed");
  for (std::size_t k = 0; k < b.size(); ++k) {
    std::int64_t q = static_cast<std::int64_t>(k) - post, j = q >= 0 ? q / ldb : -1, i = q >= 0 ? q % ldb : -1;
    bool in = q >= 0 && j < n && i < m && in_region(u, i, j);
    if (in)
      VK_CHECK(same(b[k], ra[static_cast<std::size_t>(pre + i + j * lda)]), "lacpy-value", "(", i, ",", j, ")");
    else
      VK_CHECK(same(b[k], rb[k]), "lacpy-outside", "(", i, ",", j, ") changed");
  }
  // set
  auto value = [&]() { return r.chance(1, 3) ? T(static_cast<dlaf::BaseType<T>>(r.irange(-1, 1))) : rnd<T>(r); };
  T alpha = value(), beta = r.chance(1, 3) ? alpha : value();
  lapack::laset(u, m, n, alpha, beta, a.data() + pre, lda);
  for (std::size_t k = 0; k < a.size(); ++k) {
    std::int64_t q = static_cast<std::int64_t>(k) - pre, j = q >= 0 ? q / lda : -1, i = q >= 0 ? q % lda : -1;
    bool in = q >= 0 && j < n && i < m && in_region(u, i, j);
    if (in)
      VK_CHECK(same(a[k], i == j ? beta : alpha), "laset-value", "(", i, ",", j, ") ", a[k]);
    else
      VK_CHECK(same(a[k], ra[k]), "laset-outside", "(", i, ",", j, ") changed");
  }
  vk::count("regions copied and set");
}

template <class F>
void refused(const std::string& what, F&& f) {
  vk::case_begin(what);
  vk::nontrivial_current();
  auto o = vk::run_forked(f);
  VK_CHECK(o == vk::Outcome::Terminated || o == vk::Outcome::Threw, "fail-stop", what, ": ", vk::outcome_name(o));
}

int main() {
  auto r = vk::rng("c12");
  const std::int64_t big = std::int64_t(1) << 31;
  std::complex<float> cf[8] = {};
  std::complex<double> cd[8] = {};
  const std::int64_t sizes[] = {big, big + 1, 2 * big, 2 * big + 1, 2 * big + 3, 4 * big + 2, -big - 1, -2 * big, -2 * big + 1,
                                std::numeric_limits<std::int64_t>::max(), std::numeric_limits<std::int64_t>::min()};
  for (std::int64_t x : sizes) {
    // wrapped to 32 bit these calls would do something harmless, or nothing
    refused(cat("csscal n ", x), [&]() { blas::scal(x, 2.f, cf, 0); });
    refused(cat("zdscal n ", x), [&]() { blas::scal(x, 2., cd, 0); });
    refused(cat("csscal incx ", x), [&]() { blas::scal(1, 2.f, cf, x); });
    refused(cat("zdscal incx ", x), [&]() { blas::scal(1, 2., cd, x); });
    if (x > 0 && x < std::numeric_limits<std::int64_t>::max()) {
      std::vector<double> d(64), e(64);
      refused(cat("lacpy m ", x), [&]() { lapack::lacpy(blas::Uplo::General, x, 0, d.data(), x, e.data(), x); });
      refused(cat("lacpy lda ", x), [&]() { lapack::lacpy(blas::Uplo::Lower, 1, 1, d.data(), x, e.data(), 1); });
      refused(cat("laset n ", x), [&]() { lapack::laset(blas::Uplo::Upper, 0, x, 1., 2., d.data(), 1); });
    }
  }
  const int n = vk::scale(6000, 120000);
  for (int k = 0; k < n; ++k) {
    scal<std::complex<float>>(r);
    scal<std::complex<double>>(r);
    region<float>(r);
    region<double>(r);
    region<std::complex<float>>(r);
    region<std::complex<double>>(r);
  }
  return vk::finish();
}
