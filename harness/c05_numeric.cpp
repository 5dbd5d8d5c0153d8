// C05: numeric, string and operation count helpers against their definitions.
#include <cctype>
#include <cmath>
#include <limits>
#include <set>

#include <dlaf/types.h>
#include <dlaf/util_math.h>
#include <dlaf/util_string.h>

#include <vk.hpp>

using namespace dlaf;
using vk::cat;

void splits_one(SizeType l, SizeType b, SizeType o1, SizeType o2) {
  std::set<SizeType> want{0, l};
  for (SizeType o : {o1, o2})
    for (SizeType i = o; i < l; i += b)
      want.insert(i);
  auto got = util::interleaveSplits(l, b, o1, o2);
  bool ok = got.size() == want.size() && std::equal(want.begin(), want.end(), got.begin());
  if (!ok) {
    std::string s;
    for (auto v : got)
      s += cat(v, " ");
    vk::violation("splits", cat("interleaveSplits(", l, ",", b, ",", o1, ",", o2, ") = ", s));
  }
  vk::count("split lists");
}

template <class F>
void percent_one(SizeType n, F p) {
  // exact for the inputs used (n and p exactly representable)
  long double x = static_cast<long double>(n) * static_cast<long double>(p) / 100.0L;
  SizeType got = util::internal::percent_to_index<F>(n, p);
  long double slack = static_cast<long double>(std::numeric_limits<F>::epsilon()) * x * 4 + 1e-9L;
  VK_CHECK(std::fabs(static_cast<double>(got - x)) <= 0.5L + slack, "percent", "percent_to_index(", n, ",", p, ") = ", got);
  if (p == 0)
    VK_EQ(got, SizeType(0), "percent-ends", "n ", n);
  if (p == 100)
    VK_EQ(got, n, "percent-ends", "n ", n);
  vk::count("percentages");
}

template <class T>
void types_one(vk::Rng& r, const char* name) {
  vk::case_begin(cat("operation counts ", name));
  vk::nontrivial_current();
  constexpr bool cplx = isComplex_v<T>;
  for (int k = 0; k < 200; ++k) {
    double a = double(r.range(0, 1 << 30)), m = double(r.range(0, 1 << 30));
    VK_EQ(total_ops<T>(a, m), (cplx ? 2. : 1.) * a + (cplx ? 6. : 1.) * m, "ops", name, " ", a, " ", m);
    vk::count("operation counts");
  }
  using B = BaseType<T>;
  for (int k = 0; k < 500; ++k) {
    B re = static_cast<B>(r.chance(1, 10) ? 0. : r.chance(1, 10) ? -0. : r.real() * std::pow(10., r.irange(-30, 30)));
    B im = static_cast<B>(r.chance(1, 10) ? 0. : r.real() * std::pow(10., r.irange(-30, 30)));
    if constexpr (cplx) {
      T z(re, im);
      auto c = dlaf::conj(z);
      static_assert(std::is_same_v<decltype(c), T>, "conj type");
      VK_CHECK(c.real() == re && c.imag() == -im && std::signbit(c.imag()) == !std::signbit(im), "conj", re, " ", im);
    }
    else {
      auto c = dlaf::conj(re);
      static_assert(std::is_same_v<decltype(c), T>, "conj of a real is real");
      VK_CHECK(c == re && std::signbit(c) == std::signbit(re), "conj", re);
    }
    vk::count("conjugates");
  }
}

int main() {
  auto r = vk::rng("c05");
  const SizeType lm = vk::scale(26, 60), bm = vk::scale(9, 16);
  for (SizeType l = 1; l <= lm; ++l)
    for (SizeType b = 1; b <= bm; ++b) {
      vk::case_begin(cat("splits l ", l, " b ", b, " all offsets"));
      vk::nontrivial_current();
      for (SizeType o1 = 0; o1 <= b; ++o1)
        for (SizeType o2 = 0; o2 <= b; ++o2)
          splits_one(l, b, o1, o2);
    }
  for (int k = 0; k < vk::scale(2000, 40000); ++k) {
    SizeType b = r.chance(1, 2) ? r.range(1, 300) : r.range(1, 5000);
    SizeType l = r.range(1, 12 * b), o1 = r.range(0, b), o2 = r.chance(1, 4) ? o1 : r.range(0, b);
    if (r.chance(1, 8)) {  // huge values
      SizeType s = SizeType(1) << r.irange(30, 55);
      b *= s / 4096 + 1;
      l *= s / 4096 + 1;
      o1 = r.range(0, b);
      o2 = r.range(0, b);
    }
    vk::case_begin(cat("splits ", l, " ", b, " ", o1, " ", o2));
    vk::nontrivial_current();
    splits_one(l, b, o1, o2);
  }
  for (int k = 0; k < vk::scale(12, 60); ++k) {
    SizeType l = r.range(1, 9), b = r.range(1, 9), o1 = r.range(0, b), o2 = r.range(0, b);
    switch (k % 6) {
      case 0: l = -r.range(0, 3); break;
      case 1: b = -r.range(0, 3); break;
      case 2: o1 = -r.range(1, 3); break;
      case 3: o2 = -r.range(1, 3); break;
      case 4: o1 = b + r.range(1, 3); break;
      default: o2 = b + r.range(1, 3);
    }
    vk::case_begin(cat("splits must refuse ", l, " ", b, " ", o1, " ", o2));
    vk::nontrivial_current();
    auto o = vk::run_forked([&]() { (void) util::interleaveSplits(l, b, o1, o2); });
    VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", vk::outcome_name(o));
  }

  for (SizeType n : {SizeType(0), SizeType(1), SizeType(2), SizeType(3), SizeType(7), SizeType(10), SizeType(99), SizeType(100),
                     SizeType(101), SizeType(1000), SizeType(4097), SizeType(123457), SizeType(1) << 30, (SizeType(1) << 32) + 5,
                     SizeType(1) << 40, (SizeType(1) << 40) + 1}) {
    vk::case_begin(cat("percent of ", n));
    vk::nontrivial_current();
    SizeType prev = 0;
    for (int p = 0; p <= 400; ++p) {
      double pc = p / 4.;
      percent_one<double>(n, pc);
      if (n < (1 << 20))
        percent_one<float>(n, static_cast<float>(pc));
      SizeType v = util::internal::percent_to_index<double>(n, pc);
      VK_CHECK(v >= prev && v <= n, "percent-monotone", n, " ", pc);
      prev = v;
    }
    for (int k = 0; k < vk::scale(300, 5000); ++k)
      percent_one<double>(n, std::fabs(r.real()) * 100);
  }
  for (auto& bad : {std::pair<SizeType, double>{-1, 5.}, {5, -0.5}, {5, 100.5}, {5, 1e9}, {5, std::nan("")}}) {
    vk::case_begin(cat("percent must refuse ", bad.first, " ", bad.second));
    vk::nontrivial_current();
    auto o = vk::run_forked([&]() { (void) util::internal::percent_to_index<double>(bad.first, bad.second); });
    VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", vk::outcome_name(o));
  }

  {
    vk::case_begin("sign comparison");
    std::vector<double> v{0., -0., 1., -1., 1e-310, -1e-310, 1e300, -1e300, std::numeric_limits<double>::infinity(),
                          -std::numeric_limits<double>::infinity(), std::nan(""), -std::nan("")};
    for (int k = 0; k < 40; ++k)
      v.push_back(r.real() * std::pow(10., r.irange(-300, 300)));
    for (double a : v)
      for (double b : v) {
        VK_EQ(util::sameSign(a, b), std::signbit(a) == std::signbit(b), "sign", a, " ", b);
        VK_EQ(util::sameSign<float>(float(a), float(b)), std::signbit(float(a)) == std::signbit(float(b)), "sign", "float ", a, " ", b);
        // same sign exactly when the (non-underflowing) quotient signs agree: independent formulation through bits
        std::uint64_t x, y;
        std::memcpy(&x, &a, 8);
        std::memcpy(&y, &b, 8);
        VK_EQ(util::sameSign(a, b), (x >> 63) == (y >> 63), "sign", a, " ", b);
        vk::count("sign pairs");
      }
    vk::nontrivial_current();
  }
  for (int k = 0; k < vk::scale(2000, 20000); ++k) {
    int n = r.irange(0, 40);
    std::string s;
    for (int i = 0; i < n; ++i)
      s += static_cast<char>(r.chance(1, 3) ? r.irange(0, 255) : r.irange(60, 125));
    vk::case_begin(cat("lower case of ", vk::json_escape(s)));
    if (n)
      vk::nontrivial_current();
    std::string in = s, got = util::copy_to_lower(s), want = s;
    for (char& c : want)
      if (c >= 'A' && c <= 'Z')
        c = static_cast<char>(c - 'A' + 'a');
    VK_CHECK(got == want, "lower", vk::json_escape(got));
    VK_CHECK(s == in, "lower", "argument modified");
    vk::count("strings");
  }
  types_one<float>(r, "float");
  types_one<double>(r, "double");
  types_one<std::complex<float>>(r, "complex<float>");
  types_one<std::complex<double>>(r, "complex<double>");
  static_assert(isComplex_v<std::complex<float>> && !isComplex_v<double>, "");
  static_assert(std::is_same_v<BaseType<std::complex<double>>, double> && std::is_same_v<BaseType<float>, float> &&
                std::is_same_v<ComplexType<float>, std::complex<float>> &&
                std::is_same_v<ComplexType<std::complex<float>>, std::complex<float>>, "");
  {
    vk::case_begin("device and backend names");
    std::ostringstream o;
    o << Device::CPU << Device::GPU << Backend::MC << Backend::GPU;
    VK_EQ(o.str(), std::string("CPUGPUMCGPU"), "names", "");
  }
  return vk::finish();
}
