// C04: integer conversions are value preserving or stop the program.
#include <limits>

#include <dlaf/types.h>
#include <dlaf/util_math.h>

#include <vk.hpp>

using namespace dlaf;
using vk::cat;
using I128 = __int128;

template <class T>
std::string tn() {
  return cat(std::is_signed_v<T> ? "s" : "u", 8 * sizeof(T), std::is_same_v<T, char> ? "c" : std::is_same_v<T, long long> ? "ll" : std::is_same_v<T, unsigned long long> ? "ull" : "");
}
std::string s128(I128 v) {
  if (v == 0)
    return "0";
  bool neg = v < 0;
  std::string s;
  unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
  while (u) {
    s.insert(s.begin(), char('0' + int(u % 10)));
    u /= 10;
  }
  return neg ? "-" + s : s;
}

struct TI {
  I128 lo, hi;
  std::string name;
  bool fits(I128 v) const {
    return v >= lo && v <= hi;
  }
};
template <class T>
TI ti() {
  return {I128(std::numeric_limits<T>::min()), I128(std::numeric_limits<T>::max()), tn<T>()};
}

// values of the source type that are interesting for a destination type
std::vector<I128> values(const TI& f, const TI& t, vk::Rng& r, int extra) {
  std::vector<I128> c;
  for (I128 b : {I128(0), f.lo, f.hi, t.lo, t.hi, I128(127), I128(-128), I128(255), I128(32767), I128(-32768), I128(65535),
                 I128(2147483647), -I128(2147483648LL), I128(4294967295LL), t.hi * 2, t.hi * 2 + 2})
    for (int d = -2; d <= 2; ++d)
      c.push_back(b + d);
  for (int k = 0; k < extra; ++k)
    c.push_back(r.chance(1, 2) ? f.lo + I128(r.u64()) % (f.hi - f.lo + 1) : I128(r.range(-1000, 1000)));
  std::vector<I128> o;
  for (I128 v : c)
    if (f.fits(v) && std::find(o.begin(), o.end(), v) == o.end())
      o.push_back(v);
  return o;
}
template <class F, class T>
std::vector<F> values(vk::Rng& r, int extra) {
  std::vector<F> o;
  for (I128 v : values(ti<F>(), ti<T>(), r, extra))
    o.push_back(static_cast<F>(v));
  return o;
}

template <class T>
bool fits(I128 v) {
  return ti<T>().fits(v);
}

using ConvFn = I128 (*)(I128);

void conversion_(vk::Rng& r, const char* name, const TI& f, const TI& t, ConvFn conv, int extra, int probes) {
  const std::string what = cat(name, " ", f.name, " -> ", t.name);
  vk::case_begin(what);
  vk::nontrivial_current();
  std::vector<I128> bad;
  for (I128 v : values(f, t, r, extra)) {
    if (t.fits(v)) {
      I128 got = conv(v);
      if (got != v)
        vk::violation("value", cat(what, ": ", s128(v), " became ", s128(got)));
      vk::count("representable conversions");
    }
    else
      bad.push_back(v);
  }
  // fail-stop: the values next to the limits first, then random ones
  std::sort(bad.begin(), bad.end(), [&](I128 a, I128 b) {
    auto d = [&](I128 x) { return std::max(t.lo - x, x - t.hi); };
    return d(a) < d(b);
  });
  std::vector<I128> sel;
  for (std::size_t i = 0; i < bad.size() && static_cast<int>(i) < probes; ++i)
    sel.push_back(bad[i]);
  if (!bad.empty()) {
    sel.push_back(bad.back());
    sel.push_back(r.pick(bad));
    for (I128 v : bad)  // one negative, if any
      if (v < 0) {
        sel.push_back(v);
        break;
      }
    for (I128 v : bad)  // one whose truncation looks harmless
      if (((v - t.lo) % (t.hi - t.lo + 1) + t.lo) == 0) {
        sel.push_back(v);
        break;
      }
  }
  for (I128 v : sel) {
    vk::case_begin(cat(what, " must refuse ", s128(v)));
    vk::nontrivial_current();
    auto o = vk::run_forked([&]() {
      volatile bool x = conv(v) == v;
      (void) x;
    });
    VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", what, " of ", s128(v), " ", vk::outcome_name(o));
  }
}

template <class F, class T, class Conv>
void conversion(vk::Rng& r, const char* name, Conv, int extra, int probes) {
  static_assert(std::is_same_v<decltype(Conv::call(F())), T>, "result type");
  conversion_(r, name, ti<F>(), ti<T>(), [](I128 v) -> I128 {
    return I128(Conv::call(static_cast<F>(v)));
  }, extra, probes);
}

#define VK_CONV_T(fn)            \
  template <class T>             \
  struct C_##fn {                \
    template <class F>           \
    static auto call(F v) {      \
      return fn<T>(v);           \
    }                            \
  };
#define VK_CONV(fn)              \
  struct C_##fn {                \
    template <class F>           \
    static auto call(F v) {      \
      return fn(v);              \
    }                            \
  };
VK_CONV_T(integral_cast)
VK_CONV_T(to_signed)
VK_CONV_T(to_unsigned)
VK_CONV(to_int)
VK_CONV(to_uint)
VK_CONV(to_sizet)
VK_CONV(to_SizeType)

template <class F>
void from(vk::Rng& r, int extra, int probes) {
  conversion<F, signed char>(r, "integral_cast", C_integral_cast<signed char>{}, extra, probes);
  conversion<F, unsigned char>(r, "integral_cast", C_integral_cast<unsigned char>{}, extra, probes);
  conversion<F, short>(r, "integral_cast", C_integral_cast<short>{}, extra, probes);
  conversion<F, unsigned short>(r, "integral_cast", C_integral_cast<unsigned short>{}, extra, probes);
  conversion<F, int>(r, "integral_cast", C_integral_cast<int>{}, extra, probes);
  conversion<F, unsigned>(r, "integral_cast", C_integral_cast<unsigned>{}, extra, probes);
  conversion<F, long>(r, "integral_cast", C_integral_cast<long>{}, extra, probes);
  conversion<F, unsigned long>(r, "integral_cast", C_integral_cast<unsigned long>{}, extra, probes);
  conversion<F, long long>(r, "integral_cast", C_integral_cast<long long>{}, extra, probes);
  conversion<F, short>(r, "to_signed", C_to_signed<short>{}, extra, 1);
  conversion<F, int>(r, "to_int", C_to_int{}, extra, probes);
  conversion<F, SizeType>(r, "to_SizeType", C_to_SizeType{}, extra, probes);
  conversion<F, unsigned short>(r, "to_unsigned", C_to_unsigned<unsigned short>{}, extra, 1);
  conversion<F, unsigned>(r, "to_uint", C_to_uint{}, extra, probes);
  conversion<F, std::size_t>(r, "to_sizet", C_to_sizet{}, extra, probes);
}

template <class A, class B>
void arith(vk::Rng& r, int n) {
  vk::case_begin(cat("sum/mul ", tn<A>(), " ", tn<B>()));
  vk::nontrivial_current();
  auto va = values<A, SizeType>(r, n);
  auto vb = values<B, std::size_t>(r, n);
  for (A a : va)
    for (B b : vb) {
      I128 s = I128(a) + I128(b), p;
      bool ovf = __builtin_mul_overflow(I128(a), I128(b), &p);
      if (fits<SizeType>(a) && fits<SizeType>(b)) {
        if (fits<SizeType>(s))
          if (I128(dlaf::util::ptrdiff_t::sum(a, b)) != s)
            vk::violation("sum", cat("ptrdiff_t::sum ", s128(a), " ", s128(b), " gave ", dlaf::util::ptrdiff_t::sum(a, b)));
        if (!ovf && fits<SizeType>(p))
          if (I128(dlaf::util::ptrdiff_t::mul(a, b)) != p)
            vk::violation("mul", cat("ptrdiff_t::mul ", s128(a), " ", s128(b), " gave ", dlaf::util::ptrdiff_t::mul(a, b)));
        vk::count("signed wide operations");
      }
      if (a >= A(0) && b >= B(0)) {
        if (fits<std::size_t>(s))
          if (I128(dlaf::util::size_t::sum(a, b)) != s)
            vk::violation("sum", cat("size_t::sum ", s128(a), " ", s128(b), " gave ", dlaf::util::size_t::sum(a, b)));
        if (!ovf && fits<std::size_t>(p))
          if (I128(dlaf::util::size_t::mul(a, b)) != p)
            vk::violation("mul", cat("size_t::mul ", s128(a), " ", s128(b), " gave ", dlaf::util::size_t::mul(a, b)));
        vk::count("unsigned wide operations");
      }
    }
}

// operands outside the wide type are refused
template <class F>
void arith_refuse(vk::Rng& r) {
  if constexpr (std::is_signed_v<F>)
    for (F v : {F(-1), std::numeric_limits<F>::min(), F(-r.irange(1, 100))}) {
      vk::case_begin(cat("size_t::sum/mul must refuse ", s128(v)));
      vk::nontrivial_current();
      auto o = vk::run_forked([&]() {
        volatile auto x = dlaf::util::size_t::sum(v, 1);
        (void) x;
      });
      VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", "sum ", vk::outcome_name(o));
      o = vk::run_forked([&]() {
        volatile auto x = dlaf::util::size_t::mul(3, v);
        (void) x;
      });
      VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", "mul ", vk::outcome_name(o));
    }
  if constexpr (!std::is_signed_v<F> && sizeof(F) == 8)
    for (F v : {std::numeric_limits<F>::max(), F(std::numeric_limits<SizeType>::max()) + 1u}) {
      vk::case_begin(cat("ptrdiff_t::sum/mul must refuse ", s128(v)));
      vk::nontrivial_current();
      auto o = vk::run_forked([&]() {
        volatile auto x = dlaf::util::ptrdiff_t::sum(v, 0);
        (void) x;
      });
      VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", "sum ", vk::outcome_name(o));
      o = vk::run_forked([&]() {
        volatile auto x = dlaf::util::ptrdiff_t::mul(1, v);
        (void) x;
      });
      VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", "mul ", vk::outcome_name(o));
    }
}

template <class T>
void ceil_div(vk::Rng& r, int n) {
  vk::case_begin(cat("ceilDiv ", tn<T>(), " small"));
  vk::nontrivial_current();
  auto one = [](T a, T b) {
    I128 want = I128(a) / b + (I128(a) % b != 0);
    T got = util::ceilDiv<T>(a, b);
    if (I128(got) != want)
      vk::violation("ceildiv", cat("ceilDiv<", tn<T>(), ">(", s128(a), ",", s128(b), ") = ", s128(got)));
    vk::count("ceilings");
  };
  for (int a = 0; a <= 60; ++a)
    for (int b = 1; b <= 60; ++b)
      one(static_cast<T>(a), static_cast<T>(b));
  const I128 top = std::numeric_limits<T>::max();
  for (int k = 0; k < n; ++k) {
    T b = static_cast<T>(r.chance(1, 2) ? r.u64() % static_cast<std::uint64_t>(top) : r.range(0, 99));
    if (b <= 0)
      b = 1;
    I128 amax = top - b + 1;
    T a = static_cast<T>(r.chance(1, 3) ? amax - r.range(0, std::min<I128>(3, amax)) : I128(r.u64() % (static_cast<std::uint64_t>(amax) ? static_cast<std::uint64_t>(amax) : 1)));
    if (k % 50 == 0) {
      vk::case_begin(cat("ceilDiv ", tn<T>(), " ", s128(a), " ", s128(b)));
      vk::nontrivial_current();
    }
    one(a, b);
    T m = static_cast<T>(a - a % b);
    one(m, b);
  }
}

int main() {
  auto r = vk::rng("c04");
  int extra = vk::scale(40, 2000), probes = vk::scale(2, 8);
  from<signed char>(r, extra, probes);
  from<unsigned char>(r, extra, probes);
  from<char>(r, extra, probes);
  from<short>(r, extra, probes);
  from<unsigned short>(r, extra, probes);
  from<int>(r, extra, probes);
  from<unsigned>(r, extra, probes);
  from<long>(r, extra, probes);
  from<unsigned long>(r, extra, probes);
  from<long long>(r, extra, probes);
  from<unsigned long long>(r, extra, probes);
  int n = vk::scale(20, 200);
  arith<int, int>(r, n);
  arith<int, long>(r, n);
  arith<long, int>(r, n);
  arith<long, long>(r, n);
  arith<unsigned, int>(r, n);
  arith<unsigned long, int>(r, n);
  arith<unsigned long, unsigned long>(r, n);
  arith<unsigned long, long>(r, n);
  arith<short, unsigned>(r, n);
  arith<signed char, unsigned char>(r, n);
  arith<unsigned short, long>(r, n);
  arith_refuse<signed char>(r);
  arith_refuse<int>(r);
  arith_refuse<long>(r);
  arith_refuse<unsigned long>(r);
  int c = vk::scale(2000, 100000);
  ceil_div<int>(r, c);
  ceil_div<unsigned>(r, c);
  ceil_div<long>(r, c);
  ceil_div<unsigned long>(r, c);
  ceil_div<short>(r, c);
  ceil_div<long long>(r, c);
  return vk::finish();
}
