// C02: 2D ranges and their random-access iterators against an explicit position counter.
#include <algorithm>
#include <iterator>
#include <limits>

#include <dlaf/common/range2d.h>
#include <dlaf/communication/index.h>
#include <dlaf/matrix/index.h>

#include <vk.hpp>

using namespace dlaf;
using common::iterate_range2d;
using vk::cat;
using I128 = __int128;

struct MyTag;

template <class T>
const char* tname() {
  return sizeof(T) == 1 ? "schar" : sizeof(T) == 2 ? "short" : sizeof(T) == 4 ? "int" : "long";
}

template <class T, class Tag = MyTag>
struct Drv {
  using Ix = common::Index2D<T, Tag>;
  using Sz = common::Size2D<T, Tag>;

  static Ix expect(T r0, T c0, SizeType ld, SizeType pos) {
    return Ix(static_cast<T>(r0 + pos % ld), static_cast<T>(c0 + pos / ld));
  }

  template <class R>
  static void full_walk(R&& range, T r0, T c0, T m, T n, const char* how) {
    SizeType pos = 0;
    const SizeType cells = SizeType(m) * n;
    for (auto ix : range) {
      if (pos >= cells) {
        vk::violation("walk", cat(how, ": more indices than cells (", cells, "), extra ", ix));
        break;
      }
      if (!(ix == expect(r0, c0, m, pos))) {
        vk::violation("walk", cat(how, ": position ", pos, " gave ", ix, " expected ", expect(r0, c0, m, pos)));
        break;
      }
      ++pos;
    }
    VK_EQ(pos, cells, "walk-count", how);
    VK_EQ(range.empty(), cells == 0, "empty", how);
    VK_EQ(range.end() - range.begin(), cells, "distance", how);
    vk::count("indices visited", static_cast<std::uint64_t>(pos));
  }

  static void walks(vk::Rng& r, int n) {
    for (int k = 0; k < n; ++k) {
      T m = static_cast<T>(r.range(0, 9)), q = static_cast<T>(r.range(0, 9));
      if (r.chance(1, 6))
        m = static_cast<T>(r.range(0, 90));
      T r0 = static_cast<T>(r.range(-5, 20)), c0 = static_cast<T>(r.range(-5, 20));
      if (r.chance(1, 5)) {
        r0 = static_cast<T>(std::numeric_limits<T>::max() - m);
        c0 = static_cast<T>(std::numeric_limits<T>::max() - q);
      }
      vk::case_begin(cat("walk ", tname<T>(), " begin (", (long) r0, ",", (long) c0, ") extent ", (long) m, "x", (long) q));
      if (m > 0 && q > 0)
        vk::nontrivial_current();
      full_walk(iterate_range2d(Ix(r0, c0), Sz(m, q)), r0, c0, m, q, "begin+size");
      full_walk(iterate_range2d(Ix(r0, c0), Ix(static_cast<T>(r0 + m), static_cast<T>(c0 + q))), r0, c0, m, q, "begin,end");
      full_walk(iterate_range2d(Sz(m, q)), 0, 0, m, q, "size");
      full_walk(iterate_range2d(Ix(m, q)), 0, 0, m, q, "end");
      if (m > 0 && r.chance(1, 4)) {
        // the last row is the largest value of the type (given by a size only: the end index does not exist)
        const T rl = static_cast<T>(std::numeric_limits<T>::max() - m + 1);
        auto top = iterate_range2d(Ix(rl, c0), Sz(m, q));
        full_walk(top, rl, c0, m, q, "begin+size up to the limit");
        VK_EQ((isIndexInRange(Ix(std::numeric_limits<T>::max(), c0), top)), q > 0, "membership", "last row of the type");
        VK_EQ((isIndexInRange(Ix(static_cast<T>(rl - 1), c0), top)), false, "membership", "row before the last ones of the type");
        vk::count("ranges up to the limit of the type");
      }
      // standard algorithms relying on random access
      auto rg = iterate_range2d(Ix(r0, c0), Sz(m, q));
      VK_EQ(SizeType(std::distance(rg.begin(), rg.end())), SizeType(m) * q, "distance", "std::distance");
      // membership over the surrounding box
      for (I128 i = I128(r0) - 2; i <= I128(r0) + m + 1; ++i)
        for (I128 j = I128(c0) - 2; j <= I128(c0) + q + 1; ++j) {
          if (i < std::numeric_limits<T>::min() || i > std::numeric_limits<T>::max() ||
              j < std::numeric_limits<T>::min() || j > std::numeric_limits<T>::max())
            continue;
          if (m > 12 && i > r0 + 3 && i < r0 + m - 3)
            continue;
          bool in = i >= r0 && i < I128(r0) + m && j >= c0 && j < I128(c0) + q;
          VK_EQ((isIndexInRange(Ix(static_cast<T>(i), static_cast<T>(j)), rg)), in, "membership", "(", long(i), ",", long(j), ")");
          vk::count("membership queries");
        }
    }
  }

  // random iterator histories against a plain position
  static void histories(vk::Rng& r, int n, bool big) {
    for (int k = 0; k < n; ++k) {
      T m, q;
      if (!big) {
        m = static_cast<T>(r.range(1, 11));
        q = static_cast<T>(r.range(1, 11));
      }
      else {
        // number of cells exceeds T but fits SizeType
        do {
          m = static_cast<T>(r.chance(1, 2) ? r.range(1, std::numeric_limits<T>::max())
                                            : std::numeric_limits<T>::max() - r.range(0, 3));
          q = static_cast<T>(r.chance(1, 2) ? r.range(1, std::numeric_limits<T>::max()) : r.range(1, 60));
          if (r.chance(1, 2))
            std::swap(m, q);
        } while (I128(m) * q > std::numeric_limits<SizeType>::max());
      }
      T r0 = static_cast<T>(r.range(0, std::numeric_limits<T>::max() - m));
      T c0 = static_cast<T>(r.range(0, std::numeric_limits<T>::max() - q));
      if (r.chance(1, 3))
        r0 = c0 = 0;
      const SizeType cells = SizeType(m) * q;
      int form = r.irange(0, 1);
      vk::case_begin(cat("iterator history ", tname<T>(), " begin (", (long) r0, ",", (long) c0, ") extent ", (long) m, "x",
                         (long) q, form ? " begin,end" : " begin,size"));
      vk::nontrivial_current();
      auto rg = form ? iterate_range2d(Ix(r0, c0), Ix(static_cast<T>(r0 + m), static_cast<T>(c0 + q)))
                     : iterate_range2d(Ix(r0, c0), Sz(m, q));
      VK_EQ(rg.end() - rg.begin(), cells, big ? "distance-wide" : "distance", "");
      VK_EQ(rg.empty(), false, "empty", "");
      if (big) {
        Ix last(static_cast<T>(r0 + m - 1), static_cast<T>(c0 + q - 1));
        VK_CHECK(*std::prev(rg.end()) == last, "last-wide", *std::prev(rg.end()), " expected ", last);
        VK_CHECK(isIndexInRange(last, rg), "membership", "last index");
        VK_CHECK(isIndexInRange(Ix(r0, c0), rg), "membership", "first index");
        for (int x = 0; x < 12; ++x) {
          auto near = [&](T b, T ext) {
            const I128 v = r.chance(1, 2) ? I128(b) + r.range(0, ext - 1)
                                          : (r.chance(1, 2) ? I128(b) : I128(b) + ext) + r.range(-2, 1);
            return static_cast<T>(std::max<I128>(std::numeric_limits<T>::min(), std::min<I128>(std::numeric_limits<T>::max(), v)));
          };
          const T i = near(r0, m), j = near(c0, q);
          const bool in = i >= r0 && I128(i) < I128(r0) + m && j >= c0 && I128(j) < I128(c0) + q;
          VK_EQ((isIndexInRange(Ix(i, j), rg)), in, "membership", "wide (", long(i), ",", long(j), ")");
        }
      }
      auto it = rg.begin();
      SizeType pos = 0;
      decltype(it) it2 = it;
      SizeType pos2 = 0;
      auto target = [&](SizeType) { return r.chance(1, 6) ? cells - 1 : r.chance(1, 6) ? SizeType(0) : r.range(0, cells - 1); };
      for (int s = 0; s < 30; ++s) {
        switch (r.irange(0, 11)) {
          case 0:
            if (pos < cells - 1) {
              auto& x = ++it;
              ++pos;
              VK_CHECK(&x == &it, "iterator", "pre-increment does not return itself");
            }
            break;
          case 1:
            if (pos < cells - 1) {
              auto old = it++;
              VK_CHECK(*old == expect(r0, c0, m, pos), "iterator", "post-increment old value");
              ++pos;
            }
            break;
          case 2:
            if (pos > 0) {
              auto& x = --it;
              --pos;
              VK_CHECK(&x == &it, "iterator", "pre-decrement does not return itself");
            }
            break;
          case 3:
            if (pos > 0) {
              auto old = it--;
              VK_CHECK(pos == cells || *old == expect(r0, c0, m, pos), "iterator", "post-decrement old value");
              --pos;
            }
            break;
          case 4: {
            SizeType t = target(pos);
            it += t - pos;
            pos = t;
            break;
          }
          case 5: {
            SizeType t = target(pos);
            it -= pos - t;
            pos = t;
            break;
          }
          case 6: {
            SizeType t = target(pos);
            it = it + (t - pos);
            pos = t;
            break;
          }
          case 7: {
            SizeType t = target(pos);
            it = (t - pos) + it;
            pos = t;
            break;
          }
          case 8: {
            SizeType t = target(pos);
            it = it - (pos - t);
            pos = t;
            break;
          }
          case 9: {
            SizeType t = target(pos);
            VK_CHECK(it[t - pos] == expect(r0, c0, m, t), "iterator", "subscript ", t - pos, " from ", pos);
            break;
          }
          case 10:
            it2 = it;
            pos2 = pos;
            break;
          default:
            it = rg.end();
            pos = cells;
            VK_CHECK(it == rg.end() && !(it != rg.end()), "iterator", "end");
            if (r.chance(1, 2)) {
              --it;
              --pos;
            }
        }
        if (pos < cells) {
          VK_CHECK(*it == expect(r0, c0, m, pos), "iterator", "value at ", pos, " is ", *it, " expected ",
                   expect(r0, c0, m, pos));
          VK_CHECK(it->row() == (*it).row() && it->col() == (*it).col(), "iterator", "operator->");
        }
        VK_EQ(it - it2, pos - pos2, "iterator", "difference");
        VK_EQ(it == it2, pos == pos2, "iterator", "==");
        VK_EQ(it != it2, pos != pos2, "iterator", "!=");
        VK_EQ(it < it2, pos < pos2, "iterator", "<");
        VK_EQ(it <= it2, pos <= pos2, "iterator", "<=");
        VK_EQ(it > it2, pos > pos2, "iterator", ">");
        VK_EQ(it >= it2, pos >= pos2, "iterator", ">=");
        vk::count("iterator steps");
      }
    }
  }
};

template <class T>
void refuse(vk::Rng& r) {
  using Ix = common::Index2D<T, MyTag>;
  for (int rep = 0; rep < vk::scale(1, 8); ++rep)
    for (int dr : {-1, 0, 1})
      for (int dc : {-1, 0, 1}) {
        if (dr >= 0 && dc >= 0)
          continue;
        auto step = [&](int d, bool far) { return static_cast<T>(d == 0 ? 0 : d * (far ? r.irange(1, 9) : 1)); };
        Ix b(static_cast<T>(r.irange(0, 9)), static_cast<T>(r.irange(0, 9)));
        Ix e(static_cast<T>(b.row() + step(dr, r.chance(1, 2))), static_cast<T>(b.col() + step(dc, r.chance(1, 2))));
        vk::case_begin(cat("begin after end ", b, " ", e));
        vk::nontrivial_current();
        auto o = vk::run_forked([&]() { (void) common::IterableRange2D<T, MyTag>(b, e); });
        VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", vk::outcome_name(o));
        if (r.chance(1, 2)) {
          auto o2 = vk::run_forked([&]() { (void) common::iterate_range2d(b, e); });
          VK_CHECK(o2 == vk::Outcome::Terminated, "fail-stop", "iterate_range2d ", vk::outcome_name(o2));
        }
      }
}

int main() {
  auto r = vk::rng("c02");
  int n = vk::scale(400, 8000);
  Drv<signed char>::walks(r, n);
  Drv<short>::walks(r, n);
  Drv<int>::walks(r, n);
  Drv<long>::walks(r, n);
  Drv<SizeType, matrix::GlobalTile_TAG>::walks(r, n);
  Drv<int, comm::TAG_MPI>::walks(r, n);
  for (bool big : {false, true}) {
    Drv<signed char>::histories(r, n, big);
    Drv<short>::histories(r, n, big);
    Drv<int>::histories(r, 2 * n, big);
    Drv<long>::histories(r, n, big);
  }
  // complete walks where the number of cells exceeds the index type
  {
    using D = Drv<signed char>;
    for (auto e : {std::pair<int, int>{127, 127}, {12, 11}, {11, 12}, {127, 2}, {2, 127}}) {
      vk::case_begin(cat("wide walk schar ", e.first, "x", e.second));
      vk::nontrivial_current();
      D::full_walk(iterate_range2d(D::Sz(e.first, e.second)), 0, 0, e.first, e.second, "size");
      D::full_walk(iterate_range2d(D::Ix(e.first, e.second)), 0, 0, e.first, e.second, "end");
    }
    using S = Drv<short>;
    for (auto e : {std::pair<int, int>{300, 301}, {32767, 3}, {3, 32767}}) {
      vk::case_begin(cat("wide walk short ", e.first, "x", e.second));
      vk::nontrivial_current();
      S::full_walk(iterate_range2d(S::Sz(e.first, e.second)), 0, 0, e.first, e.second, "size");
      S::full_walk(iterate_range2d(S::Ix(e.first, e.second)), 0, 0, e.first, e.second, "end");
    }
  }
  // begin after end is refused: every combination of (row bad, col bad, the other one equal / larger)
  refuse<int>(r);
  refuse<long>(r);
  refuse<signed char>(r);
  return vk::finish();
}
