// C01: 2D index/size algebra against exact (128-bit) componentwise arithmetic.
#include <limits>
#include <array>
#include <string>

#include <dlaf/common/index2d.h>
#include <dlaf/communication/communicator_type.h>
#include <dlaf/communication/index.h>
#include <dlaf/matrix/index.h>

#include <vk.hpp>

using namespace dlaf;
using vk::cat;
using I128 = __int128;

struct MyTag;

template <class T>
constexpr const char* tname() {
  if constexpr (std::is_same_v<T, signed char>)
    return "schar";
  else if constexpr (std::is_same_v<T, short>)
    return "short";
  else if constexpr (std::is_same_v<T, int>)
    return "int";
  else if constexpr (std::is_same_v<T, long>)
    return "long";
  else if constexpr (std::is_same_v<T, unsigned char>)
    return "uchar";
  else if constexpr (std::is_same_v<T, unsigned short>)
    return "ushort";
  else if constexpr (std::is_same_v<T, unsigned>)
    return "uint";
  else if constexpr (std::is_same_v<T, unsigned long>)
    return "ulong";
  else
    return "longlong";
}

template <class T>
T gen(vk::Rng& r) {
  using L = std::numeric_limits<T>;
  switch (r.irange(0, 7)) {
    case 0:
      return L::max();
    case 1:
      return static_cast<T>(L::max() - r.range(0, 3));
    case 2:
      return static_cast<T>(L::min() + r.range(0, 2));
    case 3:
      return static_cast<T>(r.range(L::min(), L::max()));
    case 4:
      return static_cast<T>(r.range(0, L::max()));
    default:
      return static_cast<T>(r.range(-4, 9));
  }
}

template <class T>
bool fits(I128 v) {
  return v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max();
}

template <class T, class Tag>
void algebra(vk::Rng& r, int n, const char* tag) {
  using Ix = common::Index2D<T, Tag>;
  using Sz = common::Size2D<T, Tag>;
  for (int k = 0; k < n; ++k) {
    T a = gen<T>(r), b = gen<T>(r), c = gen<T>(r), d = gen<T>(r);
    if (r.chance(1, 4))
      c = a;
    if (r.chance(1, 4))
      d = b;
    vk::case_begin(cat("algebra ", tname<T>(), " tag ", tag, " (", (long) a, ",", (long) b, ") (", (long) c, ",",
                       (long) d, ")"));
    if (a != 0 || b != 0)
      vk::nontrivial_current();
    Ix i(a, b);
    Sz s(c, d);
    VK_EQ(i.row(), a, "accessor", "row");
    VK_EQ(i.col(), b, "accessor", "col");
    VK_EQ(s.rows(), c, "accessor", "rows");
    VK_EQ(s.cols(), d, "accessor", "cols");
    VK_EQ(i.template get<Coord::Row>(), a, "accessor", "get<Row>");
    VK_EQ(i.template get<Coord::Col>(), b, "accessor", "get<Col>");
    VK_EQ(i.get(Coord::Row), a, "accessor", "get(Row)");
    VK_EQ(i.get(Coord::Col), b, "accessor", "get(Col)");
    VK_EQ(s.get(Coord::Row), c, "accessor", "size get(Row)");
    VK_EQ(s.get(Coord::Col), d, "accessor", "size get(Col)");
    VK_EQ(s.template get<Coord::Row>(), c, "accessor", "size get<Row>");
    VK_EQ(s.template get<Coord::Col>(), d, "accessor", "size get<Col>");
    {
      Ix e(Coord::Row, a, b), f(Coord::Col, a, b), g(Coord::Row, a), h(Coord::Col, a), arr(std::array<T, 2>{a, b});
      VK_CHECK(e.row() == a && e.col() == b, "ctor", "Coord::Row,value,fixed");
      VK_CHECK(f.row() == b && f.col() == a, "ctor", "Coord::Col,value,fixed");
      VK_CHECK(g.row() == a && g.col() == 0, "ctor", "Coord::Row,value");
      VK_CHECK(h.row() == 0 && h.col() == a, "ctor", "Coord::Col,value");
      VK_CHECK(arr.row() == a && arr.col() == b, "ctor", "array");
      Sz es(Coord::Row, a, b), fs(Coord::Col, a, b), as(std::array<T, 2>{a, b});
      VK_CHECK(es.rows() == a && es.cols() == b && fs.rows() == b && fs.cols() == a, "ctor", "size Coord");
      VK_CHECK(as.rows() == a && as.cols() == b, "ctor", "size array");
      Ix def;
      VK_CHECK(def.row() == -1 && def.col() == -1 && !def.isValid(), "ctor", "default index");
      Ix cp(i);
      Ix as2;
      as2 = i;
      VK_CHECK(cp == i && as2 == i && !(cp != i), "equality", "copies");
    }
    VK_EQ(i.isValid(), a >= 0 && b >= 0, "valid", "index");
    VK_EQ(s.isValid(), c >= 0 && d >= 0, "valid", "size");
    if (s.isValid())
      VK_EQ(s.isEmpty(), c == 0 || d == 0, "empty", "");
    if (fits<SizeType>(I128(c) * d))
      VK_EQ(s.linear_size(), static_cast<SizeType>(I128(c) * d), "linear-size", "");
    Ix i2(c, d);
    Sz s2(a, b);
    VK_EQ(i == i2, a == c && b == d, "equality", "index ==");
    VK_EQ(i != i2, !(a == c && b == d), "equality", "index !=");
    VK_EQ(s == s2, a == c && b == d, "equality", "size ==");
    VK_EQ(s != s2, !(a == c && b == d), "equality", "size !=");
    {
      Ix t = common::transposed(i);
      VK_CHECK(t.row() == b && t.col() == a, "transpose", "transposed index");
      Ix u = i;
      u.transpose();
      VK_CHECK(u == t, "transpose", "in place");
      Sz v = common::transposed(s);
      VK_CHECK(v.rows() == d && v.cols() == c, "transpose", "transposed size");
      VK_CHECK(i.row() == a && i.col() == b, "transpose", "argument modified");
    }
    // printing
    {
      std::ostringstream o;
      o << i << s;
      VK_EQ(o.str(),
            cat("(", (long) a, ", ", (long) b, ")", "(", (long) c, ", ", (long) d, ")"), "print", "");
    }
    bool valid = c >= 0 && d >= 0;
    VK_EQ(i.isIn(s), valid && a >= 0 && b >= 0 && a < c && b < d, "isIn", "");
    VK_EQ(i.isInOrOn(s), valid && a >= 0 && b >= 0 && a <= c && b <= d, "isInOrOn", "");
    {
      Ix z = common::indexFromOrigin(s);
      Sz y = common::sizeFromOrigin(i);
      VK_CHECK(z.row() == c && z.col() == d && y.rows() == a && y.cols() == b, "from-origin", "");
    }
    // arithmetic where representable
    if (fits<T>(I128(a) + c) && fits<T>(I128(b) + d)) {
      Ix q = i + s;
      VK_CHECK(I128(q.row()) == I128(a) + c && I128(q.col()) == I128(b) + d, "add", "index+size ", q);
      Sz p = s2 + s;
      VK_CHECK(I128(p.rows()) == I128(a) + c && I128(p.cols()) == I128(b) + d, "add", "size+size ", p);
      vk::count("sums representable");
    }
    if (fits<T>(I128(a) - c) && fits<T>(I128(b) - d)) {
      Ix q = i - s;
      VK_CHECK(I128(q.row()) == I128(a) - c && I128(q.col()) == I128(b) - d, "sub", "index-size ", q);
      Sz p = i - i2;
      VK_CHECK(I128(p.rows()) == I128(a) - c && I128(p.cols()) == I128(b) - d, "sub", "index-index ", p);
      Sz w = s2 - s;
      VK_CHECK(I128(w.rows()) == I128(a) - c && I128(w.cols()) == I128(b) - d, "sub", "size-size ", w);
      vk::count("differences representable");
    }
    // sub-grid containment; origin, extent valid
    {
      T o1 = gen<T>(r), o2 = gen<T>(r), e1 = gen<T>(r), e2 = gen<T>(r);
      if (o1 >= 0 && o2 >= 0 && e1 >= 0 && e2 >= 0 && fits<T>(I128(o1) + e1) && fits<T>(I128(o2) + e2)) {
        T x = r.chance(1, 2) ? a : static_cast<T>(o1 + (e1 ? r.range(-1, e1) : 0));
        T y = r.chance(1, 2) ? b : static_cast<T>(o2 + (e2 ? r.range(-1, e2) : 0));
        bool in = x >= o1 && y >= o2 && I128(x) < I128(o1) + e1 && I128(y) < I128(o2) + e2;
        VK_EQ((Ix(x, y).isInSub(Ix(o1, o2), Sz(e1, e2))), in, "isInSub", "(", (long) x, ",", (long) y, ") in (",
              (long) o1, ",", (long) o2, ")+(", (long) e1, ",", (long) e2, ")");
        vk::count(in ? "sub-grid members" : "sub-grid non-members");
      }
      // the origin may be an invalid index: what counts are the valid positions of the rectangle
      const T n1 = static_cast<T>(-r.range(0, 6)), n2 = static_cast<T>(-r.range(0, 6));
      const T f1 = static_cast<T>(r.range(0, 12)), f2 = static_cast<T>(r.range(0, 12));
      for (int s = 0; s < 6; ++s) {
        const T x = static_cast<T>(r.range(-3, 8)), y = static_cast<T>(r.range(-3, 8));
        const bool in = x >= 0 && y >= 0 && x >= n1 && y >= n2 && x < n1 + f1 && y < n2 + f2;
        VK_EQ((Ix(x, y).isInSub(Ix(n1, n2), Sz(f1, f2))), in, "isInSub", "(", (long) x, ",", (long) y, ") in (", (long) n1, ",", (long) n2,
              ")+(", (long) f1, ",", (long) f2, ")");
        vk::count("sub-grids with an origin outside");
      }
    }
  }
}

using common::Ordering;

// exact check of one grid cell
template <class L, class T, class Tag>
void linear_one(const common::Index2D<T, Tag>& ix, const common::Size2D<T, Tag>& dims) {
  I128 rm = I128(ix.row()) * dims.cols() + ix.col();
  I128 cm = I128(ix.col()) * dims.rows() + ix.row();
  if (fits<L>(rm)) {
    VK_EQ((common::computeLinearIndexRowMajor<L>(ix, dims)), static_cast<L>(rm), "linear", "row-major ", tname<L>());
    VK_EQ((common::computeLinearIndex<L>(Ordering::RowMajor, ix, dims)), static_cast<L>(rm), "linear",
          "dispatch row-major ", tname<L>());
  }
  if (fits<L>(cm)) {
    VK_EQ((common::computeLinearIndexColMajor<L>(ix, dims)), static_cast<L>(cm), "linear", "col-major ", tname<L>());
    VK_EQ((common::computeLinearIndex<L>(Ordering::ColumnMajor, ix, dims)), static_cast<L>(cm), "linear",
          "dispatch col-major ", tname<L>());
  }
  vk::count("cells checked");
}

template <class T, class Tag>
void coords_one(const common::Index2D<T, Tag>& ix, const common::Size2D<T, Tag>& dims) {
  SizeType rm = SizeType(I128(ix.row()) * dims.cols() + ix.col());
  SizeType cm = SizeType(I128(ix.col()) * dims.rows() + ix.row());
  VK_CHECK(common::computeCoordsRowMajor(rm, dims) == ix, "coords", "row-major ", rm);
  VK_CHECK(common::computeCoordsColMajor(cm, dims) == ix, "coords", "col-major ", cm);
  VK_CHECK(common::computeCoords(Ordering::RowMajor, rm, dims) == ix, "coords", "dispatch row-major ", rm);
  VK_CHECK(common::computeCoords(Ordering::ColumnMajor, cm, dims) == ix, "coords", "dispatch col-major ", cm);
}

template <class T>
void linear(vk::Rng& r, int nsmall, int nbig) {
  using Ix = common::Index2D<T, MyTag>;
  using Sz = common::Size2D<T, MyTag>;
  // exhaustive over small grids
  for (int m = 1; m <= nsmall; ++m)
    for (int n = 1; n <= nsmall; ++n) {
      vk::case_begin(cat("grid ", tname<T>(), " ", m, "x", n, " all cells"));
      vk::nontrivial_current();
      Sz dims(static_cast<T>(m), static_cast<T>(n));
      for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) {
          Ix ix(static_cast<T>(i), static_cast<T>(j));
          linear_one<SizeType>(ix, dims);
          linear_one<signed char>(ix, dims);
          linear_one<unsigned char>(ix, dims);
          linear_one<std::size_t>(ix, dims);
          coords_one(ix, dims);
        }
    }
  for (int k = 0; k < nbig; ++k) {
    T m, n;
    do {
      m = static_cast<T>(r.chance(1, 2) ? r.range(1, std::numeric_limits<T>::max())
                                        : std::numeric_limits<T>::max() - r.range(0, 2));
      n = static_cast<T>(r.chance(1, 2) ? r.range(1, std::numeric_limits<T>::max()) : r.range(1, 100));
      if (r.chance(1, 2))
        std::swap(m, n);
    } while (!fits<SizeType>(I128(m) * n));
    T i = r.chance(1, 3) ? static_cast<T>(m - 1) : static_cast<T>(r.range(0, m - 1));
    T j = r.chance(1, 3) ? static_cast<T>(n - 1) : static_cast<T>(r.range(0, n - 1));
    vk::case_begin(cat("grid ", tname<T>(), " ", (long) m, "x", (long) n, " cell ", (long) i, ",", (long) j));
    vk::nontrivial_current();
    Ix ix(i, j);
    Sz dims(m, n);
    linear_one<SizeType>(ix, dims);
    linear_one<std::size_t>(ix, dims);
    linear_one<int>(ix, dims);
    linear_one<unsigned>(ix, dims);
    linear_one<short>(ix, dims);
    linear_one<unsigned short>(ix, dims);
    linear_one<signed char>(ix, dims);
    linear_one<unsigned char>(ix, dims);
    coords_one(ix, dims);
  }
}

#define MUST_TERMINATE(expr, what)                                                              \
  do {                                                                                          \
    vk::case_begin(cat("must terminate: ", what));                                              \
    vk::nontrivial_current();                                                                   \
    auto o = vk::run_forked([&]() {                                                             \
      volatile auto keep = (expr);                                                              \
      (void) keep;                                                                              \
    });                                                                                         \
    VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", what, " : ", vk::outcome_name(o));      \
  } while (0)

template <class L, class T>
void refuse_narrow(vk::Rng& r, int n) {
  using Ix = common::Index2D<T, MyTag>;
  using Sz = common::Size2D<T, MyTag>;
  const I128 lim = std::numeric_limits<L>::max();
  int done = 0;
  for (int tries = 0; tries < 1000 && done < n; ++tries) {
    // a cell whose linear index is just above or far above the limit of L
    T m = static_cast<T>(r.range(1, std::numeric_limits<T>::max()));
    T nn = static_cast<T>(r.range(1, std::numeric_limits<T>::max()));
    if (r.chance(1, 2)) {
      m = static_cast<T>(std::min<I128>(std::numeric_limits<T>::max(), lim + 2));
      nn = static_cast<T>(r.range(1, 3));
    }
    if (!fits<SizeType>(I128(m) * nn))
      continue;
    T i = static_cast<T>(r.chance(1, 2) ? m - 1 : r.range(0, m - 1)), j = static_cast<T>(r.range(0, nn - 1));
    Ix ix(i, j);
    Sz dims(m, nn);
    I128 rm = I128(i) * nn + j, cm = I128(j) * m + i;
    if (rm > lim) {
      MUST_TERMINATE((common::computeLinearIndexRowMajor<L>(ix, dims)),
                     cat("row-major index ", (long) rm, " as ", tname<L>()));
      ++done;
    }
    if (cm > lim) {
      MUST_TERMINATE((common::computeLinearIndex<L>(Ordering::ColumnMajor, ix, dims)),
                     cat("col-major index ", (long) cm, " as ", tname<L>()));
      ++done;
    }
  }
  vk::count("narrow results probed", done);
}

int main() {
  auto r = vk::rng("c01");
  int n = vk::scale(2500, 60000);
  algebra<signed char, MyTag>(r, n, "my");
  algebra<short, MyTag>(r, n, "my");
  algebra<int, MyTag>(r, n, "my");
  algebra<long, MyTag>(r, n, "my");
  algebra<int, comm::TAG_MPI>(r, n, "mpi");
  algebra<SizeType, matrix::GlobalElement_TAG>(r, n, "GlobalElement");
  algebra<SizeType, matrix::LocalTile_TAG>(r, n, "LocalTile");
  algebra<SizeType, matrix::TileElement_TAG>(r, n, "TileElement");
  linear<signed char>(r, 11, n / 2);
  linear<short>(r, 13, n / 2);
  linear<int>(r, 13, n / 2);
  linear<long>(r, 13, n / 2);

  // fail-stop side
  int p = vk::scale(6, 60);
  refuse_narrow<signed char, short>(r, p);
  refuse_narrow<unsigned char, int>(r, p);
  refuse_narrow<short, int>(r, p);
  refuse_narrow<unsigned short, long>(r, p);
  refuse_narrow<int, long>(r, p);
  refuse_narrow<int, int>(r, p);
  refuse_narrow<unsigned, long>(r, p);
  using Ix = common::Index2D<int, MyTag>;
  using Sz = common::Size2D<int, MyTag>;
  for (int k = 0; k < p * 3; ++k) {
    int m = r.irange(1, 9), q = r.irange(1, 9);
    Sz d(m, q);
    int which = r.irange(0, 7);
    int over = r.chance(1, 2) ? 0 : r.irange(1, 5);
    Ix bad = which % 4 == 0   ? Ix(m + over, r.irange(0, q - 1))
             : which % 4 == 1 ? Ix(r.irange(0, m - 1), q + over)
             : which % 4 == 2 ? Ix(-1 - over, r.irange(0, q - 1))
                              : Ix(r.irange(0, m - 1), -1 - over);
    auto w = cat("position ", bad, " in grid ", d);
    if (r.chance(1, 2))
      MUST_TERMINATE((common::computeLinearIndexRowMajor<SizeType>(bad, d)), cat("row-major ", w));
    else
      MUST_TERMINATE((common::computeLinearIndexColMajor<SizeType>(bad, d)), cat("col-major ", w));
    SizeType badlin = r.chance(1, 2) ? SizeType(m) * q + over : -1 - over;
    if (r.chance(1, 2))
      MUST_TERMINATE((common::computeCoordsRowMajor(badlin, d).row()), cat("row-major linear index ", badlin, " in ", d));
    else
      MUST_TERMINATE((common::computeCoords(Ordering::ColumnMajor, badlin, d).row()),
                     cat("col-major linear index ", badlin, " in ", d));
  }
  MUST_TERMINATE((Sz(-1, 3).isEmpty()), "isEmpty of invalid size (-1,3)");
  MUST_TERMINATE((Sz(0, -3).isEmpty()), "isEmpty of invalid size (0,-3)");

  vk::case_begin("coordinate enumerations");
  VK_CHECK(orthogonal(Coord::Row) == Coord::Col && orthogonal(Coord::Col) == Coord::Row, "orthogonal", "");
  VK_CHECK(std::string(coord2str(Coord::Row)) == "ROW" && std::string(coord2str(Coord::Col)) == "COL", "coord2str", "");
  VK_CHECK(comm::coord_to_communicator_type(Coord::Row) == comm::CommunicatorType::Row &&
               comm::coord_to_communicator_type(Coord::Col) == comm::CommunicatorType::Col,
           "communicator-type", "");
  return vk::finish();
}
