// C20: copies of tiles, sub-matrices and whole matrices, and redistribution between distributions, bit for bit.
#include <alg.hpp>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/copy_tile.h>
#include <dlaf/matrix/matrix_mirror.h>
using namespace alg;
using dlaf::matrix::MatrixMirror;
using dlaf::matrix::internal::MatrixRef;
using dlaf::matrix::internal::SubMatrixSpec;

// values whose every bit counts: any bit pattern, NaN and zero of either sign included (moved as data, never computed)
template <class T>
Ref<T> bits_ref(Rng& r, SizeType m, SizeType n, bool wild) {
  Ref<T> a = random_ref<T>(r, m, n);
  if (wild)
    for (auto& x : a.v)
      for (std::size_t k = 0; k < sizeof(T); k += 4) {
        const std::uint32_t w = std::uint32_t(r.u64());
        std::memcpy(reinterpret_cast<unsigned char*>(&x) + k, &w, 4);
      }
  return a;
}

// overwrites every local element, ordered after everything submitted before
template <class T>
void overwrite_later(Mat<T>& a, Ref<T>& now, T value) {
  a.each_local([&](LocalTileIndex l, GlobalElementIndex o, TileElementSize s) {
    for (SizeType j = 0; j < s.cols(); ++j)
      for (SizeType i = 0; i < s.rows(); ++i)
        now(o.row() + i, o.col() + j) = value;
    ex::start_detached((*a).readwrite(l) | ex::then([value](const matrix::Tile<T, Device::CPU>& t) {
                         for (SizeType j = 0; j < t.size().cols(); ++j)
                           for (SizeType i = 0; i < t.size().rows(); ++i)
                             t({i, j}) = value;
                       }));
  });
}

template <class T>
void local_case(Group& g, Rng& r, Rng& pr, const std::string& sched) {
  const Bulk bulk = random_bulk(r);
  const SizeType mb = tile_of(r, bulk, 1, 5), nb = tile_of(r, bulk, 1, 5);
  const int kr = r.chance(1, 3) ? r.irange(1, 3) : 1, kc = r.chance(1, 3) ? r.irange(1, 3) : 1;
  const bool same_shape = r.chance(1, 2);
  auto extent = [&](SizeType b) { return size_of(r, bulk, b, 22, 22); };
  const SizeType m = extent(mb), n = extent(nb);
  const SizeType m2 = same_shape ? m : extent(mb), n2 = same_shape ? n : extent(nb);
  const auto s1 = random_source(r, g), s2 = same_shape && r.chance(1, 2) ? s1 : random_source(r, g);
  const AllocKind k1 = random_alloc(r), k2 = random_alloc(r);
  const bool wild = r.chance(1, 2);
  const bool self = r.chance(1, 5);
  Ref<T> in = bits_ref<T>(r, m, n, wild), out = bits_ref<T>(r, m2, n2, wild);
  Mat<T> a(g, make_dist_blocks(g, m, n, mb, nb, kr, kc, s1), k1, in);
  Mat<T> b(g, make_dist_blocks(g, m2, n2, mb, nb, kr, kc, s2), k2, out);
  Mat<T>& dst = self ? a : b;
  Ref<T>& want = self ? in : out;
  const auto na = a.dist.local_nr_tiles(), nd = dst.dist.local_nr_tiles();

  // the region, chosen by each process for itself
  auto pick = [&](SizeType x, SizeType y) {  // begin source, begin dest, count
    const SizeType c = pr.range(0, std::min(x, y));
    return std::array<SizeType, 3>{pr.range(0, x - c), pr.range(0, y - c), c};
  };
  auto rr = pick(na.rows(), nd.rows()), cc = pick(na.cols(), nd.cols());
  int form = pr.irange(0, 2);
  const bool whole = !self && na == nd;
  if (form == 2 && !whole)
    form = 0;
  if (form == 2)
    rr = {0, 0, na.rows()}, cc = {0, 0, na.cols()};
  if (form == 1) {
    rr[1] = rr[0] = std::min(rr[0], rr[1]);
    cc[1] = cc[0] = std::min(cc[0], cc[1]);
  }
  if (self && form == 0 && rr[2] > 0 && cc[2] > 0) {
    // overlapping regions of one matrix are excluded, equal ones are not
    const bool overlap = std::abs(rr[0] - rr[1]) < rr[2] && std::abs(cc[0] - cc[1]) < cc[2];
    if (overlap)
      rr[1] = rr[0], cc[1] = cc[0];
  }
  // every pair of tiles has to be of one size: keep the leading part where it is so
  auto row_ext = [&](const Distribution& q, SizeType l) { return std::min(mb, q.size().rows() - mb * q.template global_tile_from_local_tile<Coord::Row>(l)); };
  auto col_ext = [&](const Distribution& q, SizeType l) { return std::min(nb, q.size().cols() - nb * q.template global_tile_from_local_tile<Coord::Col>(l)); };
  for (SizeType i = 0; i < rr[2]; ++i)
    if (row_ext(a.dist, rr[0] + i) != row_ext(dst.dist, rr[1] + i))
      rr[2] = i, form = form == 2 ? 1 : form;
  for (SizeType i = 0; i < cc[2]; ++i)
    if (col_ext(a.dist, cc[0] + i) != col_ext(dst.dist, cc[1] + i))
      cc[2] = i, form = form == 2 ? 1 : form;
  const std::string d = cat(name_of<T>::v, " ", m, "/", mb, "*", kr, "x", n, "/", nb, "*", kc, " to ", m2, "x", n2, " grid=", g.desc(), src_desc(s1), src_desc(s2),
                            self ? " within" : "", " form ", form, " rows ", rr[0], ">", rr[1], "+", rr[2], " cols ", cc[0], ">", cc[1], "+", cc[2]);
  vk::case_begin(cat("local copy ", d, " ", k1.desc(), "/", k2.desc(), sched));
  // what it has to give
  Ref<T> before = in;
  std::uint64_t moved = 0;
  for (SizeType j = 0; j < cc[2]; ++j)
    for (SizeType i = 0; i < rr[2]; ++i) {
      const GlobalTileIndex ts = a.dist.global_tile_index(LocalTileIndex(rr[0] + i, cc[0] + j));
      const GlobalTileIndex td = dst.dist.global_tile_index(LocalTileIndex(rr[1] + i, cc[1] + j));
      const auto os = a.dist.global_element_index(ts, {0, 0}), od = dst.dist.global_element_index(td, {0, 0});
      const auto sz = a.dist.tile_size_of(ts);
      for (SizeType y = 0; y < sz.cols(); ++y)
        for (SizeType x = 0; x < sz.rows(); ++x, ++moved)
          want(od.row() + x, od.col() + y) = before(os.row() + x, os.col() + y);
    }
  matrix::Matrix<const T, Device::CPU>& source = *a;
  if (form == 2)
    matrix::copy(source, *dst);
  else if (form == 1)
    matrix::copy(LocalTileIndex(rr[0], cc[0]), LocalTileSize(rr[2], cc[2]), source, *dst);
  else
    matrix::copy(LocalTileSize(rr[2], cc[2]), LocalTileIndex(rr[0], cc[0]), source, LocalTileIndex(rr[1], cc[1]), *dst);
  if (!self && r.chance(1, 2))
    overwrite_later(a, in, T(7));
  dst.check_unchanged(want, "destination");
  a.check_unchanged(in, "source");
  b.check_unchanged(out, "destination");
  vk::count("elements copied locally", moved);
  if (moved)
    vk::nontrivial(d);
}

template <class T>
void ref_case(Group& g, Rng& r, Rng&, const std::string& sched) {
  const SizeType mb = r.irange(1, 5), nb = r.irange(1, 5);
  const int kr = r.chance(1, 3) ? r.irange(1, 3) : 1, kc = r.chance(1, 3) ? r.irange(1, 3) : 1;
  const SizeType m = r.irange(0, 24), n = r.irange(0, 24), m2 = r.irange(0, 24), n2 = r.irange(0, 24);
  const auto s1 = random_source(r, g);
  comm::Index2D s2 = random_source(r, g);
  const SizeType BM = mb * kr, BN = nb * kc;
  const bool wild = r.chance(1, 2);
  // origin and size of the two regions, one coordinate at a time: same size; the second origin must agree with the first
  // on the position in the block and, when there are several processes, on the process
  struct C {
    SizeType o1, o2, sz;
  };
  auto coord = [&](SizeType e1, SizeType e2, SizeType blk, int P, int src1, int& src2) {
    C c;
    c.sz = r.irange(0, int(std::min(e1, e2)));
    c.o1 = r.range(0, e1 - c.sz);
    c.o2 = r.range(0, e2 - c.sz);
    // move it to the closest admissible origin
    SizeType o = c.o2 - c.o2 % blk + c.o1 % blk;
    if (o + c.sz > e2)
      o -= blk;
    if (o < 0) {
      c.sz = std::max<SizeType>(0, std::min(c.sz, e2 - c.o1 % blk));
      o = c.o1 % blk;
      if (o > e2)
        o = c.o1 = c.sz = 0;
    }
    c.o2 = o;
    const int rank1 = int((c.o1 / blk + src1) % P);
    src2 = int(((rank1 - c.o2 / blk) % P + P) % P);
    return c;
  };
  int r2 = s2.row(), c2 = s2.col();
  const C R = coord(m, m2, BM, g.rows, s1.row(), r2), K = coord(n, n2, BN, g.cols, s1.col(), c2);
  s2 = {r2, c2};
  const AllocKind k1 = random_alloc(r), k2 = random_alloc(r);
  const bool full = R.o2 == 0 && K.o2 == 0 && R.sz == m2 && K.sz == n2 && r.chance(2, 3);
  Ref<T> in = bits_ref<T>(r, m, n, wild), out = bits_ref<T>(r, m2, n2, wild);
  Mat<T> a(g, make_dist_blocks(g, m, n, mb, nb, kr, kc, s1), k1, in);
  Mat<T> b(g, make_dist_blocks(g, m2, n2, mb, nb, kr, kc, s2), k2, out);
  const std::string d = cat(name_of<T>::v, " ", m, "/", mb, "*", kr, "x", n, "/", nb, "*", kc, " to ", m2, "x", n2, " grid=", g.desc(), src_desc(s1), " rows ", R.o1, ">",
                            R.o2, "+", R.sz, " cols ", K.o1, ">", K.o2, "+", K.sz, full ? " full" : "");
  vk::case_begin(cat("reference copy ", d, " ", k1.desc(), "/", k2.desc(), sched));
  for (SizeType j = 0; j < K.sz; ++j)
    for (SizeType i = 0; i < R.sz; ++i)
      out(R.o2 + i, K.o2 + j) = in(R.o1 + i, K.o1 + j);
  {
    MatrixRef<const T, Device::CPU> sref(*a, SubMatrixSpec{{R.o1, K.o1}, {R.sz, K.sz}});
    if (full)
      matrix::internal::copy(sref, *b);
    else {
      MatrixRef<T, Device::CPU> dref(*b, SubMatrixSpec{{R.o2, K.o2}, {R.sz, K.sz}});
      matrix::internal::copy(sref, dref);
    }
  }
  if (r.chance(1, 2))
    overwrite_later(a, in, T(7));
  b.check_unchanged(out, "destination");
  a.check_unchanged(in, "source");
  if (R.sz && K.sz)
    vk::nontrivial(d), vk::count("elements copied through references", std::uint64_t(R.sz * K.sz));
}

template <class T>
void redist_case(Group& g, Rng& r, Rng&, const std::string& sched) {
  const Bulk bulk = random_bulk(r);
  const SizeType mb = tile_of(r, bulk, 1, 4), nb = tile_of(r, bulk, 1, 4);
  const SizeType m = size_of(r, bulk, mb, 26, 26), n = size_of(r, bulk, nb, 26, 26);
  struct Lay {
    SizeType mb, nb;
    comm::Index2D src;
    AllocKind k;
  };
  // tile sizes: in each coordinate one of two is a multiple of the other
  auto lay = [&](bool rows_big, bool cols_big, int fr, int fc) {
    Lay l;
    l.mb = mb * (rows_big ? fr : 1);
    l.nb = nb * (cols_big ? fc : 1);
    l.src = random_source(r, g);
    l.k = random_alloc(r);
    return l;
  };
  const int fr = r.irange(1, 4), fc = r.irange(1, 4);
  const int steps = r.irange(1, 3);
  std::vector<Lay> ls;
  for (int k = 0; k <= steps; ++k)
    ls.push_back(lay(r.chance(1, 2), r.chance(1, 2), fr, fc));
  const bool wild = r.chance(1, 2);
  std::vector<Ref<T>> refs;
  std::vector<std::unique_ptr<Mat<T>>> mats;
  std::string d = cat(name_of<T>::v, " ", m, "x", n, " grid=", g.desc());
  for (auto& l : ls) {
    refs.push_back(bits_ref<T>(r, m, n, wild));
    mats.push_back(std::make_unique<Mat<T>>(g, make_dist(g, m, n, l.mb, l.nb, l.src), l.k, refs.back()));
    d += cat(" > ", l.mb, "x", l.nb, src_desc(l.src));
  }
  std::string al;
  for (auto& l : ls)
    al += l.k.desc() + " ";
  const bool later = r.chance(1, 2);
  vk::case_begin(cat("redistribution ", d, " ", al, later ? "overwritten later" : "", sched));
  for (int k = 0; k < steps; ++k) {
    matrix::Matrix<const T, Device::CPU>& source = **mats[std::size_t(k)];
    matrix::copy(source, **mats[std::size_t(k) + 1], *g.grid);
    refs[std::size_t(k) + 1] = refs[std::size_t(k)];
    if (later)
      overwrite_later(*mats[std::size_t(k)], refs[std::size_t(k)], T(Real<T>(k)));
  }
  // the value that went down the chain
  for (int k = steps; k >= 0; --k)
    mats[std::size_t(k)]->check_unchanged(refs[std::size_t(k)], k == 0 ? "source" : "destination");
  vk::count("redistributions", std::uint64_t(steps));
  if (m > 0 && n > 0)
    vk::nontrivial(d);
}

template <class T>
void tile_case(Group& g, Rng& r, Rng&, const std::string& sched) {
  const SizeType m = r.irange(0, 9), n = r.irange(0, 9);
  auto mk = [&](AllocKind k, const Ref<T>& x) {
    return std::make_unique<Mat<T>>(g, Distribution(GlobalElementSize(m, n), TileElementSize(std::max<SizeType>(1, m), std::max<SizeType>(1, n)), {1, 1}, {0, 0}, {0, 0}), k, x);
  };
  Ref<T> x = bits_ref<T>(r, m, n, true), y = bits_ref<T>(r, m, n, true);
  const AllocKind k1 = random_alloc(r), k2 = random_alloc(r);
  const int form = r.irange(0, 4);
  vk::case_begin(cat("tile copy ", name_of<T>::v, " ", m, "x", n, " form ", form, " ", k1.desc(), "/", k2.desc(), sched));
  if (m == 0 || n == 0)
    return;
  auto a = mk(k1, x), b = mk(k2, y);
  const LocalTileIndex o(0, 0);
  dlaf::internal::Policy<Backend::MC> pol;
  if (form == 0)
    tt::sync_wait(ex::when_all((**a).read(o), (**b).readwrite(o)) | matrix::copy(pol));
  else if (form == 1)
    tt::sync_wait(matrix::copy(pol, ex::when_all((**a).read(o), (**b).readwrite(o))));
  else if (form == 2) {
    auto s = tt::sync_wait((**a).read(o));
    auto t = tt::sync_wait((**b).readwrite(o));
    matrix::internal::copy(s.get(), t);
  }
  else {
    auto s = tt::sync_wait((**a).read(o));
    matrix::Tile<T, Device::CPU> t = form == 3 ? matrix::Duplicate<Device::CPU>{}(s.get()) : matrix::DuplicateNoCopy<Device::CPU>{}(s.get());
    VK_CHECK(t.size() == s.get().size(), "duplicate-size", "size ", t.size());
    VK_CHECK(t.ld() == m, "duplicate-ld", "leading dimension ", t.ld(), ", expected ", m);
    const T *p = t.ptr(), *q = s.get().ptr();
    VK_CHECK(p + m * n <= q || q + s.get().ld() * (n - 1) + m <= p, "duplicate-aliases", "the duplicate shares memory with the original");
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i) {
        if (form == 3)
          VK_CHECK(same_bits(t({i, j}), x(i, j)), "duplicate-value", "element ", i, ",", j);
        t({i, j}) = T(3);  // own memory
      }
    y = y;
  }
  if (form < 3)
    y = x;
  b->check_unchanged(y, "tile destination");
  a->check_unchanged(x, "tile source");
  vk::count("tiles copied");
}

// element types LAPACK knows nothing about
template <class T>
void other_type_case(Group& g, Rng& r, const std::string& sched) {
  const SizeType m = r.irange(1, 12), n = r.irange(1, 12), mb = r.irange(1, 5), nb = r.irange(1, 5);
  const Distribution d(GlobalElementSize(m, n), TileElementSize(mb, nb), {1, 1}, {0, 0}, {0, 0});
  const AllocKind k1 = random_alloc(r), k2 = random_alloc(r);
  vk::case_begin(cat("copy of ", sizeof(T), " byte integers ", m, "/", mb, "x", n, "/", nb, " ", k1.desc(), "/", k2.desc(), sched));
  Ref<T> x(m, n), y(m, n);
  for (auto& v : x.v)
    v = T(r.u64());
  for (auto& v : y.v)
    v = T(r.u64());
  Mat<T> a(g, d, k1, x), b(g, d, k2, y);
  matrix::Matrix<const T, Device::CPU>& source = *a;
  matrix::copy(source, *b);
  b.check_unchanged(x, "destination");
  a.check_unchanged(x, "source");
  vk::count("integer matrices copied");
}

template <class T>
void mirror_case(Group& g, Rng& r, const std::string& sched) {
  const SizeType mb = r.irange(1, 5), nb = r.irange(1, 5), m = random_size(r, mb, 16), n = random_size(r, nb, 16);
  const auto src = random_source(r, g);
  const AllocKind k = random_alloc(r);
  vk::case_begin(cat("mirror ", name_of<T>::v, " ", m, "/", mb, "x", n, "/", nb, " grid=", g.desc(), src_desc(src), " ", k.desc(), sched));
  Ref<T> x = bits_ref<T>(r, m, n, true);
  Mat<T> a(g, make_dist(g, m, n, mb, nb, src), k, x);
  {
    MatrixMirror<const T, Device::CPU, Device::CPU> c(*a);
    matrix::Matrix<const T, Device::CPU>& base = *a;
    VK_CHECK(&c.get() == &base && &c.getSource() == &c.get(), "mirror", "the mirror on the same device is a different matrix");
    MatrixMirror<T, Device::CPU, Device::CPU> w(*a);
    VK_CHECK(&w.get() == &*a && &w.getSource() == &*a, "mirror", "the mirror on the same device is a different matrix");
    const T v(5);
    a.each_local([&](LocalTileIndex l, GlobalElementIndex o, TileElementSize s) {
      if (!r.chance(1, 2))
        return;
      for (SizeType j = 0; j < s.cols(); ++j)
        for (SizeType i = 0; i < s.rows(); ++i)
          x(o.row() + i, o.col() + j) = v;
      ex::start_detached(w.get().readwrite(l) | ex::then([v](const matrix::Tile<T, Device::CPU>& t) {
                           for (SizeType j = 0; j < t.size().cols(); ++j)
                             for (SizeType i = 0; i < t.size().rows(); ++i)
                               t({i, j}) = v;
                         }));
    });
    if (r.chance(1, 2))
      w.copyTargetToSource();
    if (r.chance(1, 2))
      w.copySourceToTarget();
  }
  a.check_unchanged(x, "mirrored");
  vk::count("mirrors");
}

int main(int argc, char** argv) {
  static_assert(sizeof(matrix::Tile<int, Device::CPU>) && sizeof(matrix::Tile<SizeType, Device::CPU>));
  Session s(argc, argv);
  s.cases("local", vk::scale(3000, 12000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto t) { local_case<typename decltype(t)::type>(g, r, pr, s.sched); });
  });
  s.cases("reference", vk::scale(3000, 12000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto t) { ref_case<typename decltype(t)::type>(g, r, pr, s.sched); });
  });
  s.cases("redistribution", vk::scale(5000, 20000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto t) { redist_case<typename decltype(t)::type>(g, r, pr, s.sched); });
  });
  s.cases("tile", vk::scale(100, 1000), [&](int k, Group& g, Rng& r, Rng& pr) {
    if (k % 4 == 3)
      return r.chance(1, 2) ? other_type_case<int>(g, r, s.sched) : other_type_case<SizeType>(g, r, s.sched);
    with_type(r, [&](auto t) {
      using T = typename decltype(t)::type;
      if (k % 4 == 2)
        mirror_case<T>(g, r, s.sched);
      else
        tile_case<T>(g, r, pr, s.sched);
    });
  });
  return s.finish();
}
