// C17: storage layouts. Where the elements of matrices lie under every allocation, over memory of the library and of the
// user, against blocks dealt one by one; refused leading dimensions; printed text read back.
#include <alg.hpp>
#include <map>
#include <set>
#include <sstream>

#include <dlaf/matrix/allocation_io.h>
#include <dlaf/matrix/check_allocation.h>
#include <dlaf/matrix/create_matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/print_csv.h>
#include <dlaf/matrix/print_numpy.h>
using namespace alg;
constexpr Device CPU = Device::CPU;
using matrix::LdDefault;
using matrix::AllocationLayoutDefault;

// what one process holds of one dimension: tiles in order, with their block and first local element
struct Held {
  struct T {
    SizeType global, first, local, size, block, in_block;
  };
  std::vector<T> t;
  std::vector<SizeType> blocks;  // their local sizes
  SizeType size = 0;
  Held(SizeType n, SizeType tile, SizeType per, SizeType grid, SizeType rank, SizeType src) {
    for (SizeType e = 0, g = 0; e < n; ++g) {
      const SizeType len = std::min(tile, n - e), b = g / per;
      if ((b + src) % grid == rank) {
        if (t.empty() || t.back().global / per != b)
          blocks.push_back(0);
        t.push_back({g, e, size, len, SizeType(blocks.size()) - 1, blocks.back()});
        blocks.back() += len;
        size += len;
      }
      e += len;
    }
  }
};
struct Geo {
  SizeType m, n, mb, nb, kr, kc;
  comm::Size2D grid;
  comm::Index2D rank, src;
  Held r, c;
  Distribution dist;
  Geo(SizeType m_, SizeType n_, SizeType mb_, SizeType nb_, SizeType kr_, SizeType kc_, comm::Size2D g, comm::Index2D rk, comm::Index2D s)
      : m(m_), n(n_), mb(mb_), nb(nb_), kr(kr_), kc(kc_), grid(g), rank(rk), src(s), r(m, mb, kr, g.rows(), rk.row(), s.row()),
        c(n, nb, kc, g.cols(), rk.col(), s.col()),
        dist(GlobalElementSize(m, n), GlobalElementSize(mb * kr, nb * kc), TileElementSize(mb, nb), g, rk, s) {}
  bool empty() const { return r.size == 0 || c.size == 0; }
  std::string desc() const {
    return cat(m, "/", mb, "x", kr, " ", n, "/", nb, "x", kc, " grid ", grid.rows(), "x", grid.cols(), " rank ", rank.row(), ",", rank.col(),
               src_desc(src));
  }
};
Geo random_geo(Rng& r, comm::Size2D g, comm::Index2D rk, bool one_tile) {
  const SizeType mb = r.irange(1, 7), nb = r.irange(1, 7), kr = one_tile || r.chance(1, 2) ? 1 : r.irange(1, 4), kc = one_tile || r.chance(1, 2) ? 1 : r.irange(1, 4);
  const SizeType m = random_size(r, mb * kr, 50), n = random_size(r, nb * kc, 50);
  return Geo(m, n, mb, nb, kr, kc, g, rk, {r.irange(0, g.rows() - 1), r.irange(0, g.cols() - 1)});
}

// ---------------------------------------------------------------- ColMajorLayout on its own
void layout_queries(Rng& r) {
  const comm::Size2D g(r.irange(1, 4), r.irange(1, 4));
  const Geo q = random_geo(r, g, {r.irange(0, g.rows() - 1), r.irange(0, g.cols() - 1)}, false);
  const SizeType ld = std::max<SizeType>(1, q.r.size) + (r.chance(1, 3) ? 0 : r.chance(1, 8) ? (SizeType(1) << r.irange(20, 55)) : r.irange(1, 9));
  vk::case_begin(cat("layout ", q.desc(), " ld ", ld));
  ColMajorLayout l(q.dist, ld);
  VK_CHECK(l.size() == LocalElementSize(q.r.size, q.c.size), "layout-size", l.size());
  VK_CHECK(l.nr_tiles() == LocalTileSize(SizeType(q.r.t.size()), SizeType(q.c.t.size())), "layout-tiles", l.nr_tiles());
  VK_CHECK(l.tile_size() == TileElementSize(q.mb, q.nb), "layout-tile-size", l.tile_size());
  VK_CHECK(l.distribution() == q.dist, "layout-distribution", "");
  VK_CHECK(l.allocation_layout() == AllocationLayout::ColMajor, "layout-kind", "");
  const SizeType need = q.empty() ? 0 : q.r.size + ld * (q.c.size - 1);
  VK_EQ(l.min_mem_size(), need, "layout-memory", "");
  SizeType last = 0;
  for (std::size_t j = 0; j < q.c.t.size(); ++j)
    for (std::size_t i = 0; i < q.r.t.size(); ++i) {
      const LocalTileIndex x{SizeType(i), SizeType(j)};
      const auto &a = q.r.t[i], &b = q.c.t[j];
      VK_EQ(l.tile_offset(x), a.local + ld * b.local, "layout-offset", "tile ", i, ",", j);
      VK_CHECK(l.tile_size_of(x) == TileElementSize(a.size, b.size), "layout-tile-size", l.tile_size_of(x));
      VK_EQ(l.ld_tile(x), ld, "layout-ld", "");
      VK_EQ(l.min_tile_mem_size(x), a.size + ld * (b.size - 1), "layout-tile-memory", "tile ", i, ",", j);
      last = std::max(last, l.tile_offset(x) + l.min_tile_mem_size(x));
      vk::count("tiles of layouts checked");
    }
  VK_EQ(last, need, "layout-memory", "end of the last tile");
  // equality
  const Geo q2 = r.chance(1, 2) ? q : random_geo(r, g, q.rank, false);
  const SizeType ld2 = std::max<SizeType>(1, q2.r.size) + (r.chance(1, 2) ? ld - std::max<SizeType>(1, q.r.size) : r.irange(0, 3));
  ColMajorLayout l2(q2.dist, ld2);
  const bool eq = q.dist == q2.dist && ld == ld2;
  VK_CHECK((l == l2) == eq && (l != l2) == !eq, "layout-equality", q2.desc(), " ld ", ld2);
  if (!q.empty())
    vk::nontrivial(cat("layout ", q.desc(), " ", ld));
}

// ---------------------------------------------------------------- specifications
void specifications(Rng& r) {
  const AllocationLayout all[] = {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles};
  const AllocationLayout def = all[r.irange(0, 2)], lay = all[r.irange(0, 2)];
  getTuneParameters().default_allocation_layout = def;
  const Ld ldk = r.chance(1, 2) ? Ld::Compact : Ld::Padded;
  const SizeType ldn = r.irange(1, 99);
  AllocationSpec s;
  bool dl = true, dd = true, num = false;
  const int how = r.irange(0, 8);
  switch (how) {
    case 0:
      break;
    case 1:
      s = AllocationSpec(lay);
      dl = false;
      break;
    case 2:
      s = AllocationSpec(ldk);
      dd = false;
      break;
    case 3:
      s = AllocationSpec(lay, ldk);
      dl = dd = false;
      break;
    case 4:
      s = AllocationSpec(lay, ldn);
      dl = dd = false;
      num = true;
      break;
    case 5:
      s = AllocationSpec(AllocationLayoutDefault{}, ldn);
      dd = false;
      num = true;
      break;
    case 6:
      s = AllocationSpec(lay, LdDefault{});
      dl = false;
      break;
    case 7:
      s = AllocationSpec(AllocationLayoutDefault{}, LdDefault{});
      break;
    case 8:
      s = AllocationSpec(LdDefault{});
      break;
  }
  if (r.chance(1, 3)) {
    const bool back = r.chance(1, 3);
    back ? s.set_layout(AllocationLayoutDefault{}) : s.set_layout(lay);
    dl = back;
  }
  if (r.chance(1, 3)) {
    const int w = r.irange(0, 2);
    w == 0 ? s.set_ld(LdDefault{}) : w == 1 ? s.set_ld(ldk) : s.set_ld(matrix::LdSpec(ldn));
    dd = w == 0;
    num = w == 2;
  }
  vk::case_begin(cat("specification ", how, " default ", def));
  const AllocationLayout wl = dl ? def : lay;
  VK_EQ(s.layout(), wl, "spec-layout", "");
  const auto g = s.ld();
  if (dd)
    VK_CHECK(std::holds_alternative<Ld>(g) && std::get<Ld>(g) == (wl == AllocationLayout::ColMajor ? Ld::Padded : Ld::Compact), "spec-ld", "default");
  else if (num)
    VK_CHECK(std::holds_alternative<SizeType>(g) && std::get<SizeType>(g) == ldn, "spec-ld", "explicit value");
  else
    VK_CHECK(std::holds_alternative<Ld>(g) && std::get<Ld>(g) == ldk, "spec-ld", "explicit kind");
  // names
  std::ostringstream o;
  o << lay;
  std::string n = o.str();
  for (auto& c : n)
    c = r.chance(1, 2) ? char(std::toupper(c)) : char(std::tolower(c));
  VK_EQ(matrix::allocation_layout_from(n), lay, "layout-name", n);
  vk::count("specifications checked");
}

// ---------------------------------------------------------------- allocations of the library
struct Host {
  static umpire::Allocator get() { return umpire::ResourceManager::getInstance().getAllocator("HOST"); }
};
template <class T>
struct Place {
  const T* p;
  SizeType ld;
  void* base;
  std::size_t bytes;
};
template <class T>
Place<T> place(Matrix<T, CPU>& m, LocalTileIndex l, TileElementSize want) {
  auto t = tt::sync_wait(m.read(l));
  Place<T> x{t.get().size().isEmpty() ? nullptr : t.get().ptr(), t.get().ld(), nullptr, 0};
  VK_CHECK(t.get().size() == want, "tile-size", "tile ", l, " is ", t.get().size(), " expected ", want);
  return x;
}
template <class T>
void fill(Matrix<T, CPU>& m, const Geo& q) {
  for (std::size_t j = 0; j < q.c.t.size(); ++j)
    for (std::size_t i = 0; i < q.r.t.size(); ++i) {
      auto t = tt::sync_wait(m.readwrite(LocalTileIndex{SizeType(i), SizeType(j)}));
      for (SizeType b = 0; b < q.c.t[j].size; ++b)
        for (SizeType a = 0; a < q.r.t[i].size; ++a)
          t({a, b}) = T(Real<T>((q.r.t[i].first + a) * 64 + q.c.t[j].first + b));
    }
}
template <class T>
void verify(Matrix<const T, CPU>& m, const Geo& q, const char* who) {
  for (std::size_t j = 0; j < q.c.t.size(); ++j)
    for (std::size_t i = 0; i < q.r.t.size(); ++i) {
      auto w = tt::sync_wait(m.read(LocalTileIndex{SizeType(i), SizeType(j)}));
      auto& t = w.get();
      for (SizeType b = 0; b < q.c.t[j].size; ++b)
        for (SizeType a = 0; a < q.r.t[i].size; ++a)
          if (t({a, b}) != T(Real<T>((q.r.t[i].first + a) * 64 + q.c.t[j].first + b)) || t.ptr({a, b}) != t.ptr() + a + t.ld() * b) {
            vk::violation("content", cat(who, ": element ", a, ",", b, " of tile ", i, ",", j, " is ", t({a, b})));
            return;
          }
      vk::count("tiles read back");
    }
}

template <class T>
void allocation(Rng& r, Group& grp) {
  const comm::CommunicatorGrid& cg = *grp.grid;
  const AllocationLayout all[] = {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles};
  // constructors: 0 distribution, 1 size, 2 local size, 3 list, 4 grid
  const int ctor = r.irange(0, 4) * (r.chance(1, 2) ? 1 : 0);
  const bool own_grid = ctor == 0 && r.chance(1, 2);
  const comm::Size2D gs = ctor == 4 ? cg.size() : own_grid ? comm::Size2D(r.irange(1, 4), r.irange(1, 4)) : comm::Size2D(1, 1);
  const comm::Index2D rk = ctor == 4 ? cg.rank() : comm::Index2D(r.irange(0, gs.rows() - 1), r.irange(0, gs.cols() - 1));
  Geo q = random_geo(r, gs, rk, ctor != 0);
  if (ctor != 0)
    q = Geo(q.m, q.n, q.mb, q.nb, 1, 1, gs, rk, {0, 0});
  const AllocationLayout lay = all[r.irange(0, 2)], def = all[r.irange(0, 2)];
  getTuneParameters().default_allocation_layout = def;
  const bool dl = r.chance(1, 4);
  const AllocationLayout want = dl ? def : lay;
  const int ldk = r.irange(0, 3);  // compact, padded, value, default
  const SizeType pieces = want == AllocationLayout::ColMajor ? std::max<SizeType>(1, q.r.size) : want == AllocationLayout::Blocks ? q.mb * q.kr : q.mb;
  const SizeType ldv = pieces + r.irange(0, 5);
  AllocationSpec spec;
  if (!dl)
    spec.set_layout(lay);
  if (ldk < 2)
    spec.set_ld(ldk == 0 ? Ld::Compact : Ld::Padded);
  else if (ldk == 2)
    spec.set_ld(matrix::LdSpec(ldv));
  static const char* cn[] = {"distribution", "size", "local size", "list", "grid"};
  static const char* ln[] = {"compact", "padded", "value", "default"};
  vk::case_begin(cat("allocation ", name_of<T>::v, " ", cn[ctor], " ", q.desc(), " ", want, dl ? " by default" : "", " ld ", ln[ldk], " ", ldk == 2 ? ldv : 0));
  const auto live = Host::get().vk().live();
  {
    auto make = [&]() -> Matrix<T, CPU> {
      const TileElementSize ts(q.mb, q.nb);
      switch (ctor) {
        case 1:
          return Matrix<T, CPU>(GlobalElementSize(q.m, q.n), ts, spec);
        case 2:
          return Matrix<T, CPU>(LocalElementSize(q.m, q.n), ts, spec);
        case 3:
          return Matrix<T, CPU>({q.m, q.n}, ts, spec);
        case 4:
          return Matrix<T, CPU>(GlobalElementSize(q.m, q.n), ts, cg, spec);
        default:
          return Matrix<T, CPU>(q.dist, spec);
      }
    };
    Matrix<T, CPU> m = make();
    VK_CHECK(m.distribution() == q.dist, "distribution", m.distribution().size());
    VK_EQ(m.allocation_layout(), want, "allocation-layout", "");
    std::map<void*, std::vector<bool>> used;
    std::map<std::pair<SizeType, SizeType>, std::pair<const T*, SizeType>> blocks;  // first element and ld of each block
    std::set<void*> bases;
    const T* first = nullptr;
    for (std::size_t j = 0; j < q.c.t.size(); ++j)
      for (std::size_t i = 0; i < q.r.t.size(); ++i) {
        const auto &a = q.r.t[i], &b = q.c.t[j];
        auto x = place(m, {SizeType(i), SizeType(j)}, {a.size, b.size});
        if (!x.p || !Host::get().vk().find(x.p, &x.base, &x.bytes)) {
          vk::violation("outside", cat("tile ", i, ",", j, " lies outside every allocation"));
          return;
        }
        // disjoint and inside
        auto& u = used[x.base];
        u.resize(x.bytes);
        for (SizeType jj = 0; jj < b.size; ++jj) {
          const std::size_t o = std::size_t(reinterpret_cast<const char*>(x.p + jj * x.ld) - static_cast<char*>(x.base));
          if (o + std::size_t(a.size) * sizeof(T) > x.bytes) {
            vk::violation("outside", cat("column ", jj, " of tile ", i, ",", j, " ends after its allocation"));
            return;
          }
          for (std::size_t k = o; k < o + std::size_t(a.size) * sizeof(T); ++k) {
            if (u[k]) {
              vk::violation("overlap", cat("column ", jj, " of tile ", i, ",", j, " shares memory with another element"));
              return;
            }
            u[k] = true;
          }
        }
        vk::count("tiles placed");
        // placement
        SizeType min = 0;
        switch (want) {
          case AllocationLayout::ColMajor:
            min = q.r.size;
            if (!first)
              first = x.p;
            VK_CHECK(x.p - first == a.local + x.ld * b.local, "placement", "tile ", i, ",", j, " of a column-major matrix at ", x.p - first);
            break;
          case AllocationLayout::Blocks: {
            min = q.r.blocks[std::size_t(a.block)];
            auto it = blocks.try_emplace({a.block, b.block}, x.p, x.ld).first;
            VK_CHECK(x.p - it->second.first == a.in_block + x.ld * b.in_block && x.ld == it->second.second, "placement", "tile ", i, ",", j, " of a block at ",
                     x.p - it->second.first, " ld ", x.ld);
            break;
          }
          case AllocationLayout::Tiles:
            min = a.size;
            break;
        }
        const int k = ldk == 3 ? (want == AllocationLayout::ColMajor ? 1 : 0) : ldk;
        if (k == 0)
          VK_EQ(x.ld, min, "ld-compact", "tile ", i, ",", j);
        else if (k == 2)
          VK_EQ(x.ld, ldv, "ld-value", "tile ", i, ",", j);
        else
          VK_CHECK(x.ld >= min && x.ld < min + 64, "ld-padded", "tile ", i, ",", j, " ld ", x.ld, " for ", min, " rows");
        bases.insert(x.base);
      }
    const std::uint64_t fresh = Host::get().vk().live() - live;
    const std::size_t nt = q.r.t.size() * q.c.t.size();
    const std::size_t pcs = q.empty() ? 0 : want == AllocationLayout::ColMajor ? 1 : want == AllocationLayout::Blocks ? q.r.blocks.size() * q.c.blocks.size() : nt;
    VK_CHECK(bases.size() <= pcs && fresh == bases.size(), "pieces", fresh, " allocations, ", bases.size(), " used, expected ", pcs);
    // what the library's own inspection says
    bool as = false;
    for (auto l : all) {
      const bool is = matrix::test::is_allocated_as(m, l);
      VK_CHECK(is == (l == want), "is-allocated-as", l, " ", is);
      as |= is;
    }
    VK_CHECK(as, "is-allocated-as", "none");
    fill(m, q);
    verify<T>(m, q, "matrix");
    // views keep the memory
    for (int k = 0; k < 2; ++k) {
      auto s = std::make_unique<Matrix<T, CPU>>(m.sub_pipeline());
      VK_EQ(s->allocation_layout(), want, "sub-layout", "");
      VK_CHECK(matrix::test::is_allocated_as(*s, want), "sub-layout", "is_allocated_as");
      verify<T>(*s, q, "sub-pipeline");
      if (!q.empty())
        s->done(LocalTileIndex(0, 0));
      s.reset();
      Matrix<const T, CPU> c = m.sub_pipeline_const();
      VK_EQ(c.allocation_layout(), want, "sub-layout", "const");
      VK_CHECK(matrix::test::is_allocated_as(c, want), "sub-layout", "is_allocated_as, const");
    }
    if (q.kr == 1 && q.kc == 1) {
      std::vector<SizeType> dr, dc;
      for (SizeType k = 1; k <= q.mb; ++k)
        if (q.mb % k == 0)
          dr.push_back(k);
      for (SizeType k = 1; k <= q.nb; ++k)
        if (q.nb % k == 0)
          dc.push_back(k);
      const SizeType kr = r.pick(dr), kc = r.pick(dc);
      const AllocationLayout w2 = want == AllocationLayout::Tiles && kr * kc > 1 ? AllocationLayout::Blocks : want;
      const Geo q2(q.m, q.n, q.mb / kr, q.nb / kc, kr, kc, gs, rk, q.src);
      {
        Matrix<T, CPU> s = m.retiled_sub_pipeline({kr, kc});
        VK_EQ(s.allocation_layout(), w2, "retiled-layout", kr, "x", kc);
        VK_CHECK(matrix::test::is_allocated_as(s, w2), "retiled-layout", "is_allocated_as ", kr, "x", kc);
        verify<T>(s, q2, "retiled");
      }
      {
        Matrix<const T, CPU> s = m.retiled_sub_pipeline_const({kr, kc});
        VK_EQ(s.allocation_layout(), w2, "retiled-layout", "const ", kr, "x", kc);
        verify<T>(s, q2, "retiled const");
      }
    }
    if (r.chance(1, 2)) {
      Matrix<T, CPU> o = std::move(m);
      VK_EQ(o.allocation_layout(), want, "moved-layout", "");
      verify<T>(o, q, "moved");
      m = std::move(o);
      VK_EQ(m.allocation_layout(), want, "moved-layout", "back");
    }
    verify<T>(m, q, "matrix");
  }
  pika::wait();
  for (int k = 0; k < 1000 && Host::get().vk().live() != live; ++k)
    usleep(100);
  VK_EQ(Host::get().vk().live(), live, "memory-kept", "");
  if (!q.empty())
    vk::nontrivial(cat("alloc ", name_of<T>::v, ctor, q.desc(), want, ldk, ldk == 2 ? ldv : 0));
}

// ---------------------------------------------------------------- memory of the user
template <class T>
void user(Rng& r, Group& grp) {
  const comm::CommunicatorGrid& cg = *grp.grid;
  const int how = r.irange(0, 4);  // local, grid+source, grid, layout, layout to const
  const comm::Size2D gs = how == 0 ? comm::Size2D(1, 1) : how < 3 ? cg.size() : comm::Size2D(r.irange(1, 4), r.irange(1, 4));
  const comm::Index2D rk = how == 0 ? comm::Index2D(0, 0) : how < 3 ? cg.rank() : comm::Index2D(r.irange(0, gs.rows() - 1), r.irange(0, gs.cols() - 1));
  Geo q = random_geo(r, gs, rk, how < 3);
  if (how == 2)
    q = Geo(q.m, q.n, q.mb, q.nb, 1, 1, gs, rk, {0, 0});
  const SizeType ld = std::max<SizeType>(1, q.r.size) + (r.chance(1, 2) ? 0 : r.irange(1, 6));
  static const char* hn[] = {"local", "grid and source", "grid", "layout", "layout const"};
  vk::case_begin(cat("user memory ", name_of<T>::v, " ", hn[how], " ", q.desc(), " ld ", ld));
  const std::size_t n = q.empty() ? 0 : std::size_t(q.r.size + ld * (q.c.size - 1));
  std::unique_ptr<T[]> mem(new T[n]);  // any access beyond is seen by the sanitizer
  std::memset(static_cast<void*>(mem.get()), 0x5c, n * sizeof(T));
  auto at = [&](SizeType i, SizeType j) -> T& { return mem[std::size_t(i + j * ld)]; };
  std::vector<bool> element(n);
  for (auto& b : q.c.t)
    for (auto& a : q.r.t)
      for (SizeType jj = 0; jj < b.size; ++jj)
        for (SizeType ii = 0; ii < a.size; ++ii) {
          at(a.local + ii, b.local + jj) = T(Real<T>((a.first + ii) * 64 + b.first + jj));
          element[std::size_t(a.local + ii + (b.local + jj) * ld)] = true;
        }
  const auto allocs = Host::get().vk().allocations();
  if (how == 4) {
    Matrix<const T, CPU> m(ColMajorLayout(q.dist, ld), const_cast<const T*>(mem.get()));
    verify<T>(m, q, "user memory, const");
    VK_EQ(m.allocation_layout(), AllocationLayout::ColMajor, "allocation-layout", "");
  }
  else {
    const GlobalElementSize s(q.m, q.n);
    const TileElementSize ts(q.mb, q.nb);
    Matrix<T, CPU> m = how == 0   ? matrix::create_matrix_from_col_major<CPU>(s, ts, ld, mem.get())
                       : how == 1 ? matrix::create_matrix_from_col_major<CPU>(s, ts, ld, cg, q.src, mem.get())
                       : how == 2 ? matrix::create_matrix_from_col_major<CPU>(s, ts, ld, cg, mem.get())
                                  : Matrix<T, CPU>(ColMajorLayout(q.dist, ld), mem.get());
    if (how == 0)
      VK_CHECK(m.distribution().size() == s && m.tile_size() == ts, "distribution", "");
    else
      VK_CHECK(m.distribution() == q.dist, "distribution", "");
    VK_EQ(m.allocation_layout(), AllocationLayout::ColMajor, "allocation-layout", "");
    VK_CHECK(matrix::test::is_allocated_as(m, AllocationLayout::ColMajor), "is-allocated-as", "user memory");
    verify<T>(m, q, "user memory");
    for (std::size_t j = 0; j < q.c.t.size(); ++j)
      for (std::size_t i = 0; i < q.r.t.size(); ++i) {
        auto t = tt::sync_wait(m.readwrite(LocalTileIndex{SizeType(i), SizeType(j)}));
        VK_CHECK(t.ptr() == &at(q.r.t[i].local, q.c.t[j].local) && t.ld() == ld, "placement", "tile ", i, ",", j, " is not in the user's memory");
        for (SizeType b = 0; b < q.c.t[j].size; ++b)
          for (SizeType a = 0; a < q.r.t[i].size; ++a)
            t({a, b}) = -t({a, b});
      }
  }
  VK_EQ(Host::get().vk().allocations(), allocs, "copies", "matrix over user memory");
  const T sign = how == 4 ? T(1) : T(-1);
  for (auto& b : q.c.t)
    for (auto& a : q.r.t)
      for (SizeType jj = 0; jj < b.size; ++jj)
        for (SizeType ii = 0; ii < a.size; ++ii)
          if (at(a.local + ii, b.local + jj) != sign * T(Real<T>((a.first + ii) * 64 + b.first + jj)))
            vk::violation("written-through", cat("element ", a.first + ii, ",", b.first + jj, " of the user's memory"));
  for (std::size_t k = 0; k < n; ++k)
    if (!element[k]) {
      const unsigned char* c = reinterpret_cast<const unsigned char*>(&mem[k]);
      for (std::size_t b = 0; b < sizeof(T); ++b)
        if (c[b] != 0x5c) {
          vk::violation("padding", cat("element ", k, " between the columns was written"));
          return;
        }
      vk::count("padding elements compared");
    }
  vk::count("matrices over user memory");
  if (!q.empty())
    vk::nontrivial(cat("user ", name_of<T>::v, how, q.desc(), ld));
}

// ---------------------------------------------------------------- refused
template <class T>
void probes(Rng& r) {
  const comm::Size2D g(r.irange(1, 3), r.irange(1, 3));
  Geo q = random_geo(r, g, {r.irange(0, g.rows() - 1), r.irange(0, g.cols() - 1)}, false);
  const int k = r.irange(0, 5);
  const SizeType lim = q.empty() ? 1 : q.r.size;
  const SizeType bad = r.chance(1, 2) ? lim - 1 : lim - 1 - r.irange(0, 60);
  auto want = [&](const char* what, auto&& f) {
    vk::case_begin(cat("refused: ", what, " ", q.desc(), " ld ", bad));
    const auto o = vk::run_forked([&] { f(); });
    VK_CHECK(o == vk::Outcome::Terminated, cat("accepted:", what), what, ": ", vk::outcome_name(o));
    vk::nontrivial(cat("probe ", k, q.desc(), bad));
  };
  std::vector<T> mem(4000);
  switch (k) {
    case 0:
      return want("layout with a short leading dimension", [&] { ColMajorLayout l(q.dist, bad); });
    case 1: {
      const Distribution d({std::max<SizeType>(q.m, 1), std::max<SizeType>(q.n, 1)}, {q.mb + 1, q.nb + 1}, {1, 1}, {0, 0}, {0, 0},
                           GlobalElementIndex{r.irange(0, 1), 1});
      return want("layout with an offset", [&] { ColMajorLayout l(d, 100); });
    }
    case 2:
      return want("column-major allocation with a short leading dimension", [&] { Matrix<T, CPU> m(q.dist, AllocationSpec{AllocationLayout::ColMajor, bad}); });
    case 3: {
      SizeType b = 1;
      if (!q.empty())
        b = *std::max_element(q.r.blocks.begin(), q.r.blocks.end());
      const SizeType v = b - 1 - (r.chance(1, 2) ? 0 : r.irange(0, 9));
      return want("block allocation with a short leading dimension", [&] { Matrix<T, CPU> m(q.dist, AllocationSpec{AllocationLayout::Blocks, v}); });
    }
    case 4: {
      SizeType b = 1;
      if (!q.empty())
        for (auto& t : q.r.t)
          b = std::max(b, t.size);
      const SizeType v = b - 1 - (r.chance(1, 2) ? 0 : r.irange(0, 9));
      return want("tile allocation with a short leading dimension", [&] { Matrix<T, CPU> m(q.dist, AllocationSpec{AllocationLayout::Tiles, v}); });
    }
    default: {
      const SizeType l = q.m == 0 || q.n == 0 ? 1 : q.m;
      return want("user memory with a short leading dimension",
                  [&] { auto m = matrix::create_matrix_from_col_major<CPU>({q.m, q.n}, {q.mb, q.nb}, l - 1 - (bad < lim - 1), mem.data()); });
    }
  }
}
void offset_probe(Rng& r) {
  const SizeType oi = r.irange(0, 3), oj = oi == 0 ? r.irange(1, 3) : r.irange(0, 3);
  const AllocationLayout all[] = {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles};
  const AllocationLayout l = all[r.irange(0, 2)];
  const Distribution d({r.irange(1, 20), r.irange(1, 20)}, {4, 4}, {1, 1}, {0, 0}, {0, 0}, GlobalElementIndex{oi, oj});
  vk::case_begin(cat("refused: matrix with an offset ", oi, ",", oj, " of size ", d.size(), " ", l));
  const auto o = vk::run_forked([&] { Matrix<double, CPU> m(d, AllocationSpec{l}); });
  VK_CHECK(o == vk::Outcome::Terminated, "accepted:matrix with an offset", vk::outcome_name(o));
  vk::nontrivial(cat("offset ", oi, oj, l, d.size()));
}
// a part of a matrix can only be retiled if it starts at the first element
void retile_probe(Rng& r) {
  const SizeType k = r.irange(1, 3);
  const SizeType oi = r.irange(0, 2), oj = oi == 0 ? r.irange(1, 2) : r.irange(0, 2);
  const SizeType m = oi * 2 * k + r.irange(1, 12), n = oj * 2 * k + r.irange(1, 12);
  vk::case_begin(cat("refused: retiling a part of a ", m, "x", n, " matrix from ", oi * 2 * k, ",", oj * 2 * k));
  const auto o = vk::run_forked([&] {
    Matrix<double, CPU> a(LocalElementSize(m, n), TileElementSize(2 * k, 2 * k));
    matrix::internal::MatrixRef<double, CPU> ref(a, {{oi * 2 * k, oj * 2 * k}, {m - oi * 2 * k, n - oj * 2 * k}});
    auto b = ref.retiled_sub_pipeline(LocalTileSize(2, 2));
  });
  VK_CHECK(o == vk::Outcome::Terminated, "accepted:retiled part", vk::outcome_name(o));
  vk::nontrivial(cat("retile ", oi, oj, m, n, k));
}
void name_probe(Rng& r) {
  static const char* good[] = {"colmajor", "blocks", "tiles"};
  std::string n = good[r.irange(0, 2)];
  switch (r.irange(0, 3)) {
    case 0:
      n.pop_back();
      break;
    case 1:
      n += r.chance(1, 2) ? ' ' : 's';
      break;
    case 2:
      n[std::size_t(r.irange(0, int(n.size()) - 1))] = '_';
      break;
    default:
      n.clear();
  }
  vk::case_begin(cat("refused: layout called '", n, "'"));
  const auto o = vk::run_forked([&] { (void) matrix::allocation_layout_from(n); });
  VK_CHECK(o != vk::Outcome::Returned && o != vk::Outcome::Crashed, "accepted:layout name", n, ": ", vk::outcome_name(o));
}

// ---------------------------------------------------------------- text
template <class T>
T value(Rng& r) {
  using R = Real<T>;
  auto one = [&]() -> R {
    switch (r.irange(0, 5)) {
      case 0:
        return R(0);
      case 1:
        return R(r.irange(-9, 9));
      case 2:
        return R(r.real()) * R(1e-9);
      case 3:
        return R(r.real()) * R(1e9);
      default:
        return R(r.real());
    }
  };
  if constexpr (is_cx<T>) {
    const R a = one(), b = one();
    return T(a, b);
  }
  else
    return one();
}
struct Text {
  const std::string& s;
  std::size_t at = 0;
  bool ok = true;
  bool has(const char* w) {
    const std::size_t n = std::strlen(w);
    if (s.compare(at, n, w) == 0) {
      at += n;
      return true;
    }
    return false;
  }
  void need(const char* w) {
    if (!has(w))
      ok = false;
  }
  double num() {
    const char* b = s.c_str() + at;
    char* e;
    const double x = std::strtod(b, &e);
    if (e == b)
      ok = false;
    at += std::size_t(e - b);
    return x;
  }
  bool end() const { return at == s.size(); }
};
bool near(double a, double b, int digits) {
  return std::isnan(b) ? std::isnan(a) : std::abs(a - b) <= 0.6 * std::pow(10.0, 1 - digits) * std::abs(b) + 1e-300;
}
template <class T>
bool csv_value(Text& t, T x, int digits) {
  bool ok;
  if constexpr (is_cx<T>) {
    t.need("(");
    const double a = t.num();
    t.need(",");
    const double b = t.num();
    t.need(")");
    ok = near(a, x.real(), digits) && near(b, x.imag(), digits);
  }
  else
    ok = near(t.num(), x, digits);
  t.need(",");
  return ok;
}
template <class T>
bool np_value(Text& t, T x) {
  bool ok;
  if constexpr (is_cx<T>) {
    const double a = t.num(), b = t.num();  // the sign separates them
    t.need("j");
    ok = near(a, x.real(), 6) && near(b, x.imag(), 6);
  }
  else
    ok = t.has("np.nan") ? std::isnan(x) : near(t.num(), x, 6);
  t.need(",");
  return ok;
}
template <class T>
void text(Rng& r, Group&) {
  const comm::Size2D gs = r.chance(1, 2) ? comm::Size2D(1, 1) : comm::Size2D(r.irange(1, 3), r.irange(1, 3));
  Geo q0 = random_geo(r, gs, {0, 0}, false);
  q0 = Geo(std::min<SizeType>(q0.m, 14), std::min<SizeType>(q0.n, 14), q0.mb, q0.nb, q0.kr, q0.kc, gs, {0, 0}, q0.src);
  Ref<T> in(q0.m, q0.n);
  for (auto& x : in.v) {
    x = value<T>(r);
    if constexpr (!is_cx<T>)
      if (r.chance(1, 12))
        x = nan_<T>();
  }
  vk::case_begin(cat("text ", name_of<T>::v, " ", q0.desc()));
  Ref<int> seen(q0.m, q0.n);
  // the ranks of the grid print one after another
  for (int a = 0; a < gs.rows(); ++a)
    for (int b = 0; b < gs.cols(); ++b) {
      const Geo q(q0.m, q0.n, q0.mb, q0.nb, q0.kr, q0.kc, gs, {a, b}, q0.src);
      Matrix<T, CPU> m(q.dist, AllocationSpec{r.chance(1, 2) ? AllocationLayout::Tiles : AllocationLayout::ColMajor});
      for (std::size_t j = 0; j < q.c.t.size(); ++j)
        for (std::size_t i = 0; i < q.r.t.size(); ++i) {
          auto t = tt::sync_wait(m.readwrite(LocalTileIndex{SizeType(i), SizeType(j)}));
          for (SizeType jj = 0; jj < q.c.t[j].size; ++jj)
            for (SizeType ii = 0; ii < q.r.t[i].size; ++ii)
              t({ii, jj}) = in(q.r.t[i].first + ii, q.c.t[j].first + jj);
        }
      Matrix<const T, CPU>& c = m;
      {
        std::ostringstream o;
        matrix::print(format::numpy{}, "mat", c, o);
        const std::string str = o.str();
        Text t{str};
        const char* ty = is_cx<T> ? "csingle" : "single";
        t.need(cat("mat = np.zeros((", q.m, ", ", q.n, "), dtype=np.", ty, ")\n").c_str());
        bool values = true;
        std::size_t tiles = 0;
        while (t.ok && !t.end()) {
          t.need("mat[");
          const SizeType i0 = SizeType(t.num());
          t.need(":");
          const SizeType i1 = SizeType(t.num());
          t.need(",");
          const SizeType j0 = SizeType(t.num());
          t.need(":");
          const SizeType j1 = SizeType(t.num());
          t.need("] = np.array([");
          if (!t.ok || i0 < 0 || j0 < 0 || i1 > q.m || j1 > q.n || i0 > i1 || j0 > j1) {
            t.ok = false;
            break;
          }
          for (SizeType j = j0; t.ok && j < j1; ++j)
            for (SizeType i = i0; t.ok && i < i1; ++i) {
              values &= np_value(t, in(i, j));
              ++seen(i, j);
            }
          t.need(cat("], dtype=np.", ty, ").reshape(", j1 - j0, ", ", i1 - i0, ").T\n").c_str());
          ++tiles;
        }
        VK_CHECK(t.ok && t.end(), "numpy-format", "at ", t.at, ": ", str.substr(t.at > 20 ? t.at - 20 : 0, 80));
        VK_CHECK(values, "numpy-values", str.substr(0, 300));
        VK_EQ(tiles, q.r.t.size() * q.c.t.size(), "numpy-tiles", "");
        vk::count("numpy texts read");
      }
      if (gs == comm::Size2D(1, 1)) {
        std::ostringstream o;
        o.precision(17);
        matrix::print(format::csv{}, "mat", c, o);
        const std::string str = o.str();
        Text t{str};
        t.need("mat\n");
        bool values = true;
        for (SizeType i = 0; t.ok && i < q.m; ++i) {
          for (SizeType j = 0; t.ok && j < q.n; ++j) {
            values &= csv_value(t, in(i, j), 16);
          }
          t.need("\n");
        }
        VK_CHECK(t.ok && t.end(), "csv-format", "at ", t.at, ": ", str.substr(t.at > 20 ? t.at - 20 : 0, 80));
        VK_CHECK(values, "csv-values", str.substr(0, 300));
        vk::count("csv texts read");
      }
      if (!q.empty()) {
        const std::size_t i = std::size_t(r.irange(0, int(q.r.t.size()) - 1)), j = std::size_t(r.irange(0, int(q.c.t.size()) - 1));
        const auto &ti = q.r.t[i], &tj = q.c.t[j];
        auto w = tt::sync_wait(m.read(LocalTileIndex{SizeType(i), SizeType(j)}));
        std::ostringstream o, o2;
        matrix::print(format::csv{}, w.get(), o);
        const std::string str = o.str();
        Text t{str};
        bool values = true;
        for (SizeType ii = 0; t.ok && ii < ti.size; ++ii) {
          for (SizeType jj = 0; t.ok && jj < tj.size; ++jj)
            values &= csv_value(t, in(ti.first + ii, tj.first + jj), 5);
          t.need("\n");
        }
        VK_CHECK(t.ok && t.end() && values, "csv-tile", str.substr(0, 300));
        matrix::print(format::numpy{}, w.get(), o2);
        const std::string s2 = o2.str();
        Text t2{s2};
        t2.need("np.array([");
        for (SizeType jj = 0; t2.ok && jj < tj.size; ++jj)
          for (SizeType ii = 0; t2.ok && ii < ti.size; ++ii)
            values &= np_value(t2, in(ti.first + ii, tj.first + jj));
        t2.need(cat("], dtype=np.", is_cx<T> ? "csingle" : "single", ").reshape(", tj.size, ", ", ti.size, ").T\n").c_str());
        VK_CHECK(t2.ok && t2.end() && values, "numpy-tile", s2.substr(0, 300));
        vk::count("tile texts read");
      }
    }
  for (auto& x : seen.v)
    if (x != 1) {
      vk::violation("numpy-cover", cat("an element was printed ", x, " times"));
      break;
    }
  if (!in.v.empty())
    vk::nontrivial(cat("text ", name_of<T>::v, q0.desc(), vk::hash_bytes(in.v.data(), in.v.size() * sizeof(T))));
}

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("layout", vk::scale(600, 8000), [&](int, Group&, Rng&, Rng& p) {
    layout_queries(p);
    specifications(p);
  });
  s.cases("allocation", vk::scale(700, 10000), [&](int, Group& g, Rng& r, Rng& p) {
    // each process its own matrices: nothing is communicated
    (void) r;
    with_type(p, [&](auto t) { allocation<typename decltype(t)::type>(p, g); });
  });
  s.cases("user", vk::scale(500, 8000), [&](int, Group& g, Rng&, Rng& p) {
    with_type(p, [&](auto t) { user<typename decltype(t)::type>(p, g); });
  });
  s.cases("text", vk::scale(300, 4000), [&](int, Group& g, Rng&, Rng& p) {
    with_type(p, [&](auto t) { text<typename decltype(t)::type>(p, g); });
  });
  s.cases("refused", vk::scale(100, 800), [&](int, Group&, Rng&, Rng& p) {
    with_type(p, [&](auto t) { probes<typename decltype(t)::type>(p); });
    offset_probe(p);
    name_probe(p);
    retile_probe(p);
  });
  return s.finish();
}
