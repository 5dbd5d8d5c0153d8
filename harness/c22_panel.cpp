// C22: panels of tiles over several rounds of use, and their broadcasts.
#include <alg.hpp>
#include <dlaf/communication/broadcast_panel.h>
#include <dlaf/matrix/panel.h>
#include <dlaf/util_matrix.h>
using namespace alg;
using dlaf::matrix::Panel;
using dlaf::matrix::StoreTransposed;

constexpr auto CPU = Device::CPU;
template <class S>
constexpr auto comm_type(S) {
  return S{};
}

template <class T>
T value(SizeType round, SizeType k, SizeType i, SizeType j) {
  std::uint64_t h = std::uint64_t(round) * 1000003u + std::uint64_t(k) * 7919u + std::uint64_t(i) * 131u + std::uint64_t(j) + 17u;
  h *= 0x9e3779b97f4a7c15ull;
  if constexpr (is_cx<T>)
    return T(Real<T>((h >> 40) & 0xffff), Real<T>((h >> 20) & 0xffff));
  else
    return T((h >> 40) & 0xfffff);
}

template <class T>
void start_write(auto sender, SizeType round, SizeType k, TileElementSize want) {
  ex::start_detached(std::move(sender) | ex::then([=](const matrix::Tile<T, CPU>& t) {
                       VK_CHECK(t.size() == want, "tile-size", "read-write tile ", k, " has size ", t.size(), ", expected ", want);
                       if (t.size() != want)
                         return;
                       for (SizeType j = 0; j < want.cols(); ++j)
                         for (SizeType i = 0; i < want.rows(); ++i)
                           t({i, j}) = value<T>(round, k, i, j);
                       vk::count("tiles written");
                     }));
}
enum What { OWN, ZEROED };
template <class T>
void start_check(auto sender, SizeType round, SizeType k, TileElementSize want, const char* who, bool zero = false) {
  ex::start_detached(std::move(sender) | ex::then([=](auto w) {
                       const matrix::Tile<const T, CPU>& t = w.get();
                       VK_CHECK(t.size() == want, "tile-size", who, ": tile ", k, " has size ", t.size(), ", expected ", want);
                       if (t.size() != want)
                         return;
                       for (SizeType j = 0; j < want.cols(); ++j)
                         for (SizeType i = 0; i < want.rows(); ++i) {
                           const T v = zero ? T(0) : value<T>(round, k, i, j);
                           if (!(t({i, j}) == v)) {
                             vk::violation(cat("content:", who), cat(who, ": round ", round, " tile ", k, " element (", i, ",", j, ") is ", t({i, j}), ", expected ", v));
                             return;
                           }
                         }
                       vk::count(cat("tiles read: ", who));
                     }));
}

// a panel together with what it is asked to be
template <class T, Coord axis, StoreTransposed st>
struct Model {
  static constexpr Coord coord = orthogonal(axis);
  using P = Panel<axis, T, CPU, st>;
  Distribution dist;
  SizeType first = 0, start = 0, end = 0, off = 0, dim = -1;
  std::unique_ptr<P> p;
  Model(const Distribution& d, SizeType first_, bool dflt) : dist(d), first(first_), start(first_), end(d.nr_tiles().template get<coord>()) {
    p = dflt ? std::make_unique<P>(d) : std::make_unique<P>(d, GlobalTileIndex(coord, first));
  }
  SizeType nb() const { return dist.tile_size().template get<axis>(); }
  SizeType nc() const { return dist.tile_size().template get<coord>(); }
  SizeType nr() const { return dist.nr_tiles().template get<coord>(); }
  bool mine(SizeType k) const { return dist.template rank_global_tile<coord>(k) == dist.rank_index().template get<coord>(); }
  SizeType local(SizeType k) const { return dist.template local_tile_from_global_tile<coord>(k); }
  LocalTileIndex at(SizeType k) const { return LocalTileIndex(coord, local(k)); }
  SizeType extent(SizeType k) const {  // of tile k along the panel
    return dist.tile_size_of(GlobalTileIndex(coord, k)).template get<coord>() - (k == start ? off : 0);
  }
  SizeType width() const { return dim < 0 ? nb() : dim; }
  TileElementSize size(SizeType k) const {
    const SizeType a = extent(k), b = width();
    const bool col = (axis == Coord::Col) != (st == StoreTransposed::Yes);
    return col ? TileElementSize(a, b) : TileElementSize(b, a);
  }
  template <class F>
  void tiles(F&& f) const {
    for (SizeType k = start; k < end; ++k)
      if (mine(k))
        f(k);
  }
  void set_range(SizeType s, SizeType e) {
    p->setRange(GlobalTileIndex(coord, s), GlobalTileIndex(coord, e));
    start = s, end = e, off = 0;
  }
  void set_start(SizeType s) {
    p->setRangeStart(GlobalTileIndex(coord, s));
    start = s, off = 0;
  }
  void set_start_element(SizeType x) {
    p->setRangeStart(GlobalElementIndex(coord, x));
    start = x / nc(), off = x % nc();
  }
  void set_end(SizeType e) {
    p->setRangeEnd(GlobalTileIndex(coord, e));
    end = e;
  }
  void set_dim(SizeType d) {
    if constexpr (axis == Coord::Col)
      p->setWidth(d);
    else
      p->setHeight(d);
    dim = d;
  }
  void reset() {
    p->reset();
    dim = -1;
  }
  // a range allowed by what is set already
  std::string random_range(Rng& r) {
    std::string s;
    const SizeType n = nr();
    switch (r.irange(0, 4)) {
      case 0:
        break;
      case 1: {
        const SizeType a = r.range(first, n), b = r.range(a, n);
        set_range(a, b);
        s = "range";
        break;
      }
      case 2:
        set_start(r.range(first, end));
        s = "start";
        break;
      case 3: {
        const SizeType ne = dist.size().template get<coord>(), lo = first * nc(), hi = std::min(ne - 1, end * nc() - 1);
        if (hi < lo)
          break;
        set_start_element(r.range(lo, hi));
        s = "element";
        break;
      }
      case 4:
        set_end(r.range(start, n));
        s = "end";
        break;
    }
    if (r.chance(1, 3)) {
      set_dim(r.range(1, nb()));
      s += " dim";
    }
    return s;
  }
  void check_shape() {
    VK_CHECK(p->rangeStart() == start && p->rangeEnd() == end, "range", "range ", p->rangeStart(), "..", p->rangeEnd(), ", expected ", start, "..", end);
    VK_CHECK(p->offsetElement() == start * nc() + off, "offset", "first element ", p->offsetElement(), ", expected ", start * nc() + off);
    SizeType w;
    if constexpr (axis == Coord::Col)
      w = p->getWidth();
    else
      w = p->getHeight();
    VK_CHECK(w == width(), "width", w, " expected ", width());
    VK_CHECK(p->parentDistribution() == dist, "parent", "another parent distribution");
    std::vector<SizeType> got, want;
    for (const auto& i : p->iteratorLocal()) {
      got.push_back(i.template get<coord>());
      VK_CHECK(i.template get<axis>() == 0, "iterator", "index ", i);
    }
    tiles([&](SizeType k) { want.push_back(local(k)); });
    VK_CHECK(got == want, "iterator", "visits ", got.size(), " tiles, expected ", want.size());
    VK_CHECK(p->rangeEndLocal() - p->rangeStartLocal() == SizeType(want.size()) && (want.empty() || p->rangeStartLocal() == want.front()), "local-range",
             p->rangeStartLocal(), "..", p->rangeEndLocal());
    vk::count("panel shapes checked");
  }
  auto read(SizeType k, bool through_base) {
    if (through_base) {
      Panel<axis, const T, CPU, st>& c = *p;
      return c.read(at(k));
    }
    return p->read(at(k));
  }
};

template <class T>
struct External {
  matrix::Matrix<T, CPU> m;
  explicit External(TileElementSize s) : m(LocalElementSize(s.rows(), s.cols()), s) {}
};

template <class F>
void with_panel(Rng& r, F&& f) {
  using C = std::integral_constant<Coord, Coord::Col>;
  using R = std::integral_constant<Coord, Coord::Row>;
  using N = std::integral_constant<StoreTransposed, StoreTransposed::No>;
  using Y = std::integral_constant<StoreTransposed, StoreTransposed::Yes>;
  switch (r.irange(0, 3)) {
    case 0:
      return f(C{}, N{});
    case 1:
      return f(R{}, N{});
    case 2:
      return f(C{}, Y{});
    default:
      return f(R{}, Y{});
  }
}

// ---------------------------------------------------------------- one process' use over several rounds
template <class T, Coord axis, StoreTransposed st>
void rounds(Group& g, Rng& r, Rng& pr, const std::string& sched) {
  using M = Model<T, axis, st>;
  constexpr Coord coord = M::coord;
  const Bulk bulk = random_bulk(r);
  const SizeType mb = tile_of(r, bulk, 1, 5), nb = tile_of(r, bulk, 1, 5);
  // (no tile has a size in a matrix that is empty across the panel)
  SizeType m = size_of(r, bulk, mb, 20, 20), n = size_of(r, bulk, nb, 20, 20);
  (axis == Coord::Col ? n : m) = std::max<SizeType>(1, axis == Coord::Col ? n : m);
  const auto src = random_source(r, g);
  const bool offset = r.chance(1, 6);
  GlobalElementIndex eo(0, 0);
  if (offset)
    eo = {r.range(0, 2 * mb), r.range(0, 2 * nb)};
  const Distribution dist(GlobalElementSize(m, n), TileElementSize(mb, nb), g.grid->size(), g.grid->rank(), src, eo);
  const SizeType nr = dist.nr_tiles().template get<coord>();
  const bool bound = dist.offset() != GlobalElementIndex(0, 0);
  const SizeType first = bound || nr == 0 || r.chance(1, 2) ? 0 : r.range(0, nr - 1);
  const int n_rounds = r.irange(1, 6);
  vk::case_begin(cat("panel ", axis == Coord::Col ? "col" : "row", st == StoreTransposed::Yes ? "^T " : " ", name_of<T>::v, " ", m, "/", mb, "x", n, "/", nb, " grid=", g.desc(), src_desc(src),
                     bound ? cat(" offset ", eo.row(), ",", eo.col()) : "", " first ", first, " rounds ", n_rounds, sched));
  std::vector<std::unique_ptr<External<T>>> ext;
  {
    M p(dist, first, first == 0 && r.chance(1, 2));
    std::string how;
    for (int q = 0; q < n_rounds; ++q) {
      if (!bound)
        how += "|" + p.random_range(r);
      if (r.chance(1, 8)) {
        p.p = std::make_unique<typename M::P>(std::move(*p.p));
        vk::count("panels moved");
      }
      p.check_shape();
      const int kind = r.irange(0, 5);
      if (kind == 0) {
        matrix::util::set0<Backend::MC>(pika::execution::thread_priority::normal, *p.p);
        p.tiles([&](SizeType k) { start_check<T>(p.read(k, pr.chance(1, 2)), q, k, p.size(k), "zeroed panel", true); });
      }
      else
        p.tiles([&](SizeType k) {
          const int what = pr.irange(0, 5);
          if (what == 0)
            return;
          if (what == 1) {
            ext.push_back(std::make_unique<External<T>>(p.size(k)));
            auto& x = *ext.back();
            start_write<T>(x.m.readwrite(LocalTileIndex(0, 0)), 100 + q, k, p.size(k));
            p.p->setTile(p.at(k), x.m.read(LocalTileIndex(0, 0)));
            // later changes of the external tile have to wait until the panel lets go of it
            if (pr.chance(1, 2))
              start_write<T>(x.m.readwrite(LocalTileIndex(0, 0)), 200 + q, k, p.size(k));
            for (int i = pr.irange(0, 2); i > 0; --i)
              start_check<T>(p.read(k, pr.chance(1, 2)), 100 + q, k, p.size(k), "external");
            vk::count("external tiles");
            return;
          }
          for (int i = pr.irange(1, 2); i > 0; --i) {
            start_write<T>(p.p->readwrite(p.at(k)), 10 * i + q, k, p.size(k));
            for (int c = pr.irange(0, 2); c > 0; --c)
              start_check<T>(p.read(k, pr.chance(1, 2)), 10 * i + q, k, p.size(k), "own");
          }
          if (what == 2)
            vk::count("waits inside a round"), tt::sync_wait(p.read(k, false));
        });
      vk::count("rounds");
      if (q + 1 < n_rounds)
        p.reset();
    }
    if (nr > 0)
      vk::nontrivial(cat(int(axis), int(st), " ", m, "/", mb, "x", n, "/", nb, g.desc(), src_desc(src), first, how));
  }
  // the panel is gone: all external tiles are free
  for (auto& x : ext)
    tt::sync_wait(x->m.readwrite(LocalTileIndex(0, 0)) | ex::then([](const matrix::Tile<T, CPU>&) {}));
}

template <Coord axis>
auto pipeline_of(CommunicatorGrid& grid) {
  if constexpr (axis == Coord::Col)
    return grid.row_communicator_pipeline();
  else
    return grid.col_communicator_pipeline();
}

// ---------------------------------------------------------------- broadcasts along the other axis
template <class T, Coord axis, StoreTransposed st>
void fill_root(Model<T, axis, st>& p, int round, Rng& pr, std::vector<std::unique_ptr<External<T>>>& ext) {
  p.tiles([&](SizeType k) {
    if (pr.chance(1, 3)) {
      ext.push_back(std::make_unique<External<T>>(p.size(k)));
      start_write<T>(ext.back()->m.readwrite(LocalTileIndex(0, 0)), round, k, p.size(k));
      p.p->setTile(p.at(k), ext.back()->m.read(LocalTileIndex(0, 0)));
    }
    else
      start_write<T>(p.p->readwrite(p.at(k)), round, k, p.size(k));
  });
}

template <class T, Coord axis, StoreTransposed st>
void broadcasts(Group& g, Rng& r, Rng& pr, const std::string& sched) {
  using M = Model<T, axis, st>;
  constexpr Coord coord = M::coord;
  const Bulk bulk = random_bulk(r);
  const SizeType mb = tile_of(r, bulk, 1, 5), nb = tile_of(r, bulk, 1, 5);
  // (no tile has a size in a matrix that is empty across the panel)
  SizeType m = size_of(r, bulk, mb, 20, 20), n = size_of(r, bulk, nb, 20, 20);
  (axis == Coord::Col ? n : m) = std::max<SizeType>(1, axis == Coord::Col ? n : m);
  const auto src = random_source(r, g);
  GlobalElementIndex eo(0, 0);
  if (r.chance(1, 6))
    eo = {r.range(0, 2 * mb), r.range(0, 2 * nb)};
  const Distribution dist(GlobalElementSize(m, n), TileElementSize(mb, nb), g.grid->size(), g.grid->rank(), src, eo);
  const SizeType nr = dist.nr_tiles().template get<coord>();
  const bool bound = dist.offset() != GlobalElementIndex(0, 0);
  const SizeType first = bound || nr == 0 || r.chance(1, 2) ? 0 : r.range(0, nr - 1);
  const int n_rounds = r.irange(1, 5), np = r.irange(1, 2);
  vk::case_begin(cat("panel broadcast ", axis == Coord::Col ? "col" : "row", st == StoreTransposed::Yes ? "^T " : " ", name_of<T>::v, " ", m, "/", mb, "x", n, "/", nb, " grid=", g.desc(),
                     src_desc(src), bound ? cat(" offset ", eo.row(), ",", eo.col()) : "", " first ", first, " rounds ", n_rounds, " panels ", np, sched));
  std::vector<std::unique_ptr<External<T>>> ext;
  std::string how;
  {
    std::vector<std::unique_ptr<M>> ps;
    for (int i = 0; i < np; ++i)
      ps.push_back(std::make_unique<M>(dist, first, false));
    auto chain = pipeline_of<axis>(*g.grid);
    const int me = g.grid->rank().template get<axis>(), size = g.grid->size().template get<axis>();
    for (int q = 0; q < n_rounds; ++q) {
      M& p = *ps[std::size_t(q % np)];
      if (q >= np)
        p.reset();
      how += bound ? cat("|bound", eo.row(), ",", eo.col()) : "|" + p.random_range(r);
      const int root = r.irange(0, size - 1);
      if (me == root)
        fill_root(p, q, pr, ext);
      comm::broadcast(root, *p.p, chain);
      p.tiles([&](SizeType k) {
        for (int c = pr.irange(1, 2); c > 0; --c)
          start_check<T>(p.read(k, pr.chance(1, 2)), q, k, p.size(k), me == root ? "broadcast, root" : "broadcast");
        // what a receiver does to its copy stays its own
        if (me != root && pr.chance(1, 3)) {
          start_write<T>(p.p->readwrite(p.at(k)), 300 + q, k, p.size(k));
          start_check<T>(p.read(k, false), 300 + q, k, p.size(k), "changed copy");
        }
      });
      vk::count("broadcasts along the axis");
    }
  }
  if (nr > 0 && g.size > 1)
    vk::nontrivial(cat("b", int(axis), int(st), " ", m, "/", mb, "x", n, "/", nb, g.desc(), src_desc(src), first, how));
}

// ---------------------------------------------------------------- broadcasts to the transposed panel
template <class T, Coord axis, StoreTransposed st, StoreTransposed stT>
void transposed_broadcasts(Group& g, Rng& r, Rng& pr, const std::string& sched) {
  using M = Model<T, axis, st>;
  using MT = Model<T, orthogonal(axis), stT>;
  // tiles of both panels have one shape only if exactly one of them is stored transposed, or if they are square
  constexpr bool any_shape = st != stT;
  const Bulk bulk = random_bulk(r);
  const SizeType nb = tile_of(r, bulk, 1, 5), n = size_of(r, bulk, nb, 22, 22);
  const auto src = random_source(r, g);
  const Distribution dist(GlobalElementSize(n, n), TileElementSize(nb, nb), g.grid->size(), g.grid->rank(), src);
  const SizeType nr = dist.nr_tiles().rows(), full = n / nb;
  const SizeType first = nr == 0 || r.chance(1, 2) ? 0 : r.range(0, nr - 1);
  const int n_rounds = r.irange(1, 5), np = r.irange(1, 2);
  vk::case_begin(cat("panel to ", axis == Coord::Col ? "row" : "col", st == StoreTransposed::Yes ? " ^T" : "", stT == StoreTransposed::Yes ? " to ^T " : " to plain ", name_of<T>::v, " ", n,
                     "/", nb, " grid=", g.desc(), src_desc(src), " first ", first, " rounds ", n_rounds, " panels ", np, sched));
  std::vector<std::unique_ptr<External<T>>> ext;
  std::string how;
  {
    std::vector<std::unique_ptr<M>> ps;
    std::vector<std::unique_ptr<MT>> ts;
    for (int i = 0; i < np; ++i) {
      ps.push_back(std::make_unique<M>(dist, first, false));
      ts.push_back(std::make_unique<MT>(dist, first, false));
    }
    auto rows = g.grid->row_communicator_pipeline();
    auto cols = g.grid->col_communicator_pipeline();
    const int me = g.grid->rank().template get<axis>(), size = g.grid->size().template get<axis>();
    for (int q = 0; q < n_rounds; ++q) {
      M& p = *ps[std::size_t(q % np)];
      MT& t = *ts[std::size_t(q % np)];
      if (q >= np) {
        // in either order: the linked panel may outlive the other's round
        if (r.chance(1, 2))
          p.reset(), t.reset();
        else
          t.reset(), p.reset();
      }
      const SizeType last = any_shape ? nr : full;
      SizeType a = r.range(first, nr), b = r.range(a, nr);
      p.set_range(a, b);
      SizeType ta = r.chance(1, 2) ? a : r.range(a, b), tb = r.chance(1, 2) ? b : r.range(ta, b);
      if (!any_shape) {
        // (a range at the end may be empty)
        tb = std::min(tb, last);
        ta = std::min(ta, tb);
        if (ta < a)
          p.set_start(ta), a = ta;
      }
      t.set_range(ta, tb);
      if (any_shape && a < b && r.chance(1, 3)) {
        const SizeType x = r.range(a * nb, std::min(n, (a + 1) * nb) - 1);
        p.set_start_element(x);
        if (ta == a) {
          if (tb > ta)
            t.set_start_element(x);
        }
      }
      if (any_shape && r.chance(1, 3)) {
        const SizeType d = r.range(1, nb);
        p.set_dim(d);
        t.set_dim(d);
      }
      how += cat("|", p.start, ".", p.off, "-", p.end, ",", t.start, "-", t.end);
      const int root = r.irange(0, size - 1);
      if (me == root)
        fill_root(p, q, pr, ext);
      comm::broadcast(root, *p.p, *t.p, rows, cols);
      p.check_shape();
      t.check_shape();
      p.tiles([&](SizeType k) { start_check<T>(p.read(k, pr.chance(1, 2)), q, k, p.size(k), "broadcast panel"); });
      t.tiles([&](SizeType k) {
        for (int c = pr.irange(1, 2); c > 0; --c)
          start_check<T>(t.read(k, pr.chance(1, 2)), q, k, t.size(k), "transposed panel");
      });
      vk::count("broadcasts to the transposed panel");
    }
  }
  if (nr > 0 && g.size > 1)
    vk::nontrivial(cat("t", int(axis), int(st), int(stT), " ", n, "/", nb, g.desc(), src_desc(src), first, how));
}

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("rounds", vk::scale(6000, 25000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto t) {
      with_panel(r, [&](auto a, auto st) { rounds<typename decltype(t)::type, decltype(a)::value, decltype(st)::value>(g, r, pr, s.sched); });
    });
  });
  s.cases("broadcast", vk::scale(4000, 20000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto t) {
      with_panel(r, [&](auto a, auto st) { broadcasts<typename decltype(t)::type, decltype(a)::value, decltype(st)::value>(g, r, pr, s.sched); });
    });
  });
  s.cases("transposed", vk::scale(4000, 20000), [&](int, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto t) {
      with_panel(r, [&](auto a, auto st) {
        using T = typename decltype(t)::type;
        constexpr Coord A = decltype(a)::value;
        constexpr StoreTransposed S = decltype(st)::value;
        if (r.chance(3, 4))
          transposed_broadcasts<T, A, S, (S == StoreTransposed::Yes ? StoreTransposed::No : StoreTransposed::Yes)>(g, r, pr, s.sched);
        else
          transposed_broadcasts<T, A, S, S>(g, r, pr, s.sched);
      });
    });
  });
  return s.finish();
}
