// C13: Distribution objects (all ranks of a grid at once) against explicit dealing of elements in each dimension.
#include <array>
#include <algorithm>
#include <limits>
#include <functional>
#include <map>
#include <vector>

#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/distribution_extensions.h>
#if 1
#include <dlaf/matrix/views.h>
#endif

#include <vk.hpp>

using namespace dlaf;
using namespace dlaf::matrix;
namespace ext = dlaf::matrix::internal::distribution;
using vk::cat;
using I128 = __int128;

// One dimension dealt by hand: every element is put into its tile and its owner.
struct Dim {
  SizeType n, bs, nb, off;  // size, block, tile, offset (not normalised)
  int P, src;
  struct Tile {
    SizeType begin, end;  // elements
    int owner;
    SizeType local;  // index on the owner
    SizeType block;  // global block, 0 = block of the first element
  };
  std::vector<Tile> tiles;
  std::vector<SizeType> tile_of, el_of, local_of;  // per element
  std::vector<std::vector<SizeType>> mine;         // tiles of each rank
  std::vector<std::vector<SizeType>> els;          // elements of each rank

  Dim(SizeType n_, SizeType bs_, SizeType nb_, SizeType off_, int P_, int src_)
      : n(n_), bs(bs_), nb(nb_), off(off_), P(P_), src(src_) {
    mine.resize(std::size_t(P));
    els.resize(std::size_t(P));
    // a cursor walks from the (virtual) start of the first block
    SizeType in_block = 0, in_tile = 0, block = 0;
    int rank = src;
    auto step = [&]() {
      ++in_block;
      ++in_tile;
      if (in_tile == nb)
        in_tile = 0;
      if (in_block == bs) {
        in_block = 0;
        in_tile = 0;
        ++block;
        rank = rank + 1 == P ? 0 : rank + 1;
      }
    };
    for (SizeType k = 0; k < off; ++k)
      step();
    const SizeType block0 = block;
    for (SizeType e = 0; e < n; ++e) {
      if (e == 0 || in_tile == 0) {
        tiles.push_back({e, e, rank, SizeType(mine[std::size_t(rank)].size()), block - block0});
        mine[std::size_t(rank)].push_back(SizeType(tiles.size()) - 1);
      }
      tiles.back().end = e + 1;
      tile_of.push_back(SizeType(tiles.size()) - 1);
      el_of.push_back(e - tiles.back().begin);
      local_of.push_back(SizeType(els[std::size_t(rank)].size()));
      els[std::size_t(rank)].push_back(e);
      step();
    }
    norm_src = src;
    SizeType o = off;
    while (o >= bs) {
      o -= bs;
      norm_src = norm_src + 1 == P ? 0 : norm_src + 1;
    }
    norm_off = o;
  }
  int norm_src;
  SizeType norm_off;
  SizeType nt() const { return SizeType(tiles.size()); }
  SizeType nblocks() const { return tiles.empty() ? 0 : tiles.back().block + 1; }
  SizeType local_blocks(int r) const {
    SizeType c = 0, last = -1;
    for (auto t : mine[std::size_t(r)])
      if (tiles[std::size_t(t)].block != last) {
        last = tiles[std::size_t(t)].block;
        ++c;
      }
    return c;
  }
  SizeType next_local(int r, SizeType t) const {
    auto& m = mine[std::size_t(r)];
    return SizeType(std::lower_bound(m.begin(), m.end(), t) - m.begin());
  }
  std::string str() const { return cat("n ", n, " block ", bs, " tile ", nb, " offset ", off, " P ", P, " src ", src); }
};

#define EQ(a, b, key, ...) VK_EQ((a), (b), key, __VA_ARGS__)

template <Coord rc>
void check_dim(const Distribution& d, const Dim& m, int r) {
  auto& mine = m.mine[std::size_t(r)];
  auto& els = m.els[std::size_t(r)];
  EQ(d.size().get<rc>(), m.n, "size", "");
  EQ(d.nr_tiles().get<rc>(), m.nt(), "nr-tiles", "");
  EQ(d.local_size().get<rc>(), SizeType(els.size()), "local-size", "rank ", r);
  EQ(d.local_nr_tiles().get<rc>(), SizeType(mine.size()), "local-nr-tiles", "rank ", r);
  EQ(d.nr_blocks().get<rc>(), m.nblocks(), "nr-blocks", "");
  EQ(d.local_nr_blocks().get<rc>(), m.local_blocks(r), "local-nr-blocks", "rank ", r);
  EQ(d.tile_size().get<rc>(), m.nb, "tile-size", "");
  EQ(d.block_size().get<rc>(), m.bs, "block-size", "");
  EQ(d.source_rank_index().get<rc>(), m.norm_src, "source-rank", "");
  EQ(d.offset().get<rc>(), m.norm_off, "offset", "");
  EQ(d.rank_index().get<rc>(), r, "rank-index", "");
  EQ(d.grid_size().get<rc>(), m.P, "grid-size", "");
  for (SizeType t = 0; t < m.nt(); ++t) {
    auto& T = m.tiles[std::size_t(t)];
    EQ(d.rank_global_tile<rc>(t), T.owner, "tile-owner", "tile ", t);
    EQ(d.global_tile_size_of<rc>(t), T.end - T.begin, "tile-extent", "tile ", t);
    EQ(d.local_tile_from_global_tile<rc>(t), T.owner == r ? T.local : SizeType(-1), "local-tile", "tile ", t, " rank ", r);
    EQ(ext::local_tile_from_global_tile_any_rank<rc>(d, t), T.local, "local-tile-any", "tile ", t);
    EQ(d.next_local_tile_from_global_tile<rc>(t), m.next_local(r, t), "next-local-tile", "tile ", t, " rank ", r);
    EQ(d.global_element_from_global_tile_and_tile_element<rc>(t, 0), T.begin, "tile-begin", "tile ", t);
    EQ(d.global_element_from_global_tile_and_tile_element<rc>(t, T.end - T.begin - 1), T.end - 1, "tile-end", "tile ", t);
  }
  EQ(d.next_local_tile_from_global_tile<rc>(m.nt()), SizeType(mine.size()), "next-local-tile", "end, rank ", r);
  for (SizeType e = 0; e < m.n; ++e) {
    const SizeType t = m.tile_of[std::size_t(e)], el = m.el_of[std::size_t(e)];
    auto& T = m.tiles[std::size_t(t)];
    EQ(d.global_tile_from_global_element<rc>(e), t, "tile-of-element", "element ", e);
    EQ(d.tile_element_from_global_element<rc>(e), el, "tile-element", "element ", e);
    EQ(d.global_element_from_global_tile_and_tile_element<rc>(t, el), e, "element-of-tile", "element ", e);
    EQ(d.rank_global_element<rc>(e), T.owner, "element-owner", "element ", e);
    EQ(d.local_tile_from_global_element<rc>(e), T.owner == r ? T.local : SizeType(-1), "local-tile-of-element", "element ",
       e, " rank ", r);
    EQ(d.next_local_tile_from_global_element<rc>(e), m.next_local(r, t), "next-local-tile-of-element", "element ", e,
       " rank ", r);
    EQ(d.local_element_from_global_element<rc>(e), T.owner == r ? m.local_of[std::size_t(e)] : SizeType(-1),
       "local-element", "element ", e, " rank ", r);
    EQ(ext::distance_to_adjacent_tile<rc>(d, e), T.end - e, "distance-to-tile", "element ", e);
  }
  for (std::size_t l = 0; l < mine.size(); ++l) {
    auto& T = m.tiles[std::size_t(mine[l])];
    EQ(d.global_tile_from_local_tile<rc>(SizeType(l)), mine[l], "global-tile", "local ", l, " rank ", r);
    EQ(d.local_tile_size_of<rc>(SizeType(l)), T.end - T.begin, "local-tile-extent", "local ", l, " rank ", r);
  }
  for (std::size_t l = 0; l < els.size(); ++l) {
    const SizeType e = els[l], t = m.tile_of[std::size_t(e)], el = m.el_of[std::size_t(e)];
    const SizeType lt = m.tiles[std::size_t(t)].local;
    EQ(d.global_element_from_local_element<rc>(SizeType(l)), e, "element-of-local", "local ", l, " rank ", r);
    EQ(d.local_tile_from_local_element<rc>(SizeType(l)), lt, "local-tile-of-local", "local ", l, " rank ", r);
    EQ(d.tile_element_from_local_element<rc>(SizeType(l)), el, "tile-element-of-local", "local ", l, " rank ", r);
    EQ(d.local_element_from_local_tile_and_tile_element<rc>(lt, el), SizeType(l), "local-of-tile", "local ", l, " rank ", r);
    EQ(d.global_element_from_local_tile_and_tile_element<rc>(lt, el), e, "element-of-local-tile", "local ", l, " rank ", r);
  }
  // queries about other ranks
  EQ(ext::global_tile_offset<rc>(d), m.norm_off / m.nb, "tile-offset", "");
  EQ(ext::global_tile_element_offset<rc>(d), m.norm_off % m.nb, "tile-element-offset", "");
  for (int q = 0; q < m.P; ++q) {
    EQ(ext::local_tile_offset_on_rank<rc>(d, q), q == m.norm_src ? m.norm_off / m.nb : 0, "local-tile-offset", "rank ", q);
    EQ(ext::local_tile_element_offset_on_rank<rc>(d, q), q == m.norm_src ? m.norm_off % m.nb : 0, "local-tile-element-offset",
       "rank ", q);
    auto& oe = m.els[std::size_t(q)];
    for (std::size_t l = 0; l < oe.size(); ++l) {
      const SizeType e = oe[l], t = m.tile_of[std::size_t(e)];
      EQ(ext::global_element_from_local_element_on_rank<rc>(d, q, SizeType(l)), e, "element-on-rank", "local ", l, " rank ", q);
      EQ(ext::local_tile_from_local_element_on_rank<rc>(d, q, SizeType(l)), m.tiles[std::size_t(t)].local,
         "local-tile-on-rank", "local ", l, " rank ", q);
      EQ(ext::tile_element_from_local_element_on_rank<rc>(d, q, SizeType(l)), m.el_of[std::size_t(e)],
         "tile-element-on-rank", "local ", l, " rank ", q);
    }
    auto& om = m.mine[std::size_t(q)];
    for (std::size_t l = 0; l < om.size(); ++l)
      EQ(ext::global_tile_from_local_tile_on_rank<rc>(d, q, SizeType(l)), om[l], "tile-on-rank", "local ", l, " rank ", q);
  }
  // distances
  for (SizeType a = 0; a <= m.nt(); ++a)
    for (SizeType b = a; b <= m.nt(); ++b) {
      if (m.nt() > 8 && b != a && b != a + 1 && b != m.nt() && (a * 7 + b * 3) % 5)
        continue;
      SizeType want = a == b ? 0 : m.tiles[std::size_t(b - 1)].end - m.tiles[std::size_t(a)].begin;
      EQ(ext::global_tile_element_distance<rc>(d, a, b), want, "tile-distance", "tiles ", a, "..", b);
      SizeType lw = 0;
      for (SizeType t = a; t < b; ++t)
        if (m.tiles[std::size_t(t)].owner == r)
          lw += m.tiles[std::size_t(t)].end - m.tiles[std::size_t(t)].begin;
      EQ(ext::local_element_distance_from_global_tile<rc>(d, a, b), lw, "local-distance", "tiles ", a, "..", b, " rank ", r);
    }
  for (SizeType a = 0; a <= SizeType(mine.size()); ++a)
    for (SizeType b = a; b <= SizeType(mine.size()); ++b) {
      SizeType lw = 0;
      for (SizeType l = a; l < b; ++l)
        lw += m.tiles[std::size_t(mine[std::size_t(l)])].end - m.tiles[std::size_t(mine[std::size_t(l)])].begin;
      EQ(ext::local_element_distance_from_local_tile<rc>(d, a, b), lw, "local-distance-local", "local tiles ", a, "..", b,
         " rank ", r);
    }
}

void check2d(const Distribution& d, const Dim& R, const Dim& C, int rr, int rc, vk::Rng& g) {
  check_dim<Coord::Row>(d, R, rr);
  check_dim<Coord::Col>(d, C, rc);
  EQ(d.single_tile_per_block(), R.bs == R.nb && C.bs == C.nb, "single-tile-per-block", "");
  // 2D forms, sampled
  for (int k = 0; k < 6 && R.n > 0 && C.n > 0; ++k) {
    const SizeType i = g.range(0, R.n - 1), j = g.range(0, C.n - 1);
    const SizeType ti = R.tile_of[std::size_t(i)], tj = C.tile_of[std::size_t(j)];
    const SizeType ei = R.el_of[std::size_t(i)], ej = C.el_of[std::size_t(j)];
    auto &TI = R.tiles[std::size_t(ti)], &TJ = C.tiles[std::size_t(tj)];
    const GlobalElementIndex ge(i, j);
    const GlobalTileIndex gt(ti, tj);
    EQ(d.global_tile_index(ge), gt, "2d-tile", ge);
    EQ(d.tile_element_index(ge), TileElementIndex(ei, ej), "2d-tile-element", ge);
    EQ(d.global_element_index(gt, TileElementIndex(ei, ej)), ge, "2d-element", ge);
    EQ(d.rank_global_tile(gt), comm::Index2D(TI.owner, TJ.owner), "2d-owner", ge);
    EQ(d.tile_size_of(gt), TileElementSize(TI.end - TI.begin, TJ.end - TJ.begin), "2d-tile-size", ge);
    EQ(ext::global_tile_linear_index(d, ge), ti + tj * R.nt(), "linear-tile", ge);
    if (TI.owner == rr && TJ.owner == rc) {
      const LocalTileIndex lt(TI.local, TJ.local);
      EQ(d.local_tile_index(gt), lt, "2d-local", ge);
      EQ(d.global_tile_index(lt), gt, "2d-global", ge);
      EQ(d.tile_size_of(lt), TileElementSize(TI.end - TI.begin, TJ.end - TJ.begin), "2d-local-tile-size", ge);
      EQ(ext::local_tile_linear_index(d, lt), TI.local + TJ.local * SizeType(R.mine[std::size_t(rr)].size()), "linear-local", ge);
      const LocalTileIndex b(g.range(0, TI.local), g.range(0, TJ.local));
      SizeType w0 = 0, w1 = 0;
      for (SizeType l = b.row(); l < TI.local; ++l) {
        auto& t = R.tiles[std::size_t(R.mine[std::size_t(rr)][std::size_t(l)])];
        w0 += t.end - t.begin;
      }
      for (SizeType l = b.col(); l < TJ.local; ++l) {
        auto& t = C.tiles[std::size_t(C.mine[std::size_t(rc)][std::size_t(l)])];
        w1 += t.end - t.begin;
      }
      EQ(ext::local_element_distance_from_local_tile(d, b, lt), LocalElementSize(w0, w1), "2d-local-distance", b, lt);
    }
  }
  vk::count("distributions checked");
  vk::count("elements dealt", std::uint64_t(R.n + C.n));
}

// merging all tiles of a block into one
void check_merged(const Distribution& d, const Dim& R, const Dim& C, int rr, int rc, vk::Rng& g) {
  auto m = dlaf::matrix::internal::create_single_tile_per_block_distribution(d);
  Dim R1(R.n, R.bs, R.bs, R.off, R.P, R.src), C1(C.n, C.bs, C.bs, C.off, C.P, C.src);
  check2d(m, R1, C1, rr, rc, g);
  vk::count("merged distributions");
}

template <class D>
void value_semantics(const Distribution& d, D&& make_other) {
  Distribution a(d), b(d);
  VK_CHECK(a == d && !(a != d), "equality", "a copy differs");
  Distribution c(std::move(a));
  VK_CHECK(c == d, "move", "moved-to object differs");
  VK_CHECK(a == Distribution(), "moved-from", "moved-from object is not the default one");
  Distribution e = make_other();
  const Distribution e0 = e;
  e = std::move(b);
  VK_CHECK(e == d, "move-assign", "assigned object differs");
  VK_CHECK(b == Distribution(), "moved-from", "moved-from object is not the default one (assignment)");
  e = e0;
  VK_CHECK(e == e0, "copy-assign", "");
}

Distribution make(const Dim& R, const Dim& C, int rr, int rc, vk::Rng& g) {
  const GlobalElementSize size(R.n, C.n), block(R.bs, C.bs);
  const TileElementSize tile(R.nb, C.nb);
  const comm::Size2D grid(R.P, C.P);
  const comm::Index2D rank(rr, rc), src(R.src, C.src);
  const GlobalElementIndex off(R.off, C.off);
  const bool single = R.bs == R.nb && C.bs == C.nb;
  const bool most = g.chance(1, 3);
  const SizeType a = most ? R.off / R.nb : g.range(0, R.off / R.nb), b = most ? C.off / C.nb : g.range(0, C.off / C.nb);
  const GlobalTileIndex toff(a, b);
  const GlobalElementIndex rest(R.off - a * R.nb, C.off - b * C.nb);
  std::vector<int> ways{0, 1};
  if (single) {
    ways.push_back(2);
    ways.push_back(3);
    if (R.P == 1 && C.P == 1)
      ways.push_back(4);
  }
  // arguments left to their defaults where that denotes the same distribution
  if (R.off == 0 && C.off == 0) {
    ways.push_back(5);
    if (single)
      ways.push_back(6);
    if (single && R.P == 1 && C.P == 1)
      ways.push_back(7);
  }
  if (rest == GlobalElementIndex(0, 0)) {
    ways.push_back(8);
    if (single)
      ways.push_back(9);
  }
  switch (g.pick(ways)) {
    case 5: return Distribution(size, block, tile, grid, rank, src);
    case 6: return Distribution(size, tile, grid, rank, src);
    case 7: return Distribution(LocalElementSize(R.n, C.n), tile);
    case 8: vk::count("offsets in tiles only"); return Distribution(size, block, tile, grid, rank, src, toff);
    case 9: return Distribution(size, tile, grid, rank, src, toff);
    case 0: return Distribution(size, block, tile, grid, rank, src, off);
    case 1: return Distribution(size, block, tile, grid, rank, src, toff, rest);
    case 2: return Distribution(size, tile, grid, rank, src, off);
    case 3: return Distribution(size, tile, grid, rank, src, toff, rest);
    default: vk::count("local distributions"); return Distribution(LocalElementSize(R.n, C.n), tile, off);
  }
}

struct Par {
  SizeType n, nb, tpb, off;
  int P, src;
};
Par random_par(vk::Rng& g, SizeType nmax) {
  Par p;
  p.nb = g.chance(1, 3) ? g.range(1, 3) : g.range(1, 13);
  p.tpb = g.chance(1, 2) ? 1 : g.range(1, 4);
  p.P = g.irange(1, g.chance(1, 4) ? 7 : 4);
  p.src = g.irange(0, p.P - 1);
  const SizeType bs = p.nb * p.tpb;
  switch (g.irange(0, 5)) {
    case 0: p.off = 0; break;
    case 1: p.off = g.range(0, p.nb - 1); break;
    case 2: p.off = g.range(0, bs - 1); break;
    case 3: p.off = g.range(0, bs * (p.P + 2)); break;
    case 4: p.off = bs * g.range(0, 3); break;
    default: p.off = p.nb * g.range(0, 7); break;
  }
  switch (g.irange(0, 6)) {
    case 0: p.n = g.range(0, 2); break;
    case 1: p.n = g.range(0, p.nb); break;
    case 2: p.n = g.range(0, bs); break;
    case 3: p.n = bs * g.range(0, p.P + 1); break;
    default: p.n = g.range(0, nmax); break;
  }
  p.n = std::min<SizeType>(p.n, nmax);
  return p;
}
Dim dim(const Par& p) { return Dim(p.n, p.nb * p.tpb, p.nb, p.off, p.P, p.src); }

void random_case(vk::Rng& g, SizeType nmax) {
  const Par pr = random_par(g, nmax), pc = random_par(g, nmax);
  const Dim R = dim(pr), C = dim(pc);
  vk::case_begin(cat("rows [", R.str(), "] cols [", C.str(), "]"));
  if (R.n > 0 && C.n > 0)
    vk::nontrivial_current();
  SizeType tot_tiles = 0, tot_els = 0;
  const bool all = R.P * C.P <= 12;
  for (int rr = 0; rr < R.P; ++rr)
    for (int rc = 0; rc < C.P; ++rc) {
      if (!all && g.chance(1, 2))
        continue;
      Distribution d = make(R, C, rr, rc, g);
      check2d(d, R, C, rr, rc, g);
      tot_tiles += d.local_nr_tiles().linear_size();
      tot_els += d.local_size().linear_size();
    }
  if (all) {
    EQ(tot_tiles, R.nt() * C.nt(), "tiles-add-up", "");
    EQ(tot_els, R.n * C.n, "elements-add-up", "");
  }
  const int rr = g.irange(0, R.P - 1), rc = g.irange(0, C.P - 1);
  const Distribution d = make(R, C, rr, rc, g);
  check_merged(d, R, C, rr, rc, g);
  value_semantics(d, [&]() { return make(C, R, rc, rr, g); });
  VK_CHECK(d == make(R, C, rr, rc, g), "equality", "same parameters through different constructors differ");

  // equal exactly if everything that determines the dealing is equal
  auto key = [](const Dim& r, const Dim& c, int a, int b) {
    return std::array<SizeType, 14>{r.n, r.bs, r.nb, r.P, (r.src + r.off / r.bs) % r.P, r.off % r.bs, a,
                                    c.n, c.bs, c.nb, c.P, (c.src + c.off / c.bs) % c.P, c.off % c.bs, b};
  };
  for (int k = 0; k < 6; ++k) {
    Par q[2] = {pr, pc};
    int rk[2] = {rr, rc};
    const int w = g.irange(0, 1);
    Par& p = q[w];
    switch (g.irange(0, 6)) {
      case 0: p.n += g.range(-1, 1); break;
      case 1: p.nb += g.range(-1, 1); break;
      case 2: p.tpb += g.range(-1, 1); break;
      case 3: p.P = std::max(p.P + g.irange(-1, 1), std::max(p.src, rk[w]) + 1); break;
      case 4: p.src = g.irange(0, p.P - 1); break;
      case 5: p.off += g.range(-1, 1) * g.range(1, p.nb * p.tpb); break;
      default: rk[w] = g.irange(0, p.P - 1); break;
    }
    p.n = std::max<SizeType>(p.n, 0);
    p.nb = std::max<SizeType>(p.nb, 1);
    p.tpb = std::max<SizeType>(p.tpb, 1);
    p.off = std::max<SizeType>(p.off, 0);
    const Dim R2 = dim(q[0]), C2 = dim(q[1]);
    const bool same = key(R, C, rr, rc) == key(R2, C2, rk[0], rk[1]);
    const Distribution d2 = make(R2, C2, rk[0], rk[1], g);
    VK_CHECK((d == d2) == same && (d2 == d) == same && (d != d2) == !same, "equality", "rows [", R2.str(), "] cols [", C2.str(), "] rank ",
             rk[0], ",", rk[1], " called ", d == d2 ? "equal" : "different");
    vk::count(same ? "distributions equal" : "distributions different");
  }

  // chain of sub-distributions
  Distribution s = d;
  SizeType oi = 0, oj = 0;
  SizeType ni = R.n, nj = C.n;
  for (int k = 0; k < 3; ++k) {
    auto pick = [&](SizeType n, SizeType nb, SizeType& o, SizeType& len) {
      o = g.chance(1, 4) ? 0 : g.chance(1, 3) ? std::min(n, nb * g.range(0, 3)) : g.range(0, n);
      len = g.chance(1, 3) ? n - o : g.range(0, n - o);
    };
    SizeType o0, o1, l0, l1;
    pick(ni, R.nb, o0, l0);
    pick(nj, C.nb, o1, l1);
    Distribution sub(s, SubDistributionSpec{GlobalElementIndex(o0, o1), GlobalElementSize(l0, l1)});
    Dim R1(l0, R.bs, R.nb, R.off + oi + o0, R.P, R.src), C1(l1, C.bs, C.nb, C.off + oj + o1, C.P, C.src);
    check2d(sub, R1, C1, rr, rc, g);
    vk::count("sub-distributions");
    // elements keep their owners
    for (SizeType e = 0; e < l0; ++e)
      EQ(sub.rank_global_element<Coord::Row>(e), R.tiles[std::size_t(R.tile_of[std::size_t(oi + o0 + e)])].owner, "sub-owner", "row ", e);
    // helpers relating the sub-distribution with its parent
    const GlobalElementIndex org(o0, o1);
    if (l0 > 0 && l1 > 0) {
      VK_CHECK(ext::is_compatible_sub_distribution(s, org, sub), "sub-compatible", "a sub-distribution is called incompatible");
      for (int q = 0; q < 4; ++q) {
        const GlobalTileIndex st(g.range(0, sub.nr_tiles().rows() - 1), g.range(0, sub.nr_tiles().cols() - 1));
        const auto first = sub.global_element_index(st, TileElementIndex(0, 0));
        const GlobalElementIndex in_parent(first.row() + o0, first.col() + o1);
        EQ(ext::global_tile_index_from_sub_distribution(s, org, sub, st), s.global_tile_index(in_parent), "sub-tile", st);
        EQ(ext::tile_element_offset_from_sub_distribution(s, org, sub, st), s.tile_element_index(in_parent), "sub-tile-offset", st);
      }
    }
    oi += o0;
    oj += o1;
    ni = l0;
    nj = l1;
    s = sub;
  }
}

// what must not be accepted / must not depend on who computes it
void probes(vk::Rng& g, int n) {
  for (int k = 0; k < n; ++k) {
    const Par pr = random_par(g, 40), pc = random_par(g, 40);
    const Dim R = dim(pr), C = dim(pc);
    const Distribution d = make(R, C, 0, 0, g);
    const SizeType o0 = g.range(0, R.n), o1 = g.range(0, C.n);
    SizeType l0 = g.range(0, R.n - o0), l1 = g.range(0, C.n - o1);
    if (g.chance(1, 2))
      l0 = R.n - o0 + g.range(1, 3);
    else
      l1 = C.n - o1 + g.range(1, 3);
    vk::case_begin(cat("refused sub-distribution origin ", o0, ",", o1, " size ", l0, ",", l1, " of ", R.n, ",", C.n));
    vk::nontrivial_current();
    auto o = vk::run_forked([&]() {
      Distribution sub(d, SubDistributionSpec{GlobalElementIndex(o0, o1), GlobalElementSize(l0, l1)});
    });
    VK_CHECK(o == vk::Outcome::Terminated, "sub-out-of-range", "accepted: ", vk::outcome_name(o));
  }
  struct Bad {
    const char* what;
    std::function<void()> f;
  };
  const GlobalElementSize sz(10, 10), bs(4, 4);
  const TileElementSize ts(2, 2);
  const comm::Size2D gr(2, 3);
  std::vector<Bad> bad = {
      {"block not divisible by tile", [=]() { Distribution(sz, GlobalElementSize(5, 4), ts, gr, {0, 0}, {0, 0}); }},
      {"block not divisible by tile (cols)", [=]() { Distribution(sz, GlobalElementSize(4, 5), ts, gr, {0, 0}, {0, 0}); }},
      {"empty tile", [=]() { Distribution(sz, bs, TileElementSize(0, 2), gr, {0, 0}, {0, 0}); }},
      {"empty block", [=]() { Distribution(sz, GlobalElementSize(0, 4), ts, gr, {0, 0}, {0, 0}); }},
      {"rank outside", [=]() { Distribution(sz, bs, ts, gr, {2, 0}, {0, 0}); }},
      {"rank outside (cols)", [=]() { Distribution(sz, bs, ts, gr, {0, 3}, {0, 0}); }},
      {"source outside", [=]() { Distribution(sz, bs, ts, gr, {0, 0}, {2, 0}); }},
      {"source outside (cols)", [=]() { Distribution(sz, bs, ts, gr, {0, 0}, {0, -1}); }},
      {"negative size", [=]() { Distribution(GlobalElementSize(-1, 2), bs, ts, gr, {0, 0}, {0, 0}); }},
      {"empty grid", [=]() { Distribution(sz, bs, ts, comm::Size2D(0, 3), {0, 0}, {0, 0}); }},
      {"negative local size", [=]() { Distribution(LocalElementSize(-1, 2), ts); }},
      {"empty tile local", [=]() { Distribution(LocalElementSize(1, 2), TileElementSize(0, 1)); }},
      {"negative sub origin", [=]() {
         Distribution d(sz, bs, ts, gr, {0, 0}, {0, 0});
         Distribution(d, SubDistributionSpec{GlobalElementIndex(-1, 0), GlobalElementSize(1, 1)});
       }},
      {"negative sub size", [=]() {
         Distribution d(sz, bs, ts, gr, {0, 0}, {0, 0});
         Distribution(d, SubDistributionSpec{GlobalElementIndex(1, 0), GlobalElementSize(1, -1)});
       }},
  };
  for (auto& b : bad) {
    vk::case_begin(cat("refused: ", b.what));
    vk::nontrivial_current();
    auto o = vk::run_forked(b.f);
    VK_CHECK(o == vk::Outcome::Terminated, "invalid-accepted", b.what, ": ", vk::outcome_name(o));
  }
}

// sizes up to the limits of the index type, against 128-bit formulas
void large(vk::Rng& g, int n) {
  for (int k = 0; k < n; ++k) {
    const SizeType nb = g.chance(1, 2) ? g.range(1, 1000) : g.range(1, SizeType(1) << 31);
    const SizeType tpb = g.range(1, 5), bs = nb * tpb;
    const int P = g.irange(1, g.chance(1, 3) ? 3000 : 5), src = g.irange(0, P - 1), r = g.irange(0, P - 1);
    const SizeType lim = SizeType(1) << 61;
    const SizeType size = g.chance(1, 2) ? g.range(1, lim) : g.range(1, SizeType(1) << 34);
    const SizeType off = g.chance(1, 3) ? g.range(0, bs - 1) : g.chance(1, 2) ? g.range(0, lim) : bs * g.range(0, 6);
    vk::case_begin(cat("large n ", size, " block ", bs, " tile ", nb, " offset ", off, " P ", P, " src ", src, " rank ", r));
    vk::nontrivial_current();
    vk::count("large distributions");
    Distribution d(GlobalElementSize(size, 3), GlobalElementSize(bs, 4), TileElementSize(nb, 2), comm::Size2D(P, 1),
                   comm::Index2D(r, 0), comm::Index2D(src, 0), GlobalElementIndex(off, 0));
    // position of element e counted from the start of the block holding the first element
    const SizeType noff = off % bs;
    const int nsrc = int((I128(off / bs) + src) % P);
    EQ(d.offset().row(), noff, "offset", "large");
    EQ(d.source_rank_index().row(), nsrc, "source-rank", "large");
    const SizeType toff = noff / nb, eoff = noff % nb;
    const SizeType nt = SizeType((I128(size) + eoff + nb - 1) / nb);
    EQ(d.nr_tiles().rows(), nt, "nr-tiles", "large");
    auto count_before = [&](int rk, I128 p) {  // elements at positions [0, p) owned by rk (including the skipped ones)
      const int pos = (rk + P - nsrc) % P;
      const I128 round = I128(bs) * P;
      I128 in = p % round - I128(pos) * bs;
      in = in < 0 ? 0 : in > bs ? I128(bs) : in;
      return (p / round) * bs + in;
    };
    auto local_count = [&](int rk, I128 e) {  // elements in [0, e) owned by rk
      return SizeType(count_before(rk, e + noff) - count_before(rk, noff));
    };
    EQ(d.local_size().rows(), local_count(r, size), "local-size", "large");
    for (int q = 0; q < 8; ++q) {
      const SizeType e = q == 0 ? size - 1 : q == 1 ? 0 : g.range(0, size - 1);
      const I128 p = I128(e) + noff;
      const SizeType t = SizeType(p / nb) - toff;
      const int owner = int((p / bs + nsrc) % P);
      EQ(d.global_tile_from_global_element<Coord::Row>(e), t, "tile-of-element", "large ", e);
      EQ(d.rank_global_element<Coord::Row>(e), owner, "element-owner", "large ", e);
      EQ(d.local_element_from_global_element<Coord::Row>(e), owner == r ? local_count(r, e) : SizeType(-1), "local-element",
         "large ", e);
      EQ(d.tile_element_from_global_element<Coord::Row>(e), SizeType(p % nb) - (t == 0 ? eoff : 0), "tile-element", "large ", e);
    }
    if (d.local_size().rows() > 0)
      for (int q = 0; q < 4; ++q) {
        const SizeType l = q == 0 ? d.local_size().rows() - 1 : g.range(0, d.local_size().rows() - 1);
        const SizeType e = d.global_element_from_local_element<Coord::Row>(l);
        EQ(local_count(r, e), l, "element-of-local", "large ", l);
        EQ(int(((I128(e) + noff) / bs + nsrc) % P), r, "element-of-local", "large owner ", l);
      }
  }
}

#if 1
// Views over "everything from this element on" and "a panel from this element on": local tiles and their parts
void views(vk::Rng& g, int n) {
  for (int k = 0; k < n; ++k) {
    Par pr = random_par(g, 60), pc = random_par(g, 60);
    if (g.chance(9, 10)) {
      pr.n = std::max<SizeType>(pr.n, 1);
      pc.n = std::max<SizeType>(pc.n, 1);
    }
    const bool panel = g.chance(1, 2);
    if (panel) {
      pr.off = pc.off = 0;  // panel views count from aligned tiles
    }
    const Dim R = dim(pr), C = dim(pc);
    const int rr = g.irange(0, R.P - 1), rc = g.irange(0, C.P - 1);
    const Distribution d = make(R, C, rr, rc, g);
    if (R.n == 0 || C.n == 0) {
      vk::case_begin("view of an empty matrix");
      SizeType c = 0;
      SubMatrixView v(d, GlobalElementIndex(0, 0));
      for ([[maybe_unused]] auto i : v.iteratorLocal())
        ++c;
      EQ(c, SizeType(0), "view-empty", "");
      continue;
    }
    const SizeType i = g.range(0, R.n - 1), j = g.range(0, C.n - 1);
    SizeType width = C.n - j;
    if (panel)
      width = g.range(1, C.nb - C.el_of[std::size_t(j)]);
    vk::case_begin(cat(panel ? "panel" : "sub-matrix", " view at ", i, ",", j, " width ", width, " rows [", R.str(),
                       "] cols [", C.str(), "] rank ", rr, ",", rc));
    vk::nontrivial_current();
    vk::count("views");
    const SizeType jend = std::min(C.n, j + width);
    // expected local tiles with their parts
    std::map<std::pair<SizeType, SizeType>, std::array<SizeType, 4>> want;
    for (std::size_t a = 0; a < R.mine[std::size_t(rr)].size(); ++a)
      for (std::size_t b = 0; b < C.mine[std::size_t(rc)].size(); ++b) {
        auto &T = R.tiles[std::size_t(R.mine[std::size_t(rr)][a])], &U = C.tiles[std::size_t(C.mine[std::size_t(rc)][b])];
        const SizeType r0 = std::max(T.begin, i), r1 = T.end, c0 = std::max(U.begin, j), c1 = std::min(U.end, jend);
        if (r0 < r1 && c0 < c1)
          want[{SizeType(a), SizeType(b)}] = {r0 - T.begin, c0 - U.begin, r1 - r0, c1 - c0};
      }
    std::size_t seen = 0;
    auto walk = [&](auto&& v) {
      EQ(v.offsetElement(), GlobalElementIndex(i, j), "view-offset", "");
      EQ(v.offset(), GlobalTileIndex(R.tile_of[std::size_t(i)], C.tile_of[std::size_t(j)]), "view-tile-offset", "");
      for (auto ij : v.iteratorLocal()) {
        ++seen;
        auto it = want.find({ij.row(), ij.col()});
        if (it == want.end()) {
          vk::violation("view-extra-tile", cat("local tile ", ij, " is not part of the view"));
          continue;
        }
        const SubTileSpec s = v(ij);
        auto& w = it->second;
        EQ(s.origin, TileElementIndex(w[0], w[1]), "view-part-origin", ij);
        EQ(s.size, TileElementSize(w[2], w[3]), "view-part-size", ij);
      }
    };
    if (panel) {
      // the view is one tile wide; on ranks which do not own the panel column its range is not used
      if (C.tiles[std::size_t(C.tile_of[std::size_t(j)])].owner != rc)
        continue;
      SubPanelView v(d, GlobalElementIndex(i, j), width);
      EQ(v.cols(), width, "view-cols", "");
      walk(v);
    }
    else
      walk(SubMatrixView(d, GlobalElementIndex(i, j)));
    EQ(seen, want.size(), "view-tiles", "number of local tiles");
  }
}
#endif

int main() {
  auto g = vk::rng("c13");
  // default object
  vk::case_begin("default distribution");
  {
    Distribution d;
    VK_CHECK(d.size() == GlobalElementSize(0, 0) && d.nr_tiles() == GlobalTileSize(0, 0) && d.tile_size() == TileElementSize(1, 1) &&
                 d.grid_size() == comm::Size2D(1, 1),
             "default", "not the documented default");
  }
  const int n = vk::scale(900, 30000);
  for (int k = 0; k < n; ++k)
    random_case(g, k % 3 == 0 ? 12 : 60);
  large(g, vk::scale(6000, 300000));
#if 1
  views(g, vk::scale(4000, 100000));
#endif
  probes(g, vk::scale(40, 400));
  return vk::finish();
}
