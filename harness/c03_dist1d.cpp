// C03: 1D block-cyclic functions against explicit dealing of tiles, and against 128-bit formulas for huge values.
#include <limits>
#include <vector>

#include <dlaf/matrix/util_distribution.h>

#include <vk.hpp>

using namespace dlaf;
using namespace dlaf::util::matrix;
using vk::cat;
using I128 = __int128;

// Elements: explicit cutting of [0, n) into tiles with a shortened first tile.
void elements(SizeType nb, SizeType off, SizeType n) {
  vk::case_begin(cat("elements tile ", nb, " offset ", off, " n ", n));
  vk::nontrivial_current();
  SizeType tile = 0, el = 0, room = nb - off;
  for (SizeType e = 0; e < n; ++e) {
    if (el == room) {
      ++tile;
      el = 0;
      room = nb;
    }
    VK_EQ(tile_from_element(e, nb, off), tile, "tile-from-element", "e ", e);
    VK_EQ(tile_element_from_element(e, nb, off), el, "tile-element-from-element", "e ", e);
    VK_EQ(element_from_tile_and_tile_element(tile, el, nb, off), e, "element-from-tile", "e ", e);
    ++el;
  }
  vk::count("elements dealt", static_cast<std::uint64_t>(n));
}

// Tiles: deal blocks of tpb tiles (first block shortened by off tiles) round robin from src.
void tiles(SizeType tpb, int P, int src, SizeType off, SizeType n) {
  vk::case_begin(cat("tiles per block ", tpb, " grid ", P, " source ", src, " tile offset ", off, " n ", n));
  if (n > 0)
    vk::nontrivial_current();
  std::vector<int> owner(static_cast<std::size_t>(n));
  std::vector<std::vector<SizeType>> own(static_cast<std::size_t>(P));
  {
    int rank = src;
    SizeType in_block = off;
    for (SizeType t = 0; t < n; ++t) {
      if (in_block == tpb) {
        in_block = 0;
        rank = (rank + 1) % P;
      }
      owner[static_cast<std::size_t>(t)] = rank;
      own[static_cast<std::size_t>(rank)].push_back(t);
      ++in_block;
    }
  }
  for (SizeType t = 0; t < n; ++t)
    VK_EQ(rank_global_tile(t, tpb, P, src, off), owner[static_cast<std::size_t>(t)], "owner", "tile ", t);
  for (int r = 0; r < P; ++r) {
    auto& mine = own[static_cast<std::size_t>(r)];
    std::size_t next = 0;
    for (SizeType t = 0; t < n; ++t) {
      while (next < mine.size() && mine[next] < t)
        ++next;
      bool is_mine = next < mine.size() && mine[next] == t;
      VK_EQ(local_tile_from_global_tile(t, tpb, P, r, src, off), is_mine ? SizeType(next) : SizeType(-1), "local-tile",
            "tile ", t, " rank ", r);
      VK_EQ(next_local_tile_from_global_tile(t, tpb, P, r, src, off), SizeType(next), "next-local-tile", "tile ", t,
            " rank ", r);
    }
    for (std::size_t l = 0; l < mine.size(); ++l)
      VK_EQ(global_tile_from_local_tile(SizeType(l), tpb, P, r, src, off), mine[l], "global-tile", "local ", l, " rank ", r);
  }
  vk::count("tiles dealt", static_cast<std::uint64_t>(n));
  vk::count("ownership queries", static_cast<std::uint64_t>(n) * static_cast<std::uint64_t>(P));
}

// Random large values: 128-bit reference derived from "virtual" coordinates with the offsets prepended.
void big(vk::Rng& r, int n) {
  const SizeType top = std::numeric_limits<SizeType>::max();
  for (int k = 0; k < n; ++k) {
    SizeType nb = r.chance(1, 3) ? r.range(1, 1000) : r.chance(1, 2) ? r.range(1, SizeType(1) << 40) : r.range(1, top / 4);
    SizeType off = r.chance(1, 4) ? nb - 1 : r.range(0, nb - 1);
    SizeType e = r.chance(1, 3) ? r.range(0, 100000) : r.range(0, top - off);
    if (r.chance(1, 6))
      e = top - off;
    vk::case_begin(cat("large element ", e, " tile ", nb, " offset ", off));
    vk::nontrivial_current();
    I128 v = I128(e) + off;
    SizeType tile = SizeType(v / nb);
    SizeType el = SizeType(v % nb) - (tile == 0 ? off : 0);
    VK_EQ(tile_from_element(e, nb, off), tile, "tile-from-element", "large");
    VK_EQ(tile_element_from_element(e, nb, off), el, "tile-element-from-element", "large");
    VK_EQ(element_from_tile_and_tile_element(tile, el, nb, off), e, "element-from-tile", "large");
  }
  for (int k = 0; k < n; ++k) {
    SizeType tpb = r.chance(1, 2) ? r.range(1, 9) : r.chance(3, 4) ? r.range(1, SizeType(1) << 20) : r.range(1, std::numeric_limits<SizeType>::max() >> r.irange(3, 30));
    int P = r.chance(1, 2) ? r.irange(1, 9) : r.irange(1, r.chance(1, 4) ? std::numeric_limits<int>::max() / 2 : 20000);
    int src = r.irange(0, P - 1);
    SizeType off = r.range(0, tpb - 1);
    SizeType lim = std::numeric_limits<SizeType>::max() / 4;
    SizeType t = r.chance(1, 2) ? r.range(0, lim) : r.range(0, SizeType(1) << 33);
    vk::case_begin(cat("large tile ", t, " per block ", tpb, " grid ", P, " source ", src, " offset ", off));
    vk::nontrivial_current();
    I128 v = I128(t) + off;
    I128 block = v / tpb;
    int owner = int((block + src) % P);
    auto local = [&](int rk, I128 tile_v) {  // number of tiles of rank rk before virtual tile position tile_v
      int pos = (rk + P - src) % P;          // position of the rank counted from the source
      I128 round = I128(tpb) * P;
      I128 full = tile_v / round, rem = tile_v % round;
      I128 in = rem - I128(pos) * tpb;
      if (in < 0)
        in = 0;
      if (in > tpb)
        in = tpb;
      I128 c = full * tpb + in;
      if (pos == 0)
        c -= off;
      return SizeType(c);
    };
    VK_EQ(rank_global_tile(t, tpb, P, src, off), owner, "owner", "large");
    SizeType l = local(owner, v);
    VK_EQ(local_tile_from_global_tile(t, tpb, P, owner, src, off), l, "local-tile", "large, owner");
    VK_EQ(next_local_tile_from_global_tile(t, tpb, P, owner, src, off), l, "next-local-tile", "large, owner");
    VK_EQ(global_tile_from_local_tile(l, tpb, P, owner, src, off), t, "global-tile", "large, owner");
    for (int q = 0; q < 3; ++q) {
      int rk = q == 0 ? (owner + 1) % P : q == 1 ? (owner + P - 1) % P : r.irange(0, P - 1);
      VK_EQ(local_tile_from_global_tile(t, tpb, P, rk, src, off), rk == owner ? l : SizeType(-1), "local-tile", "large rank ",
            rk);
      VK_EQ(next_local_tile_from_global_tile(t, tpb, P, rk, src, off), local(rk, v), "next-local-tile", "large rank ", rk);
    }
    vk::count("large tuples");
  }
}

int main() {
  auto r = vk::rng("c03");
  // exhaustive small space
  const SizeType nbmax = vk::scale(9, 14);
  for (SizeType nb = 1; nb <= nbmax; ++nb)
    for (SizeType off = 0; off < nb; ++off)
      elements(nb, off, 4 * nb + 3);
  const int pmax = vk::scale(5, 7);
  const SizeType tmax = vk::scale(4, 5);
  for (SizeType tpb = 1; tpb <= tmax; ++tpb)
    for (int P = 1; P <= pmax; ++P)
      for (int src = 0; src < P; ++src)
        for (SizeType off = 0; off < tpb; ++off)
          tiles(tpb, P, src, off, tpb * P * 3 + 2);
  // random medium space
  int n = vk::scale(400, 10000);
  for (int k = 0; k < n; ++k) {
    SizeType nb = r.range(1, 70);
    elements(nb, r.range(0, nb - 1), r.range(0, 400));
    SizeType tpb = r.range(1, 12);
    int P = r.irange(1, 13);
    tiles(tpb, P, r.irange(0, P - 1), r.range(0, tpb - 1), r.range(0, 150));
  }
  big(r, vk::scale(20000, 500000));
  return vk::finish();
}
