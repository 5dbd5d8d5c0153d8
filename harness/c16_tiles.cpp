// C16: tile accesses of matrices. Random programs over matrices, references, sub-pipelines, retilings and sub-tiles; every
// element carries the number of the last access that wrote it, and every access records what it found and when it ran.
#include <array>
#include <atomic>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>

#include <pika/execution.hpp>
#include <pika/init.hpp>
#include <pika/runtime.hpp>

#include <vk.hpp>

#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/tile.h>
#include <umpire/ResourceManager.hpp>

using namespace dlaf;
using namespace dlaf::matrix;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using vk::cat;
using vk::Rng;
constexpr Device CPU = Device::CPU;
using Mat = Matrix<double, CPU>;
using CMat = Matrix<const double, CPU>;
using MRef = matrix::internal::MatrixRef<double, CPU>;
using CRef = matrix::internal::MatrixRef<const double, CPU>;
using RWS = ReadWriteTileSender<double, CPU>;
using ROS = ReadOnlyTileSender<double, CPU>;
using ROW = matrix::internal::TileAsyncRwMutexReadOnlyWrapper<double, CPU>;

std::atomic<std::uint64_t> ticks{1};
std::uint64_t tick() { return ticks.fetch_add(1, std::memory_order_relaxed); }

struct Rect {  // global elements
  SizeType i = 0, j = 0, m = 0, n = 0;
};
struct Node;
struct Access {
  int id;
  bool rw;      // writes
  int group;    // accesses of one split share their lock
  Node* node;
  Rect tile;    // the tile of the node that was requested
  Rect r;       // the part accessed
  bool fails = false;
  std::atomic<int> ran{0};
  std::uint64_t t0 = 0;
  std::atomic<std::uint64_t> t1{0};
  bool bad_shape = false;
  std::vector<double> seen;
};
struct Item {
  Access* a = nullptr;
  Node* n = nullptr;
};
struct Node {
  Node* parent = nullptr;
  int depth = 0;
  SizeType tm = 1, tn = 1;  // tile size, anchored at global (0,0)
  std::vector<Item> items;
  bool live = true, autonomous = false;
};
struct Root {
  Node node;
  std::vector<double> user;
  std::vector<char> is_element;
  SizeType m, n;
};

// end of the access: stamped just before the tile is given back
struct End {
  Access* a;
  explicit End(Access& a_) : a(&a_) {}
  End(End&& o) noexcept : a(std::exchange(o.a, nullptr)) {}
  ~End() {
    if (a)
      a->t1.store(tick(), std::memory_order_relaxed);
  }
};
void spin(unsigned us) {
  if (us) {
    timespec t{0, long(us) * 1000};
    nanosleep(&t, nullptr);
  }
}
void enter(Access& a, TileElementSize s) {
  a.t0 = tick();
  a.ran.fetch_add(1, std::memory_order_relaxed);
  a.bad_shape = s.rows() != a.r.m || s.cols() != a.r.n;
}
void body(Access& a, const Tile<const double, CPU>& t) {
  enter(a, t.size());
  if (a.bad_shape)
    return;
  for (SizeType j = 0; j < a.r.n; ++j)
    for (SizeType i = 0; i < a.r.m; ++i)
      a.seen.push_back(t({i, j}));
}
void body(Access& a, const Tile<double, CPU>& t) {
  body(a, static_cast<const Tile<const double, CPU>&>(t));
  if (a.bad_shape || !a.rw)
    return;
  for (SizeType j = 0; j < a.r.n; ++j)
    for (SizeType i = 0; i < a.r.m; ++i)
      t({i, j}) = double(a.id);
}
void body(Access& a, const ROW& w) { body(a, w.get()); }

template <class S>
void launch(S&& s, Access& a, int how, unsigned us) {
  auto f = [&a, us](auto t) {
    End e(a);
    body(a, t);
    spin(us);
  };
  auto k = [&a](auto t) {
    auto h = std::make_pair(std::move(t), End(a));
    body(a, h.first);
    return h;
  };
  switch (how) {
    case 0:
      return ex::start_detached(std::forward<S>(s) | ex::then(f));
    case 1:
      return ex::start_detached(std::forward<S>(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(f));
    default:
      return ex::start_detached(std::forward<S>(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(k) |
                                ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([us](auto) { spin(us); }));
  }
}

SizeType local_tiles_count(const Distribution& d) { return d.local_nr_tiles().rows() * d.local_nr_tiles().cols(); }

struct Program {
  Rng r;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::unique_ptr<Access>> accesses;
  std::vector<std::unique_ptr<Root>> roots;
  int groups = 0;
  std::string trace;
  struct Slot {
    std::optional<Mat> m;
    std::optional<CMat> c;
    Node* n = nullptr;
    Root* root = nullptr;
    std::unordered_set<SizeType> done;
    bool used() const { return m || c; }
    CMat& cm() { return m ? static_cast<CMat&>(*m) : *c; }
  };
  std::vector<Slot> slots{5};
  std::vector<std::function<void()>> pending, held;

  explicit Program(std::uint64_t s) : r(s) {}

  Access& access(Node& n, Rect tile, Rect part, bool rw, int group) {
    accesses.push_back(std::make_unique<Access>());
    Access& a = *accesses.back();
    a.id = int(accesses.size());
    a.rw = rw;
    a.group = group;
    a.node = &n;
    a.tile = tile;
    a.r = part;
    n.items.push_back({&a, nullptr});
    return a;
  }
  Node* child(Node& n, SizeType tm, SizeType tn) {
    nodes.push_back(std::make_unique<Node>());
    Node* c = nodes.back().get();
    c->parent = &n;
    c->depth = n.depth + 1;
    c->tm = tm;
    c->tn = tn;
    n.items.push_back({nullptr, c});
    return c;
  }
  void put(std::function<void()> f) {
    if (r.chance(1, 2))
      f();
    else
      pending.push_back(std::move(f));
  }
  static std::int64_t last(std::size_t n) { return std::int64_t(n) - 1; }
  void start_pending() {
    while (!pending.empty()) {
      const std::size_t k = std::size_t(r.range(0, last(pending.size())));
      auto f = std::move(pending[k]);
      pending.erase(pending.begin() + long(k));
      f();
    }
    while (!held.empty()) {
      const std::size_t k = std::size_t(r.range(0, last(held.size())));
      held[k] = nullptr;
      held.erase(held.begin() + long(k));
    }
  }
  void launch_later(RWS&& s, Access& a) {
    auto b = std::make_shared<RWS>(std::move(s));
    const int how = r.irange(0, 2);
    const unsigned us = r.chance(1, 5) ? unsigned(r.irange(1, 40)) : 0;
    put([b, &a, how, us]() { launch(std::move(*b), a, how, us); });
  }
  void launch_later(ROS&& s, Access& a) {
    auto b = std::make_shared<ROS>(std::move(s));
    const int how = r.irange(0, 2);
    const unsigned us = r.chance(1, 5) ? unsigned(r.irange(1, 40)) : 0;
    put([b, &a, how, us]() { launch(std::move(*b), a, how, us); });
  }

  // a piece of the tile, relative to it
  SubTileSpec random_spec(SizeType m, SizeType n) {
    const SizeType i = r.range(0, m), j = r.range(0, n);
    const SizeType a = r.chance(1, 3) ? m - i : r.range(0, m - i), b = r.chance(1, 3) ? n - j : r.range(0, n - j);
    return {{i, j}, {a, b}};
  }
  static Rect part(Rect t, const SubTileSpec& s) {
    return {t.i + s.origin.row(), t.j + s.origin.col(), s.size.rows(), s.size.cols()};
  }
  // disjoint pieces: a random grid of cuts, some left out
  std::vector<SubTileSpec> random_split(SizeType m, SizeType n) {
    std::vector<SizeType> ci{0, m}, cj{0, n};
    for (int k = r.irange(0, 2); k > 0; --k)
      ci.push_back(r.range(0, m));
    for (int k = r.irange(0, 2); k > 0; --k)
      cj.push_back(r.range(0, n));
    std::sort(ci.begin(), ci.end());
    std::sort(cj.begin(), cj.end());
    std::vector<SubTileSpec> s;
    for (std::size_t a = 0; a + 1 < ci.size(); ++a)
      for (std::size_t b = 0; b + 1 < cj.size(); ++b)
        if (r.chance(4, 5))
          s.push_back({{ci[a], cj[b]}, {ci[a + 1] - ci[a], cj[b + 1] - cj[b]}});
    for (std::size_t k = s.size(); k > 1; --k)
      std::swap(s[k - 1], s[std::size_t(r.range(0, SizeType(k) - 1))]);
    return s;
  }

  // the tile after a change of all of it
  RWS changed(RWS s, Node& n, Rect tile, Rect full, int group) {
    trace += "!";
    Access& a = access(n, tile, full, true, group);
    return std::move(s) | ex::then([&a](Tile<double, CPU> t) {
             End e(a);
             body(a, t);
             return t;
           });
  }

  // what is done with a granted read-write sender over `full` (part of tile `tile` of node n)
  void use_rw(RWS s, Node& n, Rect tile, Rect full, int group, int depth = 0) {
    switch (depth > 2 ? 9 : r.irange(0, 8)) {
      case 0: {
        const SubTileSpec sp = random_spec(full.m, full.n);
        trace += "/";
        vk::count("sub-tiles");
        return use_rw(splitTile(std::move(s), sp), n, tile, part(full, sp), group, depth + 1);
      }
      case 1:
      case 2: {
        const auto sp = random_split(full.m, full.n);
        trace += cat("%", sp.size());
        vk::count("disjoint splits");
        if (sp.empty()) {
          s = changed(std::move(s), n, tile, full, group);  // what was chained is done, although nobody gets a part
          vk::count("splits into nothing");
        }
        auto v = splitTileDisjoint(std::move(s), sp);
        VK_EQ(v.size(), sp.size(), "split-count", "");
        for (std::size_t k = 0; k < v.size(); ++k)
          if (r.chance(1, 10))
            put([b = std::make_shared<RWS>(std::move(v[k]))]() mutable { b.reset(); });
          else
            use_rw(std::move(v[k]), n, tile, part(full, sp[k]), group, depth + 1);
        return;
      }
      case 3: {
        trace += "&";
        vk::count("shared read-write tiles");
        return use_ro(shareReadWriteTile(std::move(s)), n, tile, full, group, depth + 1, true);
      }
      default:
        if (r.chance(1, 6))
          s = changed(std::move(s), n, tile, full, group);
        launch_later(std::move(s), access(n, tile, full, true, group));
    }
  }
  void use_ro(ROS s, Node& n, Rect tile, Rect full, int group, int depth = 0, bool shared = false) {
    switch (depth > 2 ? 9 : r.irange(0, 8)) {
      case 0: {
        const SubTileSpec sp = random_spec(full.m, full.n);
        trace += "/";
        vk::count("sub-tiles");
        return use_ro(splitTile(std::move(s), sp), n, tile, part(full, sp), group, depth + 1, shared);
      }
      case 1: {
        std::vector<SubTileSpec> sp;
        for (int k = r.irange(0, 3); k > 0; --k)
          sp.push_back(random_spec(full.m, full.n));
        trace += cat("%", sp.size());
        vk::count("read-only splits");
        auto v = splitTile(s, sp);
        VK_EQ(v.size(), sp.size(), "split-count", "");
        for (std::size_t k = 0; k < v.size(); ++k)
          use_ro(v[k], n, tile, part(full, sp[k]), group, depth + 1, shared);
        if (r.chance(1, 2))
          use_ro(std::move(s), n, tile, full, group, depth + 1, shared);
        return;
      }
      case 2: {
        trace += "c";
        ROS copy = s;
        use_ro(std::move(copy), n, tile, full, group, depth + 1, shared);
        return use_ro(std::move(s), n, tile, full, group, depth + 1, shared);
      }
      default:
        launch_later(std::move(s), access(n, tile, full, false, group));
    }
  }

  Rect tile_rect(const Distribution& d, GlobalTileIndex t) const {
    const SizeType i = t.row() * d.tile_size().rows(), j = t.col() * d.tile_size().cols();
    return {i, j, std::min(d.tile_size().rows(), d.size().rows() - i), std::min(d.tile_size().cols(), d.size().cols() - j)};
  }
  std::optional<LocalTileIndex> random_tile(Slot& s) {
    const Distribution& d = s.cm().distribution();
    const SizeType n = local_tiles_count(d);
    if (n == 0)
      return {};
    const SizeType k = r.range(0, n - 1);
    if (s.done.count(k))
      return {};
    return LocalTileIndex(k % d.local_nr_tiles().rows(), k / d.local_nr_tiles().rows());
  }

  void request(Slot& s) {
    const auto l = random_tile(s);
    if (!l)
      return;
    const Distribution& d = s.cm().distribution();
    const GlobalTileIndex g = d.global_tile_index(*l);
    const Rect t = tile_rect(d, g);
    const bool by_global = r.chance(1, 2);
    const int group = groups++;
    if (s.m && r.chance(1, 2)) {
      trace += " w";
      use_rw(by_global ? s.m->readwrite(g) : s.m->readwrite(*l), *s.n, t, t, group);
    }
    else {
      trace += " r";
      use_ro(by_global ? s.cm().read(g) : s.cm().read(*l), *s.n, t, t, group);
    }
  }
  // through a reference to a part of the matrix
  void through_ref(Slot& s) {
    const Distribution& d = s.cm().distribution();
    if (!s.done.empty() || d.size().isEmpty())
      return;
    const SizeType oi = r.range(0, d.size().rows() - 1), oj = r.range(0, d.size().cols() - 1);
    const SizeType m = r.chance(1, 3) ? d.size().rows() - oi : r.range(1, d.size().rows() - oi);
    const SizeType n = r.chance(1, 3) ? d.size().cols() - oj : r.range(1, d.size().cols() - oj);
    const matrix::internal::SubMatrixSpec spec{{oi, oj}, {m, n}};
    trace += cat(" ref(", oi, ",", oj, " ", m, "x", n, ")");
    vk::count("references");
    const bool rw_ref = s.m && r.chance(2, 3);
    std::optional<MRef> a;
    std::optional<CRef> b;
    if (rw_ref)
      a.emplace(*s.m, spec);
    else
      b.emplace(s.cm(), spec);
    const Distribution& rd = a ? a->distribution() : b->distribution();
    for (int k = r.irange(1, 4); k > 0; --k) {
      const LocalTileSize nl = rd.local_nr_tiles();
      if (nl.rows() * nl.cols() == 0)
        return;
      const LocalTileIndex l(r.range(0, nl.rows() - 1), r.range(0, nl.cols() - 1));
      const GlobalTileIndex g = rd.global_tile_index(l);
      // the tile of the parent that this tile of the reference is cut from
      const SizeType pi = oi / d.tile_size().rows() + g.row(), pj = oj / d.tile_size().cols() + g.col();
      const Rect t = tile_rect(d, {pi, pj});
      const SizeType i0 = std::max(t.i, oi), j0 = std::max(t.j, oj);
      const Rect p{i0, j0, std::min(t.i + t.m, oi + m) - i0, std::min(t.j + t.n, oj + n) - j0};
      const int group = groups++;
      if (a && r.chance(1, 2))
        use_rw(r.chance(1, 2) ? a->readwrite(l) : a->readwrite(g), *s.n, t, p, group);
      else {
        CRef& c = a ? static_cast<CRef&>(*a) : *b;
        use_ro(r.chance(1, 2) ? c.read(l) : c.read(g), *s.n, t, p, group);
      }
    }
  }
  // one task over two tiles of the matrix
  void pair(Slot& s) {
    const auto x = random_tile(s), y = random_tile(s);
    if (!x || !y || *x == *y || !s.m)
      return;
    const Distribution& d = s.cm().distribution();
    const Rect tx = tile_rect(d, d.global_tile_index(*x)), ty = tile_rect(d, d.global_tile_index(*y));
    trace += " pair";
    Access& a = access(*s.n, tx, tx, false, groups++);
    Access& b = access(*s.n, ty, ty, true, groups++);
    auto w = std::make_shared<decltype(ex::when_all(s.cm().read(*x), s.m->readwrite(*y)))>(
        ex::when_all(s.cm().read(*x), s.m->readwrite(*y)));
    const bool pool = r.chance(2, 3);
    put([w, &a, &b, pool]() {
      auto f = [&a, &b](auto p, auto q) {
        End e(a), g(b);
        body(a, p);
        body(b, q);
      };
      if (pool)
        ex::start_detached(std::move(*w) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(f));
      else
        ex::start_detached(std::move(*w) | ex::then(f));
    });
  }

  void close(Slot& s) {
    if (s.n)
      s.n->live = false;
    s.n = nullptr;
    s.root = nullptr;
    s.done.clear();
  }
  static bool any_live(const Node& n) {
    if (n.live && !n.autonomous)
      return true;
    for (auto& it : n.items)
      if (it.n && any_live(*it.n))
        return true;
    return false;
  }
  bool earlier_live(const Node* n) const {
    for (const Node* c = n; c->parent; c = c->parent)
      for (auto& it : c->parent->items) {
        if (it.n == c)
          break;
        if (it.n && any_live(*it.n))
          return true;
      }
    for (auto& it : n->items)
      if (it.n && any_live(*it.n))
        return true;
    return false;
  }

  // a sub-matrix with its own queue: the way it is made and the resulting tile size
  struct Sub {
    std::optional<Mat> m;
    std::optional<CMat> c;
    SizeType tm, tn;
    std::string how;
  };
  std::optional<Sub> make_sub(Slot& s) {
    if (!s.done.empty())
      return {};
    const Distribution& d = s.cm().distribution();
    Sub q;
    q.tm = d.tile_size().rows();
    q.tn = d.tile_size().cols();
    if (d.single_tile_per_block() && r.chance(1, 2)) {
      SizeType km, kn;
      do
        km = r.range(1, q.tm);
      while (q.tm % km);
      do
        kn = r.range(1, q.tn);
      while (q.tn % kn);
      const LocalTileSize k(km, kn);
      q.tm /= km;
      q.tn /= kn;
      q.how = cat("retile", km, "x", kn);
      vk::count("retiled sub-pipelines");
      if (r.chance(1, 3)) {  // of the leading part, through a reference
        if (s.m && r.chance(1, 2)) {
          MRef ref(*s.m);
          q.m.emplace(r.chance(1, 4) ? ref.retiledSubPipeline(k) : ref.retiled_sub_pipeline(k));
        }
        else {
          CRef ref(s.cm());
          q.c.emplace(r.chance(1, 4) ? ref.retiledSubPipelineConst(k) : ref.retiled_sub_pipeline_const(k));
        }
      }
      else if (s.m && r.chance(2, 3))
        q.m.emplace(r.chance(1, 4) ? s.m->retiledSubPipeline(k) : s.m->retiled_sub_pipeline(k));
      else
        q.c.emplace(r.chance(1, 4) ? s.cm().retiledSubPipelineConst(k) : s.cm().retiled_sub_pipeline_const(k));
      const auto& nd = q.m ? q.m->distribution() : q.c->distribution();
      VK_CHECK(nd.tile_size() == TileElementSize(q.tm, q.tn) && nd.block_size() == d.block_size() && nd.size() == d.size(),
               "retiled-shape", "tile ", nd.tile_size(), " of ", q.how);
    }
    else {
      q.how = "sub";
      vk::count("sub-pipelines");
      if (s.m && r.chance(2, 3))
        q.m.emplace(r.chance(1, 4) ? s.m->subPipeline() : s.m->sub_pipeline());
      else
        q.c.emplace(r.chance(1, 4) ? s.cm().subPipelineConst() : s.cm().sub_pipeline_const());
    }
    if (q.c)
      q.how += "-const";
    return q;
  }

  struct Fragment {
    Sub s;
    struct Op {
      Access* a;
      LocalTileIndex l;
      int how;
      unsigned us;
    };
    std::vector<Op> ops;
    void operator()() {
      for (auto& o : ops)
        if (o.a->rw)
          launch(s.m->readwrite(o.l), *o.a, o.how, o.us);
        else
          launch((s.m ? static_cast<CMat&>(*s.m) : *s.c).read(o.l), *o.a, o.how, o.us);
      s.m.reset();
      s.c.reset();
    }
  };
  void fragment(Slot& s) {
    auto q = make_sub(s);
    if (!q)
      return;
    Node* c = child(*s.n, q->tm, q->tn);
    c->autonomous = true;
    Fragment f{std::move(*q), {}};
    const Distribution& d = f.s.m ? f.s.m->distribution() : f.s.c->distribution();
    const LocalTileSize nl = d.local_nr_tiles();
    if (nl.rows() * nl.cols() > 0)
      for (int k = r.irange(0, 6); k > 0; --k) {
        const LocalTileIndex l(r.range(0, nl.rows() - 1), r.range(0, nl.cols() - 1));
        const Rect t = tile_rect(d, d.global_tile_index(l));
        const bool rw = f.s.m && r.chance(1, 2);
        f.ops.push_back({&access(*c, t, t, rw, groups++), l, r.irange(0, 2), r.chance(1, 5) ? 20u : 0u});
      }
    trace += cat(" task-", f.s.how, "(", f.ops.size(), ")");
    vk::count("matrices moved into tasks");
    ex::start_detached(ex::schedule(ex::thread_pool_scheduler{}) | ex::then([f = std::move(f)]() mutable { f(); }));
  }

  void create(Slot& s) {
    roots.push_back(std::make_unique<Root>());
    Root& root = *roots.back();
    // highly composite tile sizes, so that they can be retiled
    const SizeType ts[] = {1, 2, 3, 4, 6, 8, 12};
    const SizeType tm = r.pick(std::vector<SizeType>(ts, ts + 7)), tn = r.pick(std::vector<SizeType>(ts, ts + 7));
    root.m = r.chance(1, 12) ? 0 : r.range(1, 3 * tm);
    root.n = r.chance(1, 12) ? 0 : r.range(1, 3 * tn);
    const bool dist = r.chance(1, 3);
    const comm::Size2D grid = dist ? comm::Size2D(r.irange(1, 2), r.irange(1, 2)) : comm::Size2D(1, 1);
    const comm::Index2D rank(r.irange(0, grid.rows() - 1), r.irange(0, grid.cols() - 1));
    const comm::Index2D src(r.irange(0, grid.rows() - 1), r.irange(0, grid.cols() - 1));
    const SizeType kr = r.chance(1, 4) ? r.range(1, 3) : 1, kc = r.chance(1, 4) ? r.range(1, 3) : 1;
    const Distribution d(GlobalElementSize(root.m, root.n), GlobalElementSize(tm * kr, tn * kc), TileElementSize(tm, tn), grid, rank, src);
    trace += cat(" new", root.m, "x", root.n, "/", tm, "x", tn);
    root.node.tm = tm;
    root.node.tn = tn;
    const SizeType lr = d.local_size().rows(), lc = d.local_size().cols();
    bool is_const = false;
    if (r.chance(1, 2)) {
      const SizeType ld = std::max<SizeType>(1, lr) + r.range(0, 3);
      root.user.assign(std::size_t(lr * lc == 0 ? 0 : ld * (lc - 1) + lr), -7.0);
      root.is_element.assign(root.user.size(), 0);
      for (SizeType j = 0; j < lc; ++j)
        for (SizeType i = 0; i < lr && !root.user.empty(); ++i) {
          root.user[std::size_t(i + j * ld)] = 0;
          root.is_element[std::size_t(i + j * ld)] = 1;
        }
      is_const = r.chance(1, 6);
      if (is_const)
        s.c.emplace(ColMajorLayout(d, ld), static_cast<const double*>(root.user.data()));
      else
        s.m.emplace(ColMajorLayout(d, ld), root.user.data());
    }
    else {
      const AllocationLayout lay[] = {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles};
      s.m.emplace(d, AllocationSpec(lay[r.irange(0, 2)], r.chance(1, 2) ? Ld::Compact : Ld::Padded));
      for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
        for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
          auto t = tt::sync_wait(s.m->readwrite(LocalTileIndex(i, j)));
          for (SizeType b = 0; b < t.size().cols(); ++b)
            for (SizeType a = 0; a < t.size().rows(); ++a)
              t({a, b}) = 0;
        }
    }
    s.root = &root;
    s.n = &root.node;
  }

  void step() {
    const std::size_t si = std::size_t(r.irange(0, 4));
    Slot& s = slots[si];
    if (!s.used() || !s.n) {
      s.m.reset();
      s.c.reset();
      close(s);
      create(s);
      return;
    }
    const std::size_t di = std::size_t(r.irange(0, 4));
    Slot& d = slots[di];
    switch (r.irange(0, 22)) {
      default:
        return request(s);
      case 0:
      case 1:
        return through_ref(s);
      case 2:
      case 3:
        return pair(s);
      case 4:
      case 5:
        return fragment(s);
      case 6:
      case 7:
      case 8:
      case 9: {
        if (di == si)
          return;
        auto q = make_sub(s);
        if (!q)
          return;
        Node* c = child(*s.n, q->tm, q->tn);
        Root* root = s.root;
        trace += cat(" ", q->how, si, ">", di);
        if (q->m && d.m && r.chance(1, 2))
          *d.m = std::move(*q->m);  // over a live matrix
        else if (q->c && d.c && r.chance(1, 2))
          *d.c = std::move(*q->c);
        else {
          d.m.reset();
          d.c.reset();
          if (q->m)
            d.m.emplace(std::move(*q->m));
          else
            d.c.emplace(std::move(*q->c));
        }
        close(d);
        d.n = c;
        d.root = root;
        return;
      }
      case 10: {
        if (di == si)
          return;
        trace += cat(" mv", si, ">", di);
        vk::count("matrices moved");
        if (s.m && d.m && r.chance(1, 2))
          *d.m = std::move(*s.m);
        else if (s.c && d.c && r.chance(1, 2))
          *d.c = std::move(*s.c);
        else {
          d.m.reset();
          d.c.reset();
          if (s.m)
            d.m.emplace(std::move(*s.m));
          else
            d.c.emplace(std::move(*s.c));
        }
        close(d);
        d.n = s.n;
        d.root = s.root;
        d.done = s.done;
        s.n = nullptr;
        s.root = nullptr;
        s.done.clear();
        s.m.reset();
        s.c.reset();
        return;
      }
      case 11:
      case 12:
        trace += " drop";
        s.m.reset();
        s.c.reset();
        return close(s);
      case 13: {
        const auto l = random_tile(s);
        if (!l)
          return;
        trace += " done";
        vk::count("tiles released early");
        const Distribution& dd = s.cm().distribution();
        if (r.chance(1, 2))
          s.cm().done(*l);
        else
          s.cm().done(dd.global_tile_index(*l));
        s.done.insert(l->row() + l->col() * dd.local_nr_tiles().rows());
        return;
      }
      case 14: {  // all accesses requested so far must be over afterwards
        start_pending();
        if (!s.done.empty() || earlier_live(s.n))
          return;
        trace += " wait";
        vk::count("waits for all tiles");
        r.chance(1, 4) ? s.cm().waitLocalTiles() : s.cm().wait_local_tiles();
        std::vector<const Access*> all;
        flatten(*s.n, all);
        for (auto* a : all)
          VK_CHECK(a->ran.load() == 1 && a->t1.load() != 0, "wait-returned-early", "access ", a->id, " had not finished in", trace);
        return;
      }
      case 15:
      case 16: {  // two readers, or one writer, in the program's own hands
        start_pending();
        const auto l = random_tile(s);
        if (!l || earlier_live(s.n))
          return;
        const Distribution& dd = s.cm().distribution();
        const Rect t = tile_rect(dd, dd.global_tile_index(*l));
        trace += " get";
        vk::count("waits for a grant");
        if (s.m && r.chance(1, 2)) {
          Access& a = access(*s.n, t, t, true, groups++);
          auto x = std::make_shared<std::pair<Tile<double, CPU>, std::optional<End>>>(tt::sync_wait(s.m->readwrite(*l)), std::nullopt);
          body(a, x->first);
          x->second.emplace(a);
          if (r.chance(1, 2))
            held.push_back([x]() {});
        }
        else {
          Access &a = access(*s.n, t, t, false, groups++), &b = access(*s.n, t, t, false, groups++);
          auto x = std::make_shared<std::pair<ROW, std::optional<End>>>(tt::sync_wait(s.cm().read(*l)), std::nullopt);
          body(a, x->first);
          x->second.emplace(a);
          auto y = tt::sync_wait(s.cm().read(*l));
          {
            End e(b);
            body(b, y);
          }
          if (r.chance(1, 2))
            held.push_back([x, y]() {});
        }
        return;
      }
      case 17: {  // work that fails: its dependants fail, later accesses go on
        start_pending();
        const auto l = random_tile(s);
        if (!l || earlier_live(s.n) || !s.m)
          return;
        trace += " throw";
        vk::count("failing accesses");
        const Distribution& dd = s.cm().distribution();
        const Rect t = tile_rect(dd, dd.global_tile_index(*l));
        struct Fail {};
        const int how = r.irange(0, 3);
        int failed = 0, expected = 1;
        auto fails = [&](auto&& snd) {
          try {
            tt::sync_wait(std::move(snd));
          }
          catch (const Fail&) {
            ++failed;
          }
        };
        auto bad = [&]() -> RWS { return s.m->readwrite(*l) | ex::then([](Tile<double, CPU> x) -> Tile<double, CPU> { throw Fail{}; return x; }); };
        auto drop = ex::then([](auto) {});
        if (how == 0)
          fails(bad() | drop);
        else if (how == 1) {
          ROS a = shareReadWriteTile(bad()), b = a;
          expected = 2;
          fails(std::move(a) | drop);
          fails(std::move(b) | drop);
        }
        else if (how == 2) {
          auto v = splitTileDisjoint(bad(), {{{0, 0}, {0, 0}}, {{0, 0}, {t.m, t.n}}});
          expected = 2;
          for (auto& x : v)
            fails(std::move(x) | drop);
        }
        else {
          ROS a = splitTile(ROS(shareReadWriteTile(bad())), {{0, 0}, {t.m, t.n}});
          fails(std::move(a) | drop);
        }
        VK_EQ(failed, expected, "failure-lost", "way ", how, " in", trace);
        return;
      }
    }
  }

  void flatten(const Node& n, std::vector<const Access*>& out) const {
    for (auto& i : n.items)
      if (i.a)
        out.push_back(i.a);
      else
        flatten(*i.n, out);
  }
  // the node whose tiles order the two accesses
  static const Node* common(const Access& x, const Access& y) {
    const Node *a = x.node, *b = y.node;
    while (a != b)
      if (a->depth >= b->depth)
        a = a->parent;
      else
        b = b->parent;
    return a;
  }
  void verify(Root& root) {
    std::vector<const Access*> all;
    flatten(root.node, all);
    std::vector<double> now(std::size_t(root.m * root.n), 0.0);
    for (auto* a : all) {
      VK_CHECK(a->ran.load() == 1 && a->t1.load() != 0, "granted-once", "access ", a->id, " ran ", a->ran.load(), " times in", trace);
      VK_CHECK(!a->bad_shape, "tile-shape", "access ", a->id, " expected a tile of ", a->r.m, "x", a->r.n, " in", trace);
      if (a->ran.load() != 1 || a->bad_shape)
        return;
      std::size_t k = 0;
      for (SizeType j = 0; j < a->r.n; ++j)
        for (SizeType i = 0; i < a->r.m; ++i, ++k) {
          double& e = now[std::size_t(a->r.i + i + (a->r.j + j) * root.m)];
          if (a->seen[k] != e) {
            vk::violation(a->rw ? "order-rw" : "order-ro", cat("access ", a->id, " found ", a->seen[k], " in element (", a->r.i + i, ",",
                                                               a->r.j + j, ") instead of ", e, " in", trace));
            return;
          }
          if (a->rw)
            e = double(a->id);
        }
      vk::count("grants checked");
    }
    for (std::size_t y = 0; y < all.size(); ++y)
      for (std::size_t x = 0; x < y; ++x) {
        const Access &a = *all[x], &b = *all[y];
        if ((!a.rw && !b.rw) || a.group == b.group)
          continue;
        const Node* n = common(a, b);
        if (a.tile.i / n->tm != b.tile.i / n->tm || a.tile.j / n->tn != b.tile.j / n->tn)
          continue;
        vk::count("ordered pairs checked");
        if (a.t1.load() > b.t0) {
          vk::violation("overlap", cat("access ", b.id, b.rw ? " (rw)" : " (ro)", " began before access ", a.id, a.rw ? " (rw)" : " (ro)",
                                       " of the same tile had ended in", trace));
          return;
        }
      }
    bool overlap = false;
    for (std::size_t y = 1; y < all.size() && !overlap; ++y)
      for (std::size_t x = 0; x < y && !overlap; ++x)
        overlap = all[x]->t1.load() > all[y]->t0 && all[y]->t1.load() > all[x]->t0;
    if (overlap)
      vk::count("matrices with overlapping accesses");
  }
  // memory of the user at the end: the last writers, and nothing between the columns
  void verify_user(Root& root) {
    std::vector<const Access*> all;
    flatten(root.node, all);
    for (std::size_t k = 0; k < root.user.size(); ++k)
      if (!root.is_element[k] && root.user[k] != -7.0) {
        vk::violation("padding", cat("memory between columns was written in", trace));
        return;
      }
  }

  void run() {
    vk::case_begin("program");
    const int steps = r.irange(2, 40);
    for (int k = 0; k < steps; ++k) {
      step();
      vk::case_update("program:" + trace);
    }
    std::vector<int> order;
    for (int i = 0; i < 5; ++i)
      order.insert(order.begin() + r.irange(0, i), i);
    const int when = r.irange(0, 5);
    for (int i = 0; i < 5; ++i) {
      if (i == when)
        start_pending();
      auto& s = slots[std::size_t(order[std::size_t(i)])];
      s.m.reset();
      s.c.reset();
      close(s);
    }
    start_pending();
    pika::wait();
    for (int k = 0; k < 2000 && (vkp::live_ops.load() || vkp::detached.load()); ++k) {
      usleep(100);
      pika::wait();
    }
    VK_CHECK(vkp::live_ops.load() == 0 && vkp::detached.load() == 0, "lost-work", vkp::live_ops.load(), " operations never completed after", trace);
    for (auto& root : roots) {
      verify(*root);
      verify_user(*root);
    }
    vk::nontrivial("program:" + trace);
  }
};

// a request to write overlapping parts at the same time is refused, whatever the parts; one for disjoint parts is not
void refused_splits(int argc, char** argv) {
  Rng r = vk::rng("refused splits");
  const int n = vk::scale(160, 1500);
  for (int k = 0; k < n; ++k) {
    const SizeType m = r.chance(1, 20) ? r.range(100, 5000) : r.range(1, 9), nn = r.chance(1, 20) ? r.range(100, 5000) : r.range(1, 9);
    const int parts = r.irange(2, 5);
    std::vector<SubTileSpec> sp;
    for (int q = 0; q < parts; ++q) {
      SizeType i = r.range(0, m), j = r.range(0, nn);
      SizeType a = r.range(0, m - i), b = r.range(0, nn - j);
      // parts which touch or overlap an earlier one in a single row or column
      if (q && r.chance(1, 2)) {
        const auto& o = sp[std::size_t(r.irange(0, q - 1))];
        const SizeType off = r.range(0, 1);
        if (r.chance(1, 2))
          i = std::max<SizeType>(0, std::min(m, o.origin.row() + o.size.rows() - off)), a = r.range(0, m - i);
        else
          j = std::max<SizeType>(0, std::min(nn, o.origin.col() + o.size.cols() - off)), b = r.range(0, nn - j);
      }
      sp.push_back({{i, j}, {a, b}});
    }
    bool overlap = false;
    std::string what;
    for (std::size_t x = 0; x < sp.size(); ++x) {
      what += cat(" ", sp[x].origin, "+", sp[x].size);
      for (std::size_t y = 0; y < x; ++y) {
        const SizeType i0 = std::max(sp[x].origin.row(), sp[y].origin.row()), j0 = std::max(sp[x].origin.col(), sp[y].origin.col());
        const SizeType i1 = std::min(sp[x].origin.row() + sp[x].size.rows(), sp[y].origin.row() + sp[y].size.rows());
        const SizeType j1 = std::min(sp[x].origin.col() + sp[x].size.cols(), sp[y].origin.col() + sp[y].size.cols());
        overlap = overlap || (i0 < i1 && j0 < j1);
      }
    }
    vk::case_begin(cat("tile of ", m, " x ", nn, " split into", what));
    const auto o = vk::run_forked([&] {
      pika::start(argc, argv);
      Matrix<double, CPU> mat(LocalElementSize(m, nn), TileElementSize(m, nn));
      auto v = splitTileDisjoint(mat.readwrite(LocalTileIndex(0, 0)), sp);
      vk::exit_now(v.size() == sp.size() ? 0 : 3);
    });
    if (overlap)
      VK_CHECK(o == vk::Outcome::Terminated || o == vk::Outcome::Threw, "overlap-accepted", "overlapping parts: ", vk::outcome_name(o));
    else
      VK_CHECK(o == vk::Outcome::Returned, "disjoint-refused", "disjoint parts: ", vk::outcome_name(o));
    vk::count(overlap ? "overlapping splits" : "disjoint splits accepted");
    vk::nontrivial_current();
  }
}

int main(int argc, char** argv) {
  refused_splits(argc, argv);
  pika::start(argc, argv);
  auto host = umpire::ResourceManager::getInstance().getAllocator("HOST");
  Rng r = vk::rng("programs");
  const int n = vk::scale(4000, 60000);
  std::unordered_set<std::uint64_t> orders;
  for (int k = 0; k < n; ++k) {
    vks::set_policy(r.irange(0, vks::n_policies - 1), r.u64());
    vks::set_delay(r.chance(1, 4) ? unsigned(r.irange(5, 200)) : 0, 100);
    vks::reset_order();
    const auto live = host.vk().live();
    {
      Program p(r.u64());
      p.run();
    }
    VK_EQ(host.vk().live(), live, "memory-kept", "allocations of tiles after the program");
    if (orders.insert(vks::get_stats().order_hash).second)
      vk::count("distinct task orders");
  }
  const auto s = vks::get_stats();
  vk::count("tasks executed", s.executed);
  vk::count("tasks executed in an order other than submitted", s.reordered);
  pika::stop();
  return vk::finish();
}
