// C18: asynchronous communication. Every process simulates the same random program of broadcasts, reductions, messages and
// local changes over all ranks, performs its part asynchronously, and compares everything it was given with the simulation.
#include <alg.hpp>
#include <deque>

#include <dlaf/communication/kernels/all_reduce.h>
#include <dlaf/communication/kernels/broadcast.h>
#include <dlaf/communication/kernels/p2p.h>
#include <dlaf/communication/kernels/p2p_allsum.h>
#include <dlaf/communication/kernels/reduce.h>
using namespace alg;
using comm::Communicator;
using comm::CommunicatorPipeline;
using comm::CommunicatorType;
constexpr Device CPU = Device::CPU;
// in this order
static_assert(sizeof(matrix::Tile<int, CPU>) && sizeof(matrix::Tile<SizeType, CPU>));

template <class T>
constexpr bool is_ordered = !is_cx<T>;
template <class T>
struct TypeName {
  static constexpr const char* v = "";
};
template <>
struct TypeName<int> {
  static constexpr const char* v = "int";
};
template <>
struct TypeName<SizeType> {
  static constexpr const char* v = "SizeType";
};
template <class T>
std::string tname() {
  if constexpr (std::is_integral_v<T>)
    return TypeName<T>::v;
  else
    return name_of<T>::v;
}
template <class T>
T whole(Rng& r, int bound) {
  const int a = r.irange(-bound, bound), b = r.irange(-bound, bound);
  if constexpr (is_cx<T>)
    return T(Real<T>(a), Real<T>(b));
  else
    return T(a);
}
template <class T>
double size_of(T x) {
  if constexpr (is_cx<T>)
    return std::max(std::abs(double(x.real())), std::abs(double(x.imag())));
  else
    return std::abs(double(x));
}

template <class T>
struct Program {
  // blocks of local tiles: one matrix per slot and rank, all tiled alike
  using V = std::vector<T>;
  Group& g;
  Rng& r;   // common to the group
  Rng& pr;  // this process
  int R, C, P, me, slots;
  Bulk bulk;
  SizeType m, n, mb, nb;
  Distribution dist;
  std::vector<std::vector<Ref<T>>> model;  // [rank][slot]
  std::vector<std::unique_ptr<Mat<T>>> mat;
  struct Obs {
    std::string what;
    V got, want;
    bool ran = false, wrong_shape = false;
  };
  std::deque<Obs> obs;
  template <CommunicatorType CT>
  using Pipe = std::unique_ptr<CommunicatorPipeline<CT>>;
  std::vector<Pipe<CommunicatorType::Full>> full;
  std::vector<Pipe<CommunicatorType::Row>> row;
  std::vector<Pipe<CommunicatorType::Col>> col;
  int next_tag = 0;
  std::string trace;

  Program(Group& g_, Rng& r_, Rng& pr_)
      : g(g_), r(r_), pr(pr_), R(g.rows), C(g.cols), P(g.size), me(g.grid->rank().row() * g.cols + g.grid->rank().col()), slots(r.irange(3, 6)),
        bulk(random_bulk(r)), m(bulk ? r.irange(1, 110) : r.irange(1, 9)), n(bulk ? r.irange(1, 110) : r.irange(1, 9)),
        mb(bulk ? r.irange(20, 60) : r.irange(1, 6)), nb(bulk ? r.irange(20, 60) : r.irange(1, 6)),
        dist(LocalElementSize(m, n), TileElementSize(mb, nb)) {}

  LocalTileIndex pick_tile(Rng& q) {
    return {q.range(0, dist.local_nr_tiles().rows() - 1), q.range(0, dist.local_nr_tiles().cols() - 1)};
  }
  template <class F>
  void cells(LocalTileIndex t, F&& f) {
    const auto s = dist.tile_size_of(GlobalTileIndex(t.row(), t.col()));
    for (SizeType j = 0; j < s.cols(); ++j)
      for (SizeType i = 0; i < s.rows(); ++i)
        f(t.row() * mb + i, t.col() * nb + j);
  }
  V get(int rank, int slot, LocalTileIndex t) {
    V v;
    cells(t, [&](SizeType i, SizeType j) { v.push_back(model[std::size_t(rank)][std::size_t(slot)](i, j)); });
    return v;
  }
  void set(int rank, int slot, LocalTileIndex t, const V& v) {
    std::size_t k = 0;
    cells(t, [&](SizeType i, SizeType j) { model[std::size_t(rank)][std::size_t(slot)](i, j) = v[k++]; });
  }
  double biggest(int rank, int slot, LocalTileIndex t) {
    double b = 0;
    for (auto& x : get(rank, slot, t))
      b = std::max(b, size_of(x));
    return b;
  }
  // what an access delivered
  Obs& watch(const char* what, int slot, LocalTileIndex t) {
    obs.push_back({cat(what, " slot ", slot, " tile ", t.row(), ",", t.col(), " step ", steps), {}, get(me, slot, t)});
    return obs.back();
  }
  static void record(Obs& o, const matrix::Tile<const T, CPU>& t) {
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i)
        o.got.push_back(t({i, j}));
    o.ran = true;
  }
  // runs an operation that gives the tile back
  void launch_rw(matrix::ReadWriteTileSender<T, CPU> s, const char* what, int slot, LocalTileIndex t, bool compare = true) {
    switch (compare ? pr.irange(0, 3) : 0) {
      case 0:
        ex::start_detached(std::move(s));
        break;
      case 1: {
        Obs& o = watch(what, slot, t);
        ex::start_detached(std::move(s) | ex::then([&o](auto tile) { record(o, tile); }));
        break;
      }
      case 2: {
        Obs& o = watch(what, slot, t);
        ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([&o](auto tile) { record(o, tile); }));
        break;
      }
      default:
        ex::start_detached(ex::ensure_started(std::move(s)) | ex::drop_value());
    }
    if (pr.chance(1, 6))
      read(slot, t);
  }
  void launch(ex::unique_any_sender<> s) {
    if (pr.chance(1, 3))
      ex::start_detached(ex::ensure_started(std::move(s)));
    else
      ex::start_detached(std::move(s));
  }
  void read(int slot, LocalTileIndex t) {
    Obs& o = watch("read", slot, t);
    ex::start_detached((*mat[std::size_t(slot)]->m).read(t) | ex::then([&o](auto w) { record(o, w.get()); }));
  }
  auto ro(int slot, LocalTileIndex t) { return (*mat[std::size_t(slot)]->m).read(t); }
  auto rw(int slot, LocalTileIndex t) { return (*mat[std::size_t(slot)]->m).readwrite(t); }

  // local change: the tile gets new values
  void change(int rank, int slot, LocalTileIndex t) {
    V v;
    cells(t, [&](SizeType, SizeType) { v.push_back(whole<T>(r, 9)); });
    set(rank, slot, t, v);
    if (rank != me)
      return;
    ex::start_detached(rw(slot, t) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([v](auto tile) {
                         std::size_t k = 0;
                         for (SizeType j = 0; j < tile.size().cols(); ++j)
                           for (SizeType i = 0; i < tile.size().rows(); ++i)
                             tile({i, j}) = v[k++];
                       }));
  }

  // ---- operations among `members` (full ranks, in the order of the communicator)
  template <class Pipeline>
  void bcast(Pipeline* p, const std::vector<int>& members, int my) {
    const int root = r.irange(0, int(members.size()) - 1);
    const LocalTileIndex t = pick_tile(r);
    const int from = r.irange(0, slots - 1);
    const V v = get(members[std::size_t(root)], from, t);
    for (int k = 0; k < int(members.size()); ++k) {
      const int to = r.irange(0, slots - 1), rank = members[std::size_t(k)];
      if (k == root) {
        if (k == my)
          launch(comm::schedule_bcast_send(any_exclusive(p), ro(from, t)));
        continue;
      }
      set(rank, to, t, v);
      if (k == my)
        launch_rw(comm::schedule_bcast_recv<T, CPU, comm::CommunicatorPipelineExclusiveWrapper>(any_exclusive(p), root, rw(to, t)), "broadcast received", to, t);
    }
    vk::count("broadcasts");
  }
  // the specialised types of the operations' declarations
  template <class Pipeline>
  static ex::unique_any_sender<comm::CommunicatorPipelineExclusiveWrapper> any_exclusive(Pipeline* p) {
    return p->exclusive();
  }
  struct Op {
    MPI_Op op;
    int kind;
    const char* name;
  };
  Op pick_op(double big) {
    // exact in the type: small integers only
    std::vector<Op> o{{MPI_SUM, 0, "sum"}};
    if constexpr (is_ordered<T>) {
      o.push_back({MPI_MAX, 1, "max"});
      o.push_back({MPI_MIN, 2, "min"});
    }
    if (big <= 9)
      o.push_back({MPI_PROD, 3, "product"});
    return r.pick(o);
  }
  static T apply(const Op& o, T a, T b) {
    if (o.kind == 0)
      return a + b;
    if (o.kind == 3)
      return a * b;
    if constexpr (is_ordered<T>)
      return o.kind == 1 ? std::max(a, b) : std::min(a, b);
    return a;
  }
  // slots of the members, made small enough for an exact result
  std::vector<int> operands(const std::vector<int>& members, LocalTileIndex t, double& big) {
    std::vector<int> s;
    big = 0;
    for (int k : members) {
      s.push_back(r.irange(0, slots - 1));
      if (biggest(k, s.back(), t) > 1e4)
        change(k, s.back(), t);
      big = std::max(big, biggest(k, s.back(), t));
    }
    return s;
  }
  V combine(const Op& o, const std::vector<int>& members, const std::vector<int>& s, LocalTileIndex t) {
    V v = get(members[0], s[0], t);
    for (std::size_t k = 1; k < members.size(); ++k) {
      const V w = get(members[k], s[k], t);
      for (std::size_t x = 0; x < v.size(); ++x)
        v[x] = apply(o, v[x], w[x]);
    }
    return v;
  }
  template <class Pipeline>
  void reduce(Pipeline* p, const std::vector<int>& members, int my) {
    const int root = r.irange(0, int(members.size()) - 1);
    const LocalTileIndex t = pick_tile(r);
    double big;
    const auto s = operands(members, t, big);
    const Op o = pick_op(big);
    const V v = combine(o, members, s, t);
    set(members[std::size_t(root)], s[std::size_t(root)], t, v);
    if (my == root)
      launch_rw(comm::schedule_reduce_recv_in_place<T, CPU>(any_exclusive(p), o.op, rw(s[std::size_t(my)], t)), "reduction received", s[std::size_t(my)], t);
    else if (my >= 0)
      launch(comm::schedule_reduce_send<T, CPU>(any_exclusive(p), root, o.op, ro(s[std::size_t(my)], t)));
    vk::count("reductions");
  }
  template <class Pipeline>
  void all_reduce(Pipeline* p, const std::vector<int>& members, int my) {
    const LocalTileIndex t = pick_tile(r);
    double big;
    const auto s = operands(members, t, big);
    const Op o = pick_op(big);
    const V v = combine(o, members, s, t);
    const bool in_place = r.chance(1, 2);
    for (int k = 0; k < int(members.size()); ++k) {
      int to = s[std::size_t(k)];
      if (!in_place)
        to = (to + r.irange(1, slots - 1)) % slots;
      const int rank = members[std::size_t(k)];
      set(rank, to, t, v);
      if (k != my)
        continue;
      if (in_place)
        launch_rw(comm::schedule_all_reduce_in_place<T, CPU>(any_exclusive(p), o.op, rw(to, t)), "all-reduction in place", to, t);
      else
        launch_rw(comm::scheduleAllReduce<T, CPU, CPU>(any_exclusive(p), o.op, ro(s[std::size_t(k)], t), rw(to, t)), "all-reduction", to, t);
    }
    vk::count(in_place ? "all-reductions in place" : "all-reductions");
  }
  template <class Pipeline>
  void p2p(Pipeline* p, Communicator& raw, const std::vector<int>& members, int my) {
    const int np = int(members.size());
    const int a = r.irange(0, np - 1), b = r.irange(0, np - 1);
    const LocalTileIndex t = pick_tile(r);
    const int how = r.irange(0, 3);
    // messages of exclusive operations are matched in their order, the others by their tag
    const int tag = how == 0 ? r.irange(0, 2) : 10 + next_tag++ % 20000;
    const int from = r.irange(0, slots - 1);
    int to = r.irange(0, slots - 1);
    if (a == b && from == to)
      to = (to + 1) % slots;
    const int ra = members[std::size_t(a)], rb = members[std::size_t(b)];
    set(rb, to, t, get(ra, from, t));
    using UC = ex::unique_any_sender<Communicator>;
    using AC = ex::any_sender<Communicator>;
    if (my == a)
      switch (how) {
        case 0:
          launch(comm::schedule_send<T, CPU>(p->exclusive(), b, tag, ro(from, t)));
          break;
        case 1:
          launch(comm::schedule_send<T, CPU>(p->shared(), b, tag, ro(from, t)));
          break;
        case 2:
          launch(comm::schedule_send<T, CPU>(UC(ex::just(raw)), b, tag, ro(from, t)));
          break;
        default:
          launch(comm::schedule_send<T, CPU>(AC(ex::just(raw)), b, tag, ro(from, t)));
      }
    if (my == b)
      switch (how) {
        case 0:
          launch_rw(comm::schedule_recv<T, CPU>(p->exclusive(), a, tag, rw(to, t)), "message", to, t);
          break;
        case 1:
          launch_rw(comm::schedule_recv<T, CPU>(p->shared(), a, tag, rw(to, t)), "message, shared", to, t);
          break;
        case 2:
          launch_rw(comm::schedule_recv<T, CPU>(UC(ex::just(raw)), a, tag, rw(to, t)), "message, unique", to, t);
          break;
        default:
          launch_rw(comm::schedule_recv<T, CPU>(AC(ex::just(raw)), a, tag, rw(to, t)), "message, any", to, t);
      }
    vk::count(a == b ? "messages to oneself" : "messages scheduled");
  }
  template <class Pipeline>
  void sum_p2p(Pipeline* p, Communicator& raw, const std::vector<int>& members, int my) {
    const int np = int(members.size());
    if (np < 2)
      return;
    const int a = r.irange(0, np - 1), b = (a + r.irange(1, np - 1)) % np;
    const LocalTileIndex t = pick_tile(r);
    double big;
    const std::vector<int> pair{members[std::size_t(a)], members[std::size_t(b)]};
    const auto s = operands(pair, t, big);
    const V v = combine({MPI_SUM, 0, ""}, pair, s, t);
    const int tag = 30010 + next_tag++ % 2000;
    const int d = r.irange(1, slots - 1);
    const bool shared = r.chance(1, 2);
    for (int k = 0; k < 2; ++k) {
      const int to = (s[std::size_t(k)] + d) % slots;
      set(pair[std::size_t(k)], to, t, v);
      if (my != (k == 0 ? a : b))
        continue;
      const int mate = k == 0 ? b : a;
      Obs& o = watch("sum of two", to, t);
      auto go = [&](auto c) {
        ex::start_detached(comm::schedule_sum_p2p<Backend::MC>(std::move(c), mate, tag, ro(s[std::size_t(k)], t), rw(to, t)));
      };
      shared ? go(p->shared()) : go(ex::just(raw));
      ex::start_detached(ro(to, t) | ex::then([&o](auto w) { record(o, w.get()); }));
    }
    vk::count("sums of two");
  }

  template <class Pipeline>
  void one(int kind, Pipeline* p, Communicator& raw, const std::vector<int>& members, int my) {
    if constexpr (std::is_same_v<T, SizeType>)
      bcast(p, members, my);
    else if constexpr (std::is_same_v<T, int>)
      kind % 2 ? reduce(p, members, my) : all_reduce(p, members, my);
    else
      switch (kind) {
        case 0:
        case 1:
          return bcast(p, members, my);
        case 2:
          return reduce(p, members, my);
        case 3:
          return all_reduce(p, members, my);
        case 4:
        case 5:
          return p2p(p, raw, members, my);
        default:
          return sum_p2p(p, raw, members, my);
      }
  }
  void take() {
    for (int k = 0; k < int(g.pipelines); ++k) {
      full.push_back(std::make_unique<CommunicatorPipeline<CommunicatorType::Full>>(g.grid->full_communicator_pipeline()));
      row.push_back(std::make_unique<CommunicatorPipeline<CommunicatorType::Row>>(g.grid->row_communicator_pipeline()));
      col.push_back(std::make_unique<CommunicatorPipeline<CommunicatorType::Col>>(g.grid->col_communicator_pipeline()));
    }
  }
  void drop() {
    full.clear();
    row.clear();
    col.clear();
  }
  int steps = 0;
  void operation() {
    const int kind = r.irange(0, 6);
    const auto k = std::size_t(r.irange(0, int(g.pipelines) - 1));
    switch (r.irange(0, 2)) {
      case 0: {
        std::vector<int> mem;
        for (int i = 0; i < P; ++i)
          mem.push_back(i);
        one(kind, full[k].get(), g.grid->fullCommunicator(), mem, me);
        break;
      }
      case 1:
        for (int i = 0; i < R; ++i) {
          std::vector<int> mem;
          for (int j = 0; j < C; ++j)
            mem.push_back(i * C + j);
          one(kind, row[k].get(), g.grid->rowCommunicator(), mem, me / C == i ? me % C : -1);
        }
        break;
      default:
        for (int j = 0; j < C; ++j) {
          std::vector<int> mem;
          for (int i = 0; i < R; ++i)
            mem.push_back(i * C + j);
          one(kind, col[k].get(), g.grid->colCommunicator(), mem, me % C == j ? me / C : -1);
        }
    }
  }

  void run() {
    for (int k = 0; k < P; ++k) {
      model.emplace_back();
      for (int s = 0; s < slots; ++s) {
        Ref<T> v(m, n);
        for (auto& x : v.v)
          x = whole<T>(r, 9);
        model.back().push_back(v);
      }
    }
    for (int s = 0; s < slots; ++s) {
      mat.push_back(std::make_unique<Mat<T>>(g, dist, random_alloc(pr)));
      mat.back()->fill(model[std::size_t(me)][std::size_t(s)]);
    }
    take();
    const int len = r.irange(1, 25);
    const bool early = r.chance(1, 4);
    for (steps = 0; steps < len; ++steps) {
      switch (r.irange(0, 11)) {
        case 0:
        case 1:
          change(r.irange(0, P - 1), r.irange(0, slots - 1), pick_tile(r));
          break;
        case 2:
          if (r.chance(1, 3)) {
            drop();
            take();
            vk::count("pipelines taken again");
          }
          break;
        case 3:
          if (pr.chance(1, 3)) {
            const int s = pr.irange(0, slots - 1);
            const LocalTileIndex t = pick_tile(pr);
            Obs& o = watch("waited for", s, t);
            record(o, tt::sync_wait(ro(s, t)).get());
          }
          break;
        default:
          operation();
      }
    }
    if (r.chance(1, 2))
      drop();
    // nothing of this may wait for the end of the communication
    if (early)
      for (auto& x : mat)
        if (pr.chance(1, 2) && !x->user)
          x.reset();
    if (r.chance(1, 3)) {
      drop();
      g.grid->wait_all_communicators();
      vk::count("waits for all communicators");
    }
    for (int s = 0; s < slots; ++s)
      if (mat[std::size_t(s)]) {
        // zeros may differ in their sign
        const Ref<T> got = mat[std::size_t(s)]->local();
        const Ref<T>& want = model[std::size_t(me)][std::size_t(s)];
        for (SizeType j = 0; j < n; ++j)
          for (SizeType i = 0; i < m; ++i)
            if (got(i, j) != want(i, j)) {
              vk::violation("wrong-data:final", cat("element (", i, ",", j, ") of slot ", s, " is ", got(i, j), ", expected ", want(i, j)));
              i = m;
              j = n;
            }
        mat[std::size_t(s)]->check_padding("matrix at the end");
      }
    mat.clear();
    drop();
    pika::wait();
    for (auto& o : obs) {
      VK_CHECK(o.ran, "never-delivered", o.what);
      if (o.ran && o.got != o.want) {
        std::size_t k = 0;
        while (k < o.got.size() && k < o.want.size() && o.got[k] == o.want[k])
          ++k;
        vk::violation(cat("wrong-data:", o.what.substr(0, o.what.find(" slot"))),
                      cat(o.what, " element ", k, " is ", k < o.got.size() ? o.got[k] : T(0), " expected ", k < o.want.size() ? o.want[k] : T(0)));
      }
      vk::count("deliveries compared");
    }
  }
};

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("program", vk::scale(1200, 8000), [&](int k, Group& g, Rng& r, Rng& pr) {
    auto go = [&](auto tag) {
      using T = typename decltype(tag)::type;
      Program<T> p(g, r, pr);
      const std::string d = cat(tname<T>(), " ", p.m, "/", p.mb, "x", p.n, "/", p.nb, " slots ", p.slots, " grid=", g.desc());
      vk::case_begin(cat("communication ", d, s.sched));
      p.run();
      if (g.size > 1)
        vk::nontrivial(cat(d, k));
    };
    switch (r.irange(0, 9)) {
      case 0:
        return go(Tag<int>{});
      case 1:
        return go(Tag<SizeType>{});
      default:
        return with_type(r, go);
    }
  });
  return s.finish();
}
