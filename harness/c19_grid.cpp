// C19: communicator grids and their pipelines.
#include <atomic>
#include <deque>
#include <set>
#include <alg.hpp>
#include <sstream>
#include <time.h>

#include <dlaf/common/round_robin.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/sender/transform_mpi.h>
using namespace alg;
using comm::Communicator;
using comm::CommunicatorPipeline;
using comm::CommunicatorType;
using dlaf::common::Ordering;
static_assert(sizeof(matrix::Tile<int, Device::CPU>) && sizeof(matrix::Tile<SizeType, Device::CPU>));

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

// the ranks of the original communicator, in the order of the given one
static std::vector<int> members(MPI_Comm c, int mine, int& rank) {
  int n;
  PMPI_Comm_size(c, &n);
  PMPI_Comm_rank(c, &rank);
  std::vector<int> v(static_cast<std::size_t>(n));
  PMPI_Allgather(&mine, 1, MPI_INT, v.data(), 1, MPI_INT, c);
  return v;
}
static std::string text(const std::vector<int>& v) {
  std::string s;
  for (int x : v)
    s += std::to_string(x) + " ";
  return s;
}

struct Pending {
  int want = 0, got = -1;
  std::atomic<bool> done{false};
};

struct Checked {
  CommunicatorGrid grid;
  int R, C;
  Ordering order;
  std::size_t n;
  bool in;
};

template <CommunicatorType CT>
auto draw(CommunicatorGrid& g) {
  if constexpr (CT == CommunicatorType::Full)
    return g.full_communicator_pipeline();
  else if constexpr (CT == CommunicatorType::Row)
    return g.row_communicator_pipeline();
  else
    return g.col_communicator_pipeline();
}
template <CommunicatorType CT>
using Kind = std::integral_constant<CommunicatorType, CT>;
template <class F>
void with_kind(int k, F&& f) {
  if (k == 0)
    f(Kind<CommunicatorType::Full>{});
  else if (k == 1)
    f(Kind<CommunicatorType::Row>{});
  else
    f(Kind<CommunicatorType::Col>{});
}

struct Case {
  Group& g;
  Rng& shared_rng;
  Rng& pr;
  std::deque<Pending> pend;

  int orig(const Checked& c, int i, int j) const { return c.order == Ordering::RowMajor ? i * c.C + j : j * c.R + i; }

  Checked build() {
    Rng r(shared_rng.u64());
    int R, C;
    do {
      R = r.irange(1, g.size);
      C = r.irange(1, g.size);
    } while (R * C > g.size);
    const Ordering o = r.chance(1, 2) ? Ordering::RowMajor : Ordering::ColumnMajor;
    const std::size_t n = std::size_t(r.irange(1, 4));
    const int how = r.irange(0, 3);
    Communicator base(g.comm);
    std::optional<Communicator> own;
    if (r.chance(1, 4)) {
      // one that does not outlive the construction
      MPI_Comm c;
      MPI_Comm_dup(g.comm, &c);
      own.emplace(comm::make_communicator_managed(c));
      base = *own;
    }
    auto make = [&]() -> CommunicatorGrid {
      if (how == 0) {
        getTuneParameters().communicator_grid_num_pipelines = n;
        return r.chance(1, 2) ? CommunicatorGrid(base, R, C, o) : CommunicatorGrid(base, std::array<int, 2>{R, C}, o);
      }
      if (how == 1)
        return CommunicatorGrid(base, std::array<int, 2>{R, C}, o, n);
      return CommunicatorGrid(base, R, C, o, n);
    };
    Checked c{make(), R, C, o, n, g.rank < R * C};
    if (r.chance(1, 4)) {
      CommunicatorGrid moved(std::move(c.grid));
      c.grid = std::move(moved);
      vk::count("grids moved");
    }
    return c;
  }

  void check_ranks(Checked& c) {
    auto& G = c.grid;
    if (!c.in) {
      VK_CHECK(G.rank() == comm::Index2D() && !G.rank().isValid(), "outside-rank", "a process outside the grid has coordinates ", G.rank());
      VK_CHECK(G.size() == comm::Size2D(0, 0), "outside-size", "a process outside the grid sees the size ", G.size());
      VK_CHECK(G.fullCommunicator() == MPI_COMM_NULL && G.rowCommunicator() == MPI_COMM_NULL && G.colCommunicator() == MPI_COMM_NULL, "outside-communicator",
               "a process outside the grid was given a communicator");
      VK_CHECK(G.num_pipelines() == 0, "outside-pipelines", G.num_pipelines());
      vk::count("processes outside the grid");
      return;
    }
    const int i = c.order == Ordering::RowMajor ? g.rank / c.C : g.rank % c.R, j = c.order == Ordering::RowMajor ? g.rank % c.C : g.rank / c.R;
    VK_CHECK(G.size() == comm::Size2D(c.R, c.C), "size", G.size());
    VK_CHECK(G.rank() == comm::Index2D(i, j), "coordinates", "rank ", g.rank, " has coordinates ", G.rank(), ", expected ", i, ",", j);
    VK_CHECK(G.num_pipelines() == c.n, "pipelines", G.num_pipelines(), " expected ", c.n);
    for (int a = 0; a < c.R; ++a)
      for (int b = 0; b < c.C; ++b)
        VK_CHECK(G.rankFullCommunicator({a, b}) == a * c.C + b, "full-rank", "of (", a, ",", b, ") is ", G.rankFullCommunicator({a, b}));
    int rank;
    std::vector<int> full = members(G.fullCommunicator(), g.rank, rank), want;
    for (int a = 0; a < c.R; ++a)
      for (int b = 0; b < c.C; ++b)
        want.push_back(orig(c, a, b));
    VK_CHECK(full == want, "full-members", text(full), " expected ", text(want));
    VK_CHECK(rank == G.rankFullCommunicator(G.rank()), "full-own-rank", rank);
    VK_CHECK(G.fullCommunicator().rank() == rank && G.fullCommunicator().size() == c.R * c.C, "full-cached", G.fullCommunicator().rank());
    std::vector<int> row = members(G.rowCommunicator(), g.rank, rank);
    want.clear();
    for (int b = 0; b < c.C; ++b)
      want.push_back(orig(c, i, b));
    VK_CHECK(row == want && rank == j, "row-members", text(row), " expected ", text(want), " rank ", rank);
    std::vector<int> col = members(G.colCommunicator(), g.rank, rank);
    want.clear();
    for (int a = 0; a < c.R; ++a)
      want.push_back(orig(c, a, j));
    VK_CHECK(col == want && rank == i, "col-members", text(col), " expected ", text(want), " rank ", rank);
    VK_CHECK(G.subCommunicator(Coord::Row) == MPI_Comm(G.rowCommunicator()) && G.subCommunicator(Coord::Col) == MPI_Comm(G.colCommunicator()), "sub-communicator", "");
    std::ostringstream os, ws;
    os << G;
    ws << "position=" << G.rank() << ", size=" << G.size();
    VK_CHECK(os.str() == ws.str(), "printed", os.str());
    vk::count("positions checked");
  }

  // successive pipelines: as many different communicators as asked for, in turn
  void check_round_robin(Checked& c) {
    Rng r(shared_rng.u64());
    if (!c.in)
      return;
    std::set<MPI_Comm> all{c.grid.fullCommunicator(), c.grid.rowCommunicator(), c.grid.colCommunicator(), g.comm};
    for (int k = 0; k < 3; ++k)
      with_kind(k, [&](auto kind) {
        constexpr CommunicatorType CT = decltype(kind)::value;
        Communicator& ref = CT == CommunicatorType::Full ? c.grid.fullCommunicator() : CT == CommunicatorType::Row ? c.grid.rowCommunicator() : c.grid.colCommunicator();
        std::vector<MPI_Comm> seen;
        const std::size_t draws = 2 * c.n + std::size_t(r.irange(0, 2));
        for (std::size_t q = 0; q < draws; ++q) {
          auto p = draw<CT>(c.grid);
          VK_CHECK(p.valid(), "pipeline-invalid", "");
          VK_CHECK(p.rank() == ref.rank() && p.size() == ref.size(), "pipeline-rank", p.rank(), "/", p.size());
          VK_CHECK(p.rank_2d() == c.grid.rank() && p.size_2d() == c.grid.size(), "pipeline-2d", p.rank_2d(), p.size_2d());
          const comm::Index2D x(r.irange(0, c.R - 1), r.irange(0, c.C - 1));
          VK_CHECK(p.rank_full_communicator(x) == c.grid.rankFullCommunicator(x), "pipeline-full-rank", x);
          MPI_Comm h;
          if (r.chance(1, 2))
            h = tt::sync_wait(p.exclusive() | ex::then([](auto w) { return MPI_Comm(w.get()); }));
          else
            h = tt::sync_wait(p.shared() | ex::then([](auto w) { return MPI_Comm(w.get()); }));
          int cmp;
          PMPI_Comm_compare(h, ref, &cmp);
          VK_CHECK(cmp == MPI_CONGRUENT, "pipeline-communicator", "is not an independent one of the same processes: ", cmp);
          if (q < c.n)
            VK_CHECK(all.insert(h).second, "pipeline-shared", "the communicator of pipeline ", q, " is in use elsewhere");
          else
            VK_CHECK(h == seen[q - c.n], "round-robin", "draw ", q, " is not the communicator of draw ", q - c.n);
          seen.push_back(h);
          if (r.chance(1, 3)) {
            auto s = p.sub_pipeline();
            VK_CHECK(s.rank() == p.rank() && s.size() == p.size() && s.rank_2d() == p.rank_2d() && s.size_2d() == p.size_2d(), "sub-pipeline", "forgot its place");
            MPI_Comm hs = tt::sync_wait(s.exclusive() | ex::then([](auto w) { return MPI_Comm(w.get()); }));
            VK_CHECK(hs == h, "sub-pipeline", "another communicator");
            VK_CHECK(s.valid(), "sub-pipeline", "not valid");
            s.reset();
            VK_CHECK(!s.valid() && p.valid(), "reset", "validity after the sub-pipeline was reset");
          }
          if (r.chance(1, 3)) {
            auto m = std::move(p);
            VK_CHECK(m.valid() && m.rank() == ref.rank(), "moved-pipeline", "");
            p = std::move(m);
          }
          if (r.chance(1, 3)) {
            p.reset();
            VK_CHECK(!p.valid(), "reset", "valid after reset");
          }
        }
        vk::count("pipelines drawn", draws);
      });
  }

  // collective work on random pipelines, in the same order everywhere
  void submit(Checked& c, bool messages = true) {
    Rng r(shared_rng.u64());
    if (!c.in)
      return;
    for (int q = r.irange(1, 12); q > 0; --q)
      with_kind(r.irange(0, 2), [&](auto kind) {
        constexpr CommunicatorType CT = decltype(kind)::value;
        auto p = draw<CT>(c.grid);
        const int burst = r.irange(1, 3);
        for (int b = 0; b < burst; ++b) {
          const int add = r.irange(0, 1000), root = r.irange(0, 20) % p.size(), what = messages ? r.irange(0, 2) : 2;
          auto& e = pend.emplace_back();
          const unsigned nap = pr.chance(1, 8) ? unsigned(pr.irange(1, 400)) : 0;
          if (what == 0) {
            // a broadcast
            e.got = p.rank() == root ? add : -1;
            e.want = add;
            ex::start_detached(p.exclusive() | comm::internal::transformMPI([&e, root](const Communicator& cm, MPI_Request* rq) {
                                 MPI_Ibcast(&e.got, 1, MPI_INT, root, cm, rq);
                               }) |
                               ex::then([&e] { e.done = true; }));
          }
          else if (what == 1) {
            e.got = add;
            e.want = add * p.size();
            ex::start_detached(p.exclusive() | comm::internal::transformMPI([&e](const Communicator& cm, MPI_Request* rq) {
                                 MPI_Iallreduce(MPI_IN_PLACE, &e.got, 1, MPI_INT, MPI_SUM, cm, rq);
                               }) |
                               ex::then([&e] { e.done = true; }));
          }
          else {
            // holds the communicator for a while
            e.want = p.size();
            ex::start_detached(p.shared() | ex::then([&e, nap](auto w) {
                                 usleep(nap);
                                 int n = -2, cmp;
                                 PMPI_Comm_compare(w.get(), MPI_COMM_WORLD, &cmp);
                                 PMPI_Comm_size(w.get(), &n);
                                 e.got = n;
                                 e.done = true;
                               }));
          }
        }
        if (r.chance(1, 4))
          p.reset();
      });
  }
  void check_done(const char* who) {
    for (auto& e : pend)
      VK_CHECK(e.done && e.got == e.want, "pending-work", who, ": ", e.done ? "wrong result " : "not finished ", e.got, ", expected ", e.want);
    vk::count("operations on pipelines", pend.size());
    pend.clear();
  }

  // no use of a communicator overtakes one drawn earlier
  void order(Checked& c) {
    Rng r(shared_rng.u64());
    if (!c.in)
      return;
    with_kind(r.irange(0, 2), [&](auto kind) {
      constexpr CommunicatorType CT = decltype(kind)::value;
      std::atomic<int> finished{0};
      const int rounds = r.irange(2, 4);
      for (int q = 0; q < rounds; ++q)
        for (std::size_t k = 0; k < c.n; ++k) {
          auto p = draw<CT>(c.grid);
          if (k != 0)
            continue;
          const unsigned nap = unsigned(pr.irange(0, 200));
          const bool shared = r.chance(1, 3);
          auto f = [&finished, q, nap](auto) {
            const int before = finished.load();
            VK_CHECK(before == q, "overtaken", "use ", q, " of a communicator began after ", before, " earlier ones had finished");
            usleep(nap);
            ++finished;
          };
          if (shared)
            ex::start_detached(p.shared() | ex::then(f));
          else
            ex::start_detached(p.exclusive() | ex::then(f));
        }
      pika::wait();
      VK_CHECK(finished == rounds, "lost-use", finished.load(), " of ", rounds);
    });
    vk::count("ordered uses");
  }

  void barrier(Checked& c) {
    double t0 = now();
    const bool late = pr.chance(1, 3);
    if (late) {
      usleep(unsigned(pr.irange(100, 3000)));
      t0 = now();
    }
    c.grid.wait_all_communicators();
    if (!c.in)
      return;
    const double t1 = now();
    double lo = 0, hi = 0;
    PMPI_Allreduce(&t0, &hi, 1, MPI_DOUBLE, MPI_MAX, c.grid.fullCommunicator());
    PMPI_Allreduce(&t1, &lo, 1, MPI_DOUBLE, MPI_MIN, c.grid.fullCommunicator());
    VK_CHECK(lo >= hi, "barrier", "a process left ", hi - lo, " s before the last one arrived");
    vk::count("barriers");
  }
};

static void refused(Group& g) {
  VK_CHECK(vk::run_forked([&] { CommunicatorGrid x(Communicator(g.comm), g.size + 1, 1, Ordering::RowMajor, 1); }) != vk::Outcome::Returned, "too-large",
           "a grid larger than the communicator was accepted");
  VK_CHECK(vk::run_forked([&] { CommunicatorGrid x(Communicator(g.comm), 2, g.size, Ordering::RowMajor, 1); }) != vk::Outcome::Returned, "too-large",
           "a grid larger than the communicator was accepted");
}

static void round_robin_alone(Rng& r) {
  const std::size_t n = std::size_t(r.irange(1, 6));
  dlaf::common::RoundRobin<int> rr(n, 5);
  VK_CHECK(rr.size() == n, "round-robin-size", rr.size());
  std::vector<int*> seen;
  int* cur = &rr.currentResource();
  for (std::size_t q = 0; q < 3 * n; ++q) {
    int* p = &rr.nextResource();
    VK_CHECK(*p == 5 || q >= n, "round-robin-value", *p);
    *p = 6;
    VK_CHECK(&rr.currentResource() == p, "round-robin-current", "");
    if (q >= n)
      VK_CHECK(seen[q - n] == p, "round-robin-turn", q);
    else
      for (auto s : seen)
        VK_CHECK(s != p, "round-robin-repeats", q);
    seen.push_back(p);
  }
  VK_CHECK(std::find(seen.begin(), seen.end(), cur) != seen.end(), "round-robin-current", "");
}

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("grid", vk::scale(300, 3000), [&](int k, Group& g, Rng& r, Rng& pr) {
    const auto live = vkm::get(vkm::LIVE_COMMS);
    const int n_grids = r.irange(1, 2);
    Case c{g, r, pr, {}};
    vk::case_begin(cat("grids ", k, " over ", g.size, s.sched));
    std::string d;
    {
      std::vector<Checked> grids;
      for (int q = 0; q < n_grids; ++q) {
        grids.push_back(c.build());
        d += cat(" ", grids.back().R, "x", grids.back().C, grids.back().order == Ordering::RowMajor ? "R" : "C", "/", grids.back().n);
      }
      vk::case_begin(cat("grids", d, " over ", g.size, s.sched));
      for (int q = r.irange(2, 6); q > 0; --q) {
        Checked& x = grids[std::size_t(r.irange(0, n_grids - 1))];
        switch (r.irange(0, 4)) {
          case 0:
            c.check_ranks(x);
            break;
          case 1:
            c.check_round_robin(x);
            break;
          case 2:
            c.submit(x);
            break;
          case 3:
            c.order(x);
            break;
          case 4:
            c.barrier(x);
            break;
        }
      }
      for (auto& x : grids) {
        c.check_ranks(x);
        if (r.chance(1, 2))
          c.check_round_robin(x);
      }
      // Open MPI does not survive the release of a communicator with a
      // nonblocking collective still in progress: these must be over, while
      // tasks that hold the communicators need not
      pika::wait();
      for (auto& x : grids)
        if (r.chance(1, 2))
          c.submit(x, false);
      if (r.chance(1, 2))
        std::swap(grids.front(), grids.back());
      // the grids go while work is pending
    }
    pika::wait();
    for (int q = 0; q < 2000 && vkm::get(vkm::LIVE_COMMS) != live; ++q) {
      usleep(100);
      pika::wait();
    }
    c.check_done("after the grid was destroyed");
    VK_CHECK(vkm::get(vkm::LIVE_COMMS) == live, "communicators-kept", std::int64_t(vkm::get(vkm::LIVE_COMMS) - live), " communicators more than before");
    if (k % 40 == 0)
      refused(g);
    round_robin_alone(pr);
    vk::nontrivial(cat(g.size, d));
    vk::count("grids", std::uint64_t(n_grids));
  });
  return s.finish();
}
