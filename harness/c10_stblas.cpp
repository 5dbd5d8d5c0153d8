// C10: single-threaded BLAS scopes limit and restore the OpenMP thread count, per thread.
#include <atomic>
#include <exception>
#include <iterator>
#include <memory>
#include <optional>
#include <thread>
#include <vector>

#include <omp.h>

#include <vk.hpp>

#include <dlaf/common/single_threaded_blas.h>

using dlaf::common::internal::SingleThreadedBlasScope;
using vk::cat;

struct Err : std::exception {};

// actual size of a parallel region started here
int region_size() {
#ifdef VK_TSAN
  return omp_get_max_threads();  // libgomp's team barriers are not visible to the race detector
#else
  int n = -1;
#pragma omp parallel
  {
#pragma omp single
    n = omp_get_num_threads();
  }
  vk::count("parallel regions");
  return n;
#endif
}

std::atomic<long> g_events{0}, g_overlap{0}, g_max_overlap{0};

int any_limit(vk::Rng& r) {
  static const int wide[] = {8, 12, 16, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025, 5000};
  return r.chance(3, 4) ? r.irange(1, 7) : r.chance(1, 3) ? r.irange(1, 3000) : wide[r.irange(0, int(std::size(wide)) - 1)];
}

// other settings of the thread which the scopes must leave alone
struct Settings {
  int dynamic = omp_get_dynamic(), levels = omp_get_max_active_levels();
  bool operator==(const Settings& o) const { return dynamic == o.dynamic && levels == o.levels; }
};

struct Walker {
  vk::Rng r;
  int id;
  std::string trace;
  bool regions;
  Walker(std::uint64_t s, int i, bool reg) : r(s), id(i), regions(reg) {}

  void expect(int limit, const char* where) {
    ++g_events;
    VK_EQ(omp_get_max_threads(), limit, limit == 1 ? "limit-inside" : "limit-restored", where, " thread ", id, " trace", trace);
    if (regions && limit > 1 && limit <= 4 && omp_get_dynamic())
      VK_CHECK(region_size() <= limit, "region-restored", where, " thread ", id, " trace", trace);
    else if (regions && limit <= 4 && r.chance(1, 3))
      VK_EQ(region_size(), limit, limit == 1 ? "region-inside" : "region-restored", where, " thread ", id, " trace", trace);
    if (r.chance(1, 4))
      std::this_thread::yield();
  }

  // leaves the thread's limit at the value it had when called
  void walk(int depth, int limit) {
    expect(limit, "enter");
    int n = r.irange(1, 3);
    for (int k = 0; k < n; ++k) {
      int op = r.irange(0, 6);
      trace += cat(" ", depth, ":", op);
      switch (op) {
        case 0: {
          SingleThreadedBlasScope s;
          in_scope(depth);
          break;
        }
        case 1: {  // left by exception, from a nested depth
          try {
            SingleThreadedBlasScope s;
            in_scope(depth);
            SingleThreadedBlasScope t;
            in_scope(depth);
            throw Err{};
          }
          catch (const Err&) {
          }
          break;
        }
        case 2: {  // early return
          auto f = [&]() -> int {
            SingleThreadedBlasScope s;
            expect(1, "function");
            if (r.chance(1, 2))
              return 1;
            SingleThreadedBlasScope t;
            in_scope(depth);
            return 2;
          };
          f();
          break;
        }
        case 3: {  // the limit changes outside of any scope
          if (depth == 0) {
            limit = any_limit(r);
            omp_set_num_threads(limit);
          }
          break;
        }
        case 4: {  // the user changes the limit inside a scope: the end of the scope restores the entry value
          {
            SingleThreadedBlasScope s;
            expect(1, "before change");
            int l2 = any_limit(r);
            omp_set_num_threads(l2);
            if (r.chance(1, 2)) {
              SingleThreadedBlasScope t;
              expect(1, "nested after change");
            }
            expect(l2, "changed inside");
          }
          break;
        }
        case 5: {  // heap allocated / optional scopes
          auto s = std::make_unique<SingleThreadedBlasScope>();
          expect(1, "heap");
          std::optional<SingleThreadedBlasScope> o;
          o.emplace();
          in_scope(depth);
          o.reset();
          expect(1, "after inner reset");
          s.reset();
          break;
        }
        default: {  // a sequence of scopes
          for (int q = 0; q < 3; ++q) {
            SingleThreadedBlasScope s;
            expect(1, "sequence");
          }
        }
      }
      expect(limit, "after");
    }
  }
  void in_scope(int depth) {
    long o = ++g_overlap;
    long m = g_max_overlap;
    while (o > m && !g_max_overlap.compare_exchange_weak(m, o)) {
    }
    expect(1, "inside");
    if (depth < 3 ? r.chance(2, 3) : depth < 24 && r.chance(1, 3))
      walk(depth + 1, 1);
    expect(1, "inside, end");
    --g_overlap;
  }
};

int main() {
  auto r = vk::rng("c10");
  // one thread
  const int n1 = vk::scale(400, 6000);
  for (int k = 0; k < n1; ++k) {
    int start = any_limit(r);
    std::uint64_t s = r.u64();
    vk::case_begin(cat("single thread, start limit ", start, " walk ", s));
    omp_set_num_threads(start);
    // the user's other settings
    omp_set_dynamic(r.chance(1, 3));
    omp_set_max_active_levels(r.irange(1, 3));
    if (omp_get_dynamic())
      vk::count("walks with dynamic adjustment");
    const Settings before;
    Walker w(s, 0, true);
    w.walk(0, start);
    VK_CHECK(before == Settings(), "other-settings", "dynamic adjustment or the nesting limit changed, trace", w.trace);
    vk::nontrivial(cat(start, w.trace));
  }
#ifndef VK_TSAN
  omp_set_dynamic(0);
  // from within a parallel region: every member of the team has its own limit
  for (int k = 0; k < vk::scale(60, 600); ++k) {
    int n = r.irange(2, 5);
    std::uint64_t s = r.u64();
    vk::case_begin(cat("team of ", n, " walk ", s));
    omp_set_num_threads(n);
    std::vector<std::string> tr(static_cast<std::size_t>(n));
#pragma omp parallel num_threads(n)
    {
      int me = omp_get_thread_num();
      int l = 1 + (me + k) % 4;
      omp_set_num_threads(l);
      Walker w(s + static_cast<std::uint64_t>(me), me, false);
      w.walk(0, l);
      tr[static_cast<std::size_t>(me)] = w.trace;
    }
    VK_EQ(omp_get_max_threads(), n, "limit-restored", "after the team");
    vk::nontrivial(cat(n, tr[0]));
    vk::count("teams");
  }
#endif
  // fail-stop: end of a scope on another thread (forked before any helper thread of this process exists is not
  // possible once OpenMP teams ran, so the child only uses plain threads)
  for (int k = 0; k < 8; ++k) {
    vk::case_begin(cat("scope ended on another thread, variant ", k));
    auto o = vk::run_forked([&]() {
      auto s = std::make_unique<SingleThreadedBlasScope>();
      if (k % 2)
        std::thread([&]() { s.reset(); }).join();
      else {
        std::unique_ptr<SingleThreadedBlasScope> t;
        std::thread([&]() { t = std::make_unique<SingleThreadedBlasScope>(); }).join();
        t.reset();
      }
    });
    VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", "ended on another thread: ", vk::outcome_name(o));
    vk::nontrivial_current();
  }
  // many threads, each with its own limits, truly overlapping
  const int rounds = vk::scale(30, 300);
  for (int k = 0; k < rounds; ++k) {
    int n = r.irange(2, 8);
    std::uint64_t s = r.u64();
    vk::case_begin(cat("threads ", n, " walks from ", s));
    const int main_limit = any_limit(r);
    omp_set_num_threads(main_limit);
    std::atomic<int> ready{0};
    std::vector<std::string> tr(static_cast<std::size_t>(n));
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t)
      ts.emplace_back([&, t]() {
        ++ready;
        while (ready < n)
          std::this_thread::yield();
        for (int q = 0; q < 6; ++q) {
          int l = q < 4 ? 1 + (t + q) % 5 : 1 + int((s / 7 + std::uint64_t(t * 37 + q * 11)) % 400);
          omp_set_num_threads(l);
          Walker w(s + static_cast<std::uint64_t>(t * 100 + q), t, false);
          w.walk(0, l);
          tr[static_cast<std::size_t>(t)] += w.trace;
        }
      });
    // the launching thread never notices
    for (int q = 0; q < 50; ++q) {
      VK_EQ(omp_get_max_threads(), main_limit, "other-thread-visible", "");
      std::this_thread::yield();
    }
    for (auto& t : ts)
      t.join();
    VK_EQ(omp_get_max_threads(), main_limit, "other-thread-visible", "");
    vk::nontrivial(cat(n, tr[0], tr[1]));
    vk::count("thread groups");
  }
  vk::count("limit observations", static_cast<std::uint64_t>(g_events.load()));
  vk::count_max("scopes alive at once", static_cast<std::uint64_t>(g_max_overlap.load()));
  return vk::finish();
}
