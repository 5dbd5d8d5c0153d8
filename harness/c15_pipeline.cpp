// C15: access pipelines. Random programs of requests over trees of pipelines; every grant is logged and compared with the
// order in which the program requested the accesses.
#include <atomic>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include <pika/execution.hpp>
#include <pika/init.hpp>
#include <pika/runtime.hpp>

#include <vk.hpp>

#include <dlaf/common/pipeline.h>

namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using vk::cat;
using vk::Rng;

// the guarded value: knows every exclusive access made through it, in order. One that can only be moved, ...
struct Movable {
  std::vector<int> log;
  bool hollow = true;
  Movable() = default;
  explicit Movable(int) : hollow(false) {}
  Movable(Movable&& o) noexcept : log(std::move(o.log)), hollow(o.hollow) { o.take(); }
  Movable& operator=(Movable&& o) noexcept {
    if (this != &o) {
      log = std::move(o.log);
      hollow = o.hollow;
      o.take();
    }
    return *this;
  }
  void take() {
    log.clear();
    hollow = true;
  }
  void add(int id) { log.push_back(id); }
  std::vector<int> seen() const { return log; }
};
// ... one that can be copied, ...
struct Copyable : Movable {
  Copyable() = default;
  explicit Copyable(int) : Movable(1) {}
  Copyable(Copyable&&) = default;
  Copyable& operator=(Copyable&&) = default;
  Copyable(const Copyable& o) : Movable() { *this = o; }
  Copyable& operator=(const Copyable& o) {
    log = o.log;
    hollow = o.hollow;
    return *this;
  }
};
// ... and a plain one
struct Plain {
  short log[1000];
  int n = 0;
  bool hollow = true;
  Plain() = default;
  explicit Plain(int) : hollow(false) {}
  void add(int id) {
    if (n < 1000)
      log[n] = short(id);
    ++n;
  }
  std::vector<int> seen() const { return std::vector<int>(log, log + std::min(n, 1000)); }
};
static_assert(std::is_trivially_copyable_v<Plain> && !std::is_copy_constructible_v<Movable>);

struct Access {
  int id;
  bool rw;
  std::atomic<int> ran{0};
  bool hollow = false;
  std::vector<int> seen;  // the log found at the grant
};
struct Node;
struct Item {
  Access* a = nullptr;
  Node* n = nullptr;
};
struct Node {
  std::vector<Item> items;
  Node* parent = nullptr;
  bool live = true;       // its pipeline exists
  bool autonomous = false;  // owned by a task that will release it
};

constexpr int W = 1 << 16;
struct Root {
  Node node;
  std::atomic<int> active{0};
  std::atomic<int> max_readers{0}, clashes{0};
};
// one grant, from its beginning until the access is given back
struct Guard {
  Root* r;
  int v;
  Guard(Root& r_, bool rw) : r(&r_), v(rw ? W : 1) {
    const int prev = r->active.fetch_add(v, std::memory_order_relaxed);
    if (rw ? prev != 0 : prev >= W)
      r->clashes.fetch_add(1, std::memory_order_relaxed);
    if (!rw && prev < W) {
      int m = r->max_readers.load(std::memory_order_relaxed);
      while (prev + 1 > m && !r->max_readers.compare_exchange_weak(m, prev + 1, std::memory_order_relaxed)) {
      }
    }
  }
  Guard(Guard&& o) noexcept : r(std::exchange(o.r, nullptr)), v(o.v) {}
  ~Guard() {
    if (r)
      r->active.fetch_sub(v, std::memory_order_relaxed);
  }
};
void spin(unsigned us) {
  if (us) {
    timespec t{0, long(us) * 1000};
    nanosleep(&t, nullptr);
  }
}

template <class Val>
struct Program {
  using P = dlaf::common::Pipeline<Val>;
  using RW = typename P::ReadWriteWrapper;
  using RO = typename P::ReadOnlyWrapper;
  using ReadWriteSender = typename P::ReadWriteSender;
  using ReadOnlySender = typename P::ReadOnlySender;

  Rng r;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::unique_ptr<Access>> accesses;
  std::vector<std::unique_ptr<Root>> roots;
  std::atomic<int> ids{0};
  std::string trace;
  struct Slot {
    std::optional<P> p;
    Node* n = nullptr;
    Root* root = nullptr;
  };
  std::vector<Slot> slots{6};
  std::vector<std::function<void()>> pending;  // starts (or drops) a sender obtained earlier
  std::vector<std::function<void()>> held;     // gives an access back

  explicit Program(std::uint64_t seed) : r(seed) {}

  static void body(Access& a, const Val& v) {
    a.hollow = v.hollow;
    a.seen = v.seen();
    a.ran.fetch_add(1, std::memory_order_relaxed);
  }
  static void write(Access& a, Val& v) {
    body(a, v);
    v.add(a.id);
  }
  // sender that performs the access; `how` selects where and for how long
  template <class S>
  static void launch(S&& s, Access& a, Root& root, int how, unsigned us) {
    auto f = [&a, &root, us](auto w) {
      Guard g(root, a.rw);
      if constexpr (std::is_same_v<decltype(w), RW>)
        write(a, w.get());
      else
        body(a, w.get());
      spin(us);
    };
    // keeps the access beyond the task that did the work
    auto k = [&a, &root, us](auto w) {
      auto h = std::make_pair(std::move(w), Guard(root, a.rw));
      if constexpr (std::is_same_v<decltype(w), RW>)
        write(a, h.first.get());
      else
        body(a, h.first.get());
      return h;
    };
    switch (how) {
      case 0:
        return ex::start_detached(std::forward<S>(s) | ex::then(f));
      case 1:
        return ex::start_detached(std::forward<S>(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(f));
      default:
        return ex::start_detached(std::forward<S>(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(k) |
                                  ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([us](auto) { spin(us); }));
    }
  }
  Access& access(Node& n, bool rw) {
    accesses.push_back(std::make_unique<Access>());
    Access& a = *accesses.back();
    a.id = ids.fetch_add(1);
    a.rw = rw;
    n.items.push_back({&a, nullptr});
    return a;
  }
  Node* child(Node& n) {
    nodes.push_back(std::make_unique<Node>());
    Node* c = nodes.back().get();
    c->parent = &n;
    n.items.push_back({nullptr, c});
    return c;
  }
  void put(std::function<void()> f) {
    if (r.chance(1, 2))
      f();
    else
      pending.push_back(std::move(f));
  }
  void start_pending() {
    while (!pending.empty()) {
      const std::size_t k = std::size_t(r.range(0, SizeTypeMax(pending.size())));
      auto f = std::move(pending[k]);
      pending.erase(pending.begin() + long(k));
      f();
    }
    while (!held.empty()) {
      const std::size_t k = std::size_t(r.range(0, SizeTypeMax(held.size())));
      held[k] = nullptr;
      held.erase(held.begin() + long(k));
    }
  }
  static std::int64_t SizeTypeMax(std::size_t n) { return std::int64_t(n) - 1; }

  void request(Slot& s) {
    const bool rw = r.chance(1, 2);
    Access& a = access(*s.n, rw);
    const int how = r.irange(0, 2);
    const unsigned us = r.chance(1, 4) ? unsigned(r.irange(1, 60)) : 0;
    Root& root = *s.root;
    trace += rw ? " w" : " r";
    if (rw) {
      auto b = std::make_shared<ReadWriteSender>(s.p->readwrite());
      put([b, &a, &root, how, us]() { launch(std::move(*b), a, root, how, us); });
    }
    else {
      auto b = std::make_shared<ReadOnlySender>(s.p->read());
      if (r.chance(1, 4)) {  // copies of a read-only sender
        Access& a2 = access(*s.n, false);
        auto b2 = std::make_shared<ReadOnlySender>(*b);
        trace += "c";
        put([b2, &a2, &root, how, us]() { launch(std::move(*b2), a2, root, how, us); });
      }
      put([b, &a, &root, how, us]() { launch(std::move(*b), a, root, how, us); });
    }
  }
  void dropped(Slot& s) {
    trace += " x";
    if (r.chance(1, 2)) {
      auto b = std::make_shared<ReadWriteSender>(s.p->readwrite());
      put([b]() mutable { b.reset(); });
    }
    else {
      auto b = std::make_shared<ReadOnlySender>(s.p->read());
      put([b]() mutable { b.reset(); });
    }
    vk::count("senders dropped");
  }
  void close(Slot& s) {
    if (s.n)
      s.n->live = false;
    s.n = nullptr;
    s.root = nullptr;
  }
  bool earlier_live(const Node* n) const {
    for (const Node* c = n; c->parent; c = c->parent)
      for (auto& it : c->parent->items) {
        if (it.n == c)
          break;
        if (it.n && any_live(*it.n))
          return true;
      }
    for (auto& it : n->items)
      if (it.n && any_live(*it.n))
        return true;
    return false;
  }
  static bool any_live(const Node& n) {
    if (n.live && !n.autonomous)
      return true;
    for (auto& it : n.items)
      if (it.n && any_live(*it.n))
        return true;
    return false;
  }

  // a task that owns a sub-pipeline, requests accesses through it and gives it back
  struct Fragment {
    P p;
    Node* n;
    Root* root;
    std::vector<Access*> a;
    std::vector<int> how;
    std::vector<Access*> sub;  // through a nested sub-pipeline, requested after half of the others
    std::vector<int> sub_how;
    std::size_t split;
    bool late;
    std::vector<unsigned> us;
    static void one(P& p, Access& a, Root& root, int how, unsigned us) {
      if (a.rw)
        launch(p.readwrite(), a, root, how, us);
      else
        launch(p.read(), a, root, how, us);
    }
    void operator()() {
      for (std::size_t k = 0; k < split; ++k)
        one(p, *a[k], *root, how[k], us[k]);
      std::optional<P> q;
      if (!sub.empty())
        q.emplace(p.sub_pipeline());
      if (!late)
        nested(q);
      for (std::size_t k = split; k < a.size(); ++k)
        one(p, *a[k], *root, how[k], us[k]);
      if (late)
        nested(q);
    }
    void nested(std::optional<P>& q) {
      for (std::size_t k = 0; k < sub.size(); ++k)
        one(*q, *sub[k], *root, sub_how[k], 0);
      q.reset();
    }
  };
  void fragment(Slot& s) {
    auto f = std::make_shared<Fragment>(Fragment{P(), nullptr, s.root, {}, {}, {}, {}, 0, r.chance(1, 2), {}});
    f->n = child(*s.n);
    f->n->autonomous = true;
    const int na = r.irange(0, 4);
    f->split = std::size_t(r.irange(0, na));
    for (int k = 0; k <= na; ++k) {
      if (std::size_t(k) == f->split && r.chance(1, 2)) {
        Node* c = child(*f->n);
        c->autonomous = true;
        const int ns = r.irange(1, 3);
        for (int q = 0; q < ns; ++q) {
          f->sub.push_back(&access(*c, r.chance(1, 2)));
          f->sub_how.push_back(r.irange(0, 2));
        }
      }
      if (k < na) {
        f->a.push_back(&access(*f->n, r.chance(1, 2)));
        f->how.push_back(r.irange(0, 2));
        f->us.push_back(r.chance(1, 4) ? unsigned(r.irange(1, 40)) : 0);
      }
    }
    f->p = s.p->sub_pipeline();
    trace += cat(" task(", f->a.size(), "+", f->sub.size(), ")");
    vk::count("pipelines moved into tasks");
    ex::start_detached(ex::schedule(ex::thread_pool_scheduler{}) | ex::then([f = std::move(*f)]() mutable { f(); }));
  }

  void step() {
    Slot& s = slots[std::size_t(r.irange(0, 5))];
    if (!s.p || !s.p->valid()) {
      roots.push_back(std::make_unique<Root>());
      s.root = roots.back().get();
      s.n = &s.root->node;
      trace += " new";
      if (!s.p || r.chance(1, 2))
        s.p.emplace(Val(1));
      else
        *s.p = P(Val(1));  // also over a pipeline that was reset
      return;
    }
    const std::size_t si = std::size_t(&s - slots.data());
    switch (r.irange(0, 17)) {
      default:
        request(s);
        break;
      case 0:
        dropped(s);
        break;
      case 1:
      case 2:
      case 3: {  // sub-pipeline into a slot, releasing what is there
        const std::size_t di = std::size_t(r.irange(0, 5));
        Slot& d = slots[di];
        if (di == si)
          break;
        // construct before the target is released: both orders are legal
        Node* c = child(*s.n);
        Root* root = s.root;
        trace += cat(" sub", si, ">", di);
        if (d.p && r.chance(1, 2)) {
          *d.p = s.p->sub_pipeline();
          vk::count(d.n && d.n->parent ? "assignments over live sub-pipelines" : "assignments over pipelines");
          close(d);
        }
        else {
          close(d);
          d.p.emplace(s.p->sub_pipeline());
        }
        d.n = c;
        d.root = root;
        vk::count("sub-pipelines");
        break;
      }
      case 4:
        fragment(s);
        break;
      case 5: {  // move to another slot
        const std::size_t di = std::size_t(r.irange(0, 5));
        Slot& d = slots[di];
        if (di == si)
          break;
        trace += cat(" mv", si, ">", di);
        if (d.p) {
          vk::count(d.n && d.n->parent ? "assignments over live sub-pipelines" : "assignments over pipelines");
          *d.p = std::move(*s.p);
        }
        else
          d.p.emplace(std::move(*s.p));
        close(d);
        d.n = s.n;
        d.root = s.root;
        s.n = nullptr;
        s.root = nullptr;
        VK_CHECK(!s.p->valid() && d.p->valid(), "moved-validity", "after", trace);
        break;
      }
      case 6:
        trace += " reset";
        s.p->reset();
        VK_CHECK(!s.p->valid(), "reset-validity", "after", trace);
        if (r.chance(1, 3))
          s.p->reset();
        close(s);
        break;
      case 7:
        trace += " drop";
        s.p.reset();
        close(s);
        break;
      case 8: {  // everything before has been released: must be granted without further help
        start_pending();
        if (earlier_live(s.n))
          break;
        trace += " wait";
        vk::count("waits for a grant");
        Access& a = access(*s.n, r.chance(1, 2));
        if (a.rw) {
          auto w = std::make_shared<RW>(tt::sync_wait(s.p->readwrite()));
          auto g = std::make_shared<Guard>(*s.root, true);
          write(a, w->get());
          if (r.chance(1, 2))
            held.push_back([w, g]() mutable {});
          g.reset();
        }
        else {  // two readers at once
          Access& b = access(*s.n, false);
          auto w = std::make_shared<RO>(tt::sync_wait(s.p->read()));
          auto g = std::make_shared<Guard>(*s.root, false);
          body(a, w->get());
          RO w2 = tt::sync_wait(s.p->read());
          Guard g2(*s.root, false);
          body(b, w2.get());
          if (r.chance(1, 2))
            held.push_back([w, g]() mutable {});
          g.reset();
        }
        break;
      }
    }
  }

  void flatten(const Node& n, std::vector<const Access*>& out) const {
    for (auto& i : n.items)
      if (i.a)
        out.push_back(i.a);
      else
        flatten(*i.n, out);
  }

  void run() {
    vk::case_begin("program");
    const int steps = r.irange(2, 45);
    for (int k = 0; k < steps; ++k) {
      step();
      vk::case_update("program:" + trace);
    }
    // release everything, in any order
    std::vector<int> order;
    for (int i = 0; i < 6; ++i)
      order.insert(order.begin() + r.irange(0, i), i);
    const int when = r.irange(0, 6);
    for (int i = 0; i < 6; ++i) {
      if (i == when)
        start_pending();
      auto& s = slots[std::size_t(order[std::size_t(i)])];
      s.p.reset();
      close(s);
    }
    start_pending();
    pika::wait();
    for (int k = 0; k < 2000 && (vkp::live_ops.load() || vkp::detached.load()); ++k) {
      usleep(100);
      pika::wait();
    }
    VK_CHECK(vkp::live_ops.load() == 0 && vkp::detached.load() == 0, "lost-work", vkp::live_ops.load(), " operations and ",
             vkp::detached.load(), " detached operations never completed after", trace);
    for (auto& root : roots) {
      std::vector<const Access*> order_;
      flatten(root->node, order_);
      std::vector<int> log;
      VK_CHECK(root->clashes.load() == 0, "exclusive", root->clashes.load(), " accesses overlapped an exclusive one in", trace);
      VK_CHECK(root->active.load() == 0, "not-released", "");
      for (auto* a : order_) {
        VK_CHECK(a->ran.load() == 1, "granted-once", "access ", a->id, a->rw ? " (rw)" : " (ro)", " ran ", a->ran.load(), " times in", trace);
        if (a->ran.load() != 1)
          continue;
        VK_CHECK(!a->hollow, "lost-value", "access ", a->id, a->rw ? " (rw)" : " (ro)", " found a moved-from value in", trace);
        if (a->seen != log) {
          std::string g, w;
          for (int x : a->seen)
            g += cat(" ", x);
          for (int x : log)
            w += cat(" ", x);
          vk::violation(a->rw ? "order-rw" : "order-ro", cat("access ", a->id, " saw the writes [", g, "] instead of [", w, "] in", trace));
        }
        if (a->rw)
          log.push_back(a->id);
        vk::count("grants checked");
      }
      if (root->max_readers.load() > 1)
        vk::count("pipelines with overlapping readers");
    }
    vk::nontrivial("program:" + trace);
  }
};

int main(int argc, char** argv) {
#ifndef VK_TSAN
  using Val = Movable;
  using P = dlaf::common::Pipeline<Val>;
  for (int what = 0; what < 9; ++what) {
    vk::case_begin(cat("access through an invalid pipeline ", what));
    const auto o = vk::run_forked([&] {
      P p(Val(1));
      P q;
      if (what / 3 == 1)
        p.reset();
      if (what / 3 == 2)
        q = std::move(p);
      P& bad = what / 3 == 0 ? q : p;
      if (what % 3 == 0)
        auto s = bad.read();
      if (what % 3 == 1)
        auto s = bad.readwrite();
      if (what % 3 == 2) {
        P s = bad.sub_pipeline();
      }
    });
    VK_CHECK(o != vk::Outcome::Returned || what % 3 == 2, "invalid-access", "returned");
  }
#endif
  pika::start(argc, argv);
  Rng r = vk::rng("programs");
  const int n = vk::scale(4000, 60000);
  std::unordered_set<std::uint64_t> orders;
  for (int k = 0; k < n; ++k) {
    vks::set_policy(r.irange(0, vks::n_policies - 1), r.u64());
    vks::set_delay(r.chance(1, 4) ? unsigned(r.irange(5, 200)) : 0, 100);
    vks::reset_order();
    const int what = r.irange(0, 3);
    const auto seed = r.u64();
    if (what < 2)
      Program<Movable>(seed).run();
    else if (what == 2)
      Program<Copyable>(seed).run();
    else
      Program<Plain>(seed).run();
    vk::count(what < 2 ? "programs over a movable value" : what == 2 ? "programs over a copyable value" : "programs over a plain value");
    if (orders.insert(vks::get_stats().order_hash).second)
      vk::count("distinct task orders");
  }
  const auto s = vks::get_stats();
  vk::count("tasks executed", s.executed);
  vk::count("tasks executed in an order other than submitted", s.reordered);
  pika::stop();
  return vk::finish();
}
