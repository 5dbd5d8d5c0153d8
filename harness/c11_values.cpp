// C11: round-robin pools, signed-index vectors, rvalue-consuming calls and deferred construction.
#include <array>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#include <vk.hpp>

#include <dlaf/common/callable_object.h>
#include <dlaf/common/consume_rvalues.h>
#include <dlaf/common/round_robin.h>
#include <dlaf/common/vector.h>
#include <dlaf/common/with_result_of.h>

using dlaf::SizeType;
using namespace dlaf::common;
using vk::cat;

// every live object is known; values of dead ones are poisoned
struct Tracked {
  static std::map<const void*, long>& live() {
    static std::map<const void*, long> m;
    return m;
  }
  static long made, copies, moves;
  long a, b;
  explicit Tracked(long a_ = 0, long b_ = 0) : a(a_), b(b_) { reg(); ++made; }
  Tracked(const Tracked& o) : a(o.a), b(o.b) { o.alive(); reg(); ++copies; }
  Tracked(Tracked&& o) noexcept : a(o.a), b(o.b) { o.alive(); o.a = -77; reg(); ++moves; }
  Tracked& operator=(const Tracked& o) { o.alive(); alive(); a = o.a; b = o.b; ++copies; return *this; }
  Tracked& operator=(Tracked&& o) noexcept { o.alive(); alive(); a = o.a; b = o.b; if (&o != this) o.a = -77; ++moves; return *this; }
  ~Tracked() {
    alive();
    live().erase(this);
    a = b = -99;
  }
  void reg() {
    if (!live().emplace(this, 1).second)
      vk::violation("lifetime", "constructed over a live object");
  }
  void alive() const {
    if (!live().count(this))
      vk::violation("lifetime", "use of a dead object");
  }
  bool operator==(const Tracked& o) const { return a == o.a && b == o.b; }
};
long Tracked::made = 0, Tracked::copies = 0, Tracked::moves = 0;
std::ostream& operator<<(std::ostream& o, const Tracked& t) { return o << "(" << t.a << "," << t.b << ")"; }

struct Immovable {
  Tracked t;
  explicit Immovable(long v) : t(v, v) {}
  Immovable(Immovable&&) = delete;
};
struct MoveOnly {
  Tracked t;
  explicit MoveOnly(long v) : t(v, v) {}
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
  MoveOnly(const MoveOnly&) = delete;
};

template <class MakePool, class Eq>
void round_robin(vk::Rng& r, std::size_t n, MakePool make, Eq eq) {
  auto pool = std::make_optional(make());
  std::string trace;
  VK_EQ(pool->size(), n, "rr-size", "");
  std::size_t cur = 0;
  if (n == 0)
    return;
  std::vector<const void*> addr(n, nullptr);
  int steps = n > 9 || r.chance(1, 20) ? r.irange(40, 40 + 3 * int(n)) : r.irange(1, 40);
  for (int k = 0; k < steps; ++k) {
    int op = r.irange(0, n > 9 && r.chance(1, 2) ? 7 : 9);
    trace += cat(" ", op);
    if (op < 3) {
      auto& x = pool->currentResource();
      VK_CHECK(eq(x, cur), "rr-value", "resource ", cur, " of ", n, " has a wrong value");
      if (addr[cur])
        VK_CHECK(addr[cur] == &x, "rr-current", "current resource is not number ", cur, " of ", n);
      addr[cur] = &x;
    }
    else if (op < 8) {
      cur = (cur + 1) % n;
      auto& x = pool->nextResource();
      VK_CHECK(eq(x, cur), "rr-value", "resource ", cur, " of ", n, " has a wrong value");
      if (addr[cur])
        VK_CHECK(addr[cur] == &x, "rr-order", "next resource is not number ", cur, " of ", n, " trace", trace);
      addr[cur] = &x;
      for (std::size_t q = 0; q < n; ++q)
        VK_CHECK(q == cur || addr[q] != &x, "rr-order", "a resource is handed out again too early");
    }
    else if (op == 8) {
      auto p2 = std::make_optional(std::move(*pool));
      pool.emplace(std::move(*p2));
      addr.assign(n, nullptr);
      vk::count("pools moved");
    }
    else {
      auto p2 = make();
      p2 = std::move(*pool);
      pool.reset();
      pool.emplace(std::move(p2));
      addr.assign(n, nullptr);
      vk::count("pools moved");
    }
    VK_EQ(pool->size(), n, "rr-size", "after", trace);
    vk::count("pool steps");
  }
  // a full turn visits everything exactly once
  std::map<const void*, int> seen;
  for (std::size_t k = 0; k < n; ++k)
    ++seen[&pool->nextResource()];
  VK_EQ(seen.size(), n, "rr-order", "a full turn does not visit every resource");
}

template <class T, class Make>
void vector_history(vk::Rng& r, Make make, const char* name) {
  using V = dlaf::common::internal::vector<T>;
  std::string trace;
  int form = r.irange(0, 3);
  // mostly short vectors, sometimes long ones
  const SizeType most = r.chance(1, 40) ? (r.chance(1, 2) ? 200 : 3000) : 20;
  SizeType n = r.range(0, most > 20 ? most : 12);
  T val = make(r.range(0, 9));
  std::optional<V> v;
  std::optional<std::vector<T>> m;
  if (form == 0) {
    v.emplace(n);
    m.emplace(std::size_t(n));
  }
  else if (form == 1) {
    v.emplace(n, val);
    m.emplace(std::size_t(n), val);
  }
  else if (form == 2) {
    v.emplace();
    m.emplace();
  }
  else {
    v.emplace(std::initializer_list<T>{make(1), make(2), make(3)});
    m.emplace(std::initializer_list<T>{make(1), make(2), make(3)});
  }
  int steps = most > 20 ? r.irange(3, 10) : r.chance(1, 40) ? r.irange(25, 300) : r.irange(3, 25);
  for (int k = 0; k < steps; ++k) {
    int op = r.irange(0, 10);
    SizeType s = r.range(0, most);
    T x = make(r.range(0, 99));
    trace += cat(" ", op, ":", s);
    vk::case_begin(cat("vector<", name, "> form ", form, " size ", n, " history", trace));
    switch (op) {
      case 0: v->resize(s); m->resize(std::size_t(s)); break;
      case 1: v->resize(s, x); m->resize(std::size_t(s), x); break;
      case 2: v->reserve(s); VK_CHECK(SizeType(v->capacity()) >= s, "vec-reserve", ""); break;
      case 3: v->push_back(x); m->push_back(x); break;
      case 4: if (!m->empty()) { v->pop_back(); m->pop_back(); } break;
      case 5: if (!m->empty()) { SizeType i = s % SizeType(m->size()); (*v)[i] = x; (*m)[std::size_t(i)] = x; } break;
      case 6: if (!m->empty()) { SizeType i = s % SizeType(m->size()); v->at(i) = x; m->at(std::size_t(i)) = x; } break;
      case 7: { V w(*v); V z(std::move(*v)); v.emplace(w); VK_EQ(z.size(), SizeType(m->size()), "vec-size", ""); break; }
      case 8: v->clear(); m->clear(); break;
      case 9: { V w; w = *v; std::swap(w, *v); break; }
      default: {  // checked access out of range is reported
        for (SizeType i : {SizeType(m->size()), SizeType(m->size()) + 1 + s, std::numeric_limits<SizeType>::max()}) {
          bool threw = false;
          try { (void) v->at(i); } catch (const std::out_of_range&) { threw = true; }
          VK_CHECK(threw, "vec-at", "at(", i, ") of a vector of ", m->size(), " did not throw");
          threw = false;
          try { (void) std::as_const(*v).at(i); } catch (const std::out_of_range&) { threw = true; }
          VK_CHECK(threw, "vec-at", "const at(", i, ") of a vector of ", m->size(), " did not throw");
          vk::count("out of range accesses");
        }
      }
    }
    VK_EQ(v->size(), SizeType(m->size()), "vec-size", "");
    static_assert(std::is_signed_v<decltype(v->size())>);
    const V& cv = *v;
    if (cv.size() == SizeType(m->size()))
      for (SizeType i = 0; i < SizeType(m->size()); ++i) {
        VK_CHECK(cv[i] == (*m)[std::size_t(i)] && (*v)[i] == (*m)[std::size_t(i)] && cv.at(i) == (*m)[std::size_t(i)],
                 "vec-value", "element ", i, " of ", m->size());
        VK_CHECK(&cv[i] == v->data() + i && &v->at(i) == &cv[i], "vec-address", "element ", i);
      }
    SizeType q = 0;
    for (auto& e : *v) {
      VK_CHECK(q < SizeType(m->size()) && e == (*m)[std::size_t(q)], "vec-value", "iteration");
      ++q;
    }
    VK_EQ(q, SizeType(m->size()), "vec-size", "iteration");
    vk::count("vector steps");
  }
  vk::nontrivial(cat(name, form, n, trace));
}

// --- consume rvalues
struct Probe {
  int* calls;
  // remembers what it was given
  template <class... Ts>
  long operator()(Ts&&... ts) {
    ++*calls;
    long h = 7;
    ((h = h * 31 + eat(std::forward<Ts>(ts))), ...);
    return h;
  }
  static long eat(Tracked& t) { t.alive(); t.b += 1; return t.a; }
  static long eat(const Tracked& t) { t.alive(); return t.a; }
  static long eat(Tracked&& t) { t.alive(); return t.a; }
};
// a callable which observes value category: all arguments reach it as prvalue-initialised or as lvalue reference
struct Deallocate {
  std::vector<std::string>* log;
  void operator()(std::shared_ptr<int> a, std::shared_ptr<int>& b) { log->push_back(cat("called ", a.use_count(), " ", b.use_count())); }
};

void consume(vk::Rng& r) {
  long v1 = r.range(1, 1000), v2 = r.range(1, 1000), v3 = r.range(1, 1000);
  int shape = r.irange(0, 7);
  vk::case_begin(cat("consume arguments ", shape, " values ", v1, " ", v2, " ", v3));
  vk::nontrivial_current();
  using dlaf::common::internal::ConsumeRvalues;
  const std::size_t live0 = Tracked::live().size();
  {
    int calls = 0;
    Tracked l(v1, 0);
    const Tracked cl(v2, 0);
    auto own1 = std::make_shared<int>(1), own2 = std::make_shared<int>(2);
    std::weak_ptr<int> w1 = own1, w2 = own2;
    // rvalue argument is destroyed before the call returns, although the caller's variable lives on; lvalue is not
    ConsumeRvalues f{[&](auto&& a, auto&& b) {
      static_assert(!std::is_const_v<std::remove_reference_t<decltype(a)>>);
      ++calls;
      (void) a;
      (void) b;
      return w1.use_count() * 10 + w2.use_count();
    }};
    bool first = shape & 1, second = shape & 2, moved_f = shape & 4;
    long seen;
    auto call = [&](auto&& g) {
      if (first && second)
        return std::forward<decltype(g)>(g)(std::move(own1), std::move(own2));
      else if (first)
        return std::forward<decltype(g)>(g)(std::move(own1), own2);
      else if (second)
        return std::forward<decltype(g)>(g)(own1, std::move(own2));
      else
        return std::forward<decltype(g)>(g)(own1, own2);
    };
    if (moved_f)
      seen = call(std::move(f));
    else
      seen = call(f);
    VK_EQ(calls, 1, "consume-calls", "");
    VK_EQ(seen, 11L, "consume-alive-in-call", "owners during the call");
    VK_EQ(w1.expired(), first, "consume-rvalue", "first argument after the call");
    VK_EQ(w2.expired(), second, "consume-rvalue", "second argument after the call");
    VK_EQ(bool(own1), !first, "consume-lvalue", "first");
    VK_EQ(bool(own2), !second, "consume-lvalue", "second");
    // results and references
    int pc = 0;
    ConsumeRvalues p{Probe{&pc}};
    long got = p(l, cl, Tracked(v3, 0));
    VK_EQ(got, ((7L * 31 + v1) * 31 + v2) * 31 + v3, "consume-value", "");
    VK_EQ(l.b, 1L, "consume-lvalue", "an lvalue must be passed by reference");
    VK_EQ(pc, 1, "consume-calls", "");
    Tracked m(v3, 0);
    got = ConsumeRvalues{Probe{&pc}}(std::move(m), l);
    VK_EQ(got, (7L * 31 + v3) * 31 + v1, "consume-value", "");
    VK_EQ(m.a, -77L, "consume-rvalue", "an rvalue must have been moved from");
    VK_EQ(l.b, 2L, "consume-lvalue", "");
    // const rvalue and move-only
    MoveOnly mo(v2);
    const long r2 = ConsumeRvalues{[](MoveOnly x) { return x.t.a; }}(std::move(mo));
    VK_EQ(r2, v2, "consume-value", "move only");
    VK_EQ(mo.t.a, -77L, "consume-rvalue", "move only");
    // returns references unchanged
    int target = 5;
    // the wrapped callable itself is called, not a copy: what it remembers stays
    int total = 0, shared = 0;
    ConsumeRvalues counter{[total, &shared](int by) mutable {
      total += by;
      ++shared;
      return total;
    }};
    int want = 0;
    for (int q = 0; q < 4; ++q) {
      const int by = r.irange(1, 9);
      want += by;
      int as_lvalue = by;
      const int got_total = r.chance(1, 2) ? counter(int(by)) : counter(as_lvalue);
      VK_EQ(got_total, want, "consume-callable", "state of the wrapped callable after call ", q);
    }
    VK_EQ(shared, 4, "consume-calls", "");
    VK_EQ(std::move(counter)(1), want + 1, "consume-callable", "state in the last call");
    decltype(auto) rr = ConsumeRvalues{[](int& x) -> int { return ++x; }}(target);
    VK_EQ(rr, 6, "consume-value", "");
    VK_EQ(target, 6, "consume-lvalue", "");
    // order: the arguments are gone when an exception leaves
    auto own3 = std::make_shared<int>(3);
    std::weak_ptr<int> w3 = own3;
    try {
      ConsumeRvalues{[](std::shared_ptr<int>& x) { if (*x == 3) throw std::runtime_error("x"); }}(own3);
      vk::violation("consume-throw", "the exception was lost");
    }
    catch (const std::runtime_error&) {
      VK_CHECK(!w3.expired() && own3, "consume-lvalue", "lvalue destroyed by an exception");
    }
    try {
      ConsumeRvalues{[](const std::shared_ptr<int>& x) { if (*x == 3) throw std::runtime_error("x"); }}(std::move(own3));
    }
    catch (const std::runtime_error&) {
      VK_CHECK(w3.expired(), "consume-rvalue", "rvalue survived an exception");
    }
    vk::count("consuming calls", 6);
  }
  VK_EQ(Tracked::live().size(), live0, "lifetime", "objects left behind");
}

// --- deferred construction
void deferred(vk::Rng& r) {
  using dlaf::internal::WithResultOf;
  const std::size_t live0 = Tracked::live().size();
  int n = r.irange(1, 12);
  long base = r.range(0, 1 << 20);
  vk::case_begin(cat("deferred construction of ", n, " elements from ", base));
  vk::nontrivial_current();
  {
    long calls = 0;
    auto make = [&]() { return Immovable(base + calls++); };
    std::list<Immovable> l;
    std::optional<Immovable> o;
    std::variant<int, Immovable> v;
    long before = Tracked::copies + Tracked::moves;
    for (int k = 0; k < n; ++k)
      l.emplace_back(WithResultOf(make));
    VK_EQ(calls, long(n), "deferred-calls", "");
    o.emplace(WithResultOf(make));
    v.emplace<Immovable>(WithResultOf(make));
    VK_EQ(calls, long(n) + 2, "deferred-calls", "");
    VK_EQ(Tracked::copies + Tracked::moves, before, "deferred-in-place", "copied or moved");
    long k = 0;
    for (auto& e : l) {
      VK_EQ(e.t.a, base + k, "deferred-fresh", "element ", k);
      ++k;
    }
    VK_EQ(o->t.a, base + n, "deferred-fresh", "optional");
    VK_EQ(std::get<1>(v).t.a, base + n + 1, "deferred-fresh", "variant");
    // as a RoundRobin / vector argument: each element comes from its own call
    long c2 = 0;
    auto mk = [&]() { return std::make_shared<long>(base + c2++); };
    std::vector<std::shared_ptr<long>> vec;
    WithResultOf w(mk);
    for (int q = 0; q < n; ++q)
      vec.emplace_back(w);
    VK_EQ(c2, long(n), "deferred-calls", "reused helper");
    for (int q = 0; q < n; ++q)
      VK_EQ(*vec[std::size_t(q)], base + q, "deferred-fresh", "");
    // rvalue callable owning a resource
    auto res = std::make_unique<long>(base);
    std::optional<Immovable> o2;
    o2.emplace(WithResultOf([p = std::move(res)]() { return Immovable(*p); }));
    VK_EQ(o2->t.a, base, "deferred-fresh", "");
    vk::count("deferred constructions", std::uint64_t(2 * n + 3));
  }
  VK_EQ(Tracked::live().size(), live0, "lifetime", "objects left behind");
}

// --- function objects
long free_fn(int a) { return 1000 + a; }
long free_fn(int& a, long b) { a += 1; return 2000 + a + b; }
long free_fn(Tracked&& t) { Tracked u(std::move(t)); return u.a; }
long free_fn(const std::string& s, double d) noexcept { return long(s.size()) + long(d); }
template <class T>
T& free_tpl(T& x) { x += T(1); return x; }
DLAF_MAKE_CALLABLE_OBJECT(free_fn);
DLAF_MAKE_CALLABLE_OBJECT(free_tpl);

void callables(vk::Rng& r) {
  int a = r.irange(0, 1000);
  long b = r.range(0, 1000);
  vk::case_begin(cat("callable object ", a, " ", b));
  vk::nontrivial_current();
  VK_EQ(free_fn_o(a), 1000L + a, "callable", "");
  int a2 = a;
  VK_EQ(free_fn_o(a2, b), 2000L + a + 1 + b, "callable", "");
  VK_EQ(a2, a + 1, "callable", "reference argument");
  Tracked t(b, 0);
  VK_EQ(free_fn_o(std::move(t)), b, "callable", "");
  VK_EQ(t.a, -77L, "callable", "forwarded as rvalue");
  VK_EQ(free_fn_o(std::string(std::size_t(a % 17), 'x'), 3.0), long(a % 17) + 3, "callable", "");
  static_assert(noexcept(free_fn_o(std::declval<const std::string&>(), 1.0)), "");
  static_assert(!noexcept(free_fn_o(1)), "");
  long z = b;
  auto v = free_tpl_o(z);
  VK_EQ(z, b + 1, "callable", "");
  VK_EQ(v, b + 1, "callable", "");
  vk::count("callable objects", 5);
}

int main() {
  auto r = vk::rng("c11");
  const int n = vk::scale(600, 12000);
  for (int k = 0; k < n; ++k) {
    std::size_t sz = std::size_t(r.chance(1, 30) ? r.irange(10, 300) : r.irange(0, 9));
    long a = r.range(0, 99), b = r.range(0, 99);
    std::uint64_t s = r.u64();
    vk::case_begin(cat("pool of ", sz, " from (", a, ",", b, ") history ", s));
    if (sz)
      vk::nontrivial_current();
    const std::size_t live0 = Tracked::live().size();
    {
      vk::Rng q(s);
      round_robin(q, sz, [&]() { return RoundRobin<Tracked>(sz, a, b); }, [&](Tracked& t, std::size_t) { t.alive(); return t.a == a && t.b == b; });
      // built from a factory: resource i comes from call i
      long calls = 0;
      vk::Rng q2(s + 1);
      auto mk = [&]() { return std::make_shared<long>(calls++); };
      using W = dlaf::internal::WithResultOf<decltype(mk)&>;
      round_robin(
          q2, sz, [&]() { calls = 0; return RoundRobin<std::shared_ptr<long>>(sz, W(mk)); },
          [&](std::shared_ptr<long>& p, std::size_t i) { return p && *p == long(i); });
      vk::Rng q3(s + 2);
      round_robin(q3, sz, [&]() { return RoundRobin<std::string>(sz, std::string("abc")); }, [&](std::string& x, std::size_t) { return x == "abc"; });
    }
    VK_EQ(Tracked::live().size(), live0, "lifetime", "resources left behind by pools");
    vector_history<int>(r, [](SizeType v) { return int(v); }, "int");
    vector_history<double>(r, [](SizeType v) { return double(v) / 3; }, "double");
    vector_history<std::string>(r, [](SizeType v) { return std::string(std::size_t(v % 40), 'q'); }, "string");
    vector_history<Tracked>(r, [](SizeType v) { return Tracked(v, v + 1); }, "tracked");
    vector_history<SizeType>(r, [](SizeType v) { return v; }, "SizeType");
    VK_EQ(Tracked::live().size(), live0, "lifetime", "elements left behind by vectors");
    consume(r);
    deferred(r);
    callables(r);
  }
  using V = dlaf::common::internal::vector<int>;
  struct P {
    const char* name;
    vk::Outcome want;
    void (*f)();
  };
  const P probes[] = {
      {"vector of negative size", vk::Outcome::Terminated, []() { V v(SizeType(-1)); }},
      {"vector of very negative size", vk::Outcome::Terminated, []() { V v(std::numeric_limits<SizeType>::min()); }},
      {"vector of negative size with value", vk::Outcome::Terminated, []() { V v(SizeType(-3), 4); }},
      {"resize to a negative size", vk::Outcome::Terminated, []() { V v(SizeType(3)); v.resize(-1); }},
      {"resize to a negative size with value", vk::Outcome::Terminated, []() { V v(SizeType(3)); v.resize(-1, 5); }},
      {"reserve a negative size", vk::Outcome::Terminated, []() { V v(SizeType(3)); v.reserve(-1); }},
      {"access a negative index", vk::Outcome::Terminated, []() { V v(SizeType(3)); volatile int x = v[-1]; (void) x; }},
      {"checked access of a negative index", vk::Outcome::Terminated, []() { V v(SizeType(3)); volatile int x = v.at(-1); (void) x; }},
      {"checked const access of a negative index", vk::Outcome::Terminated, []() { const V v(SizeType(3)); volatile int x = v.at(-1); (void) x; }},
      {"current resource of an empty pool", vk::Outcome::Terminated, []() { RoundRobin<int> p; p.currentResource(); }},
      {"next resource of an empty pool", vk::Outcome::Terminated, []() { RoundRobin<int> p; p.nextResource(); }},
      {"next resource of a pool of zero", vk::Outcome::Terminated, []() { RoundRobin<int> p(0, 3); p.nextResource(); }},
  };
  for (auto& p : probes) {
    vk::case_begin(p.name);
    auto o = vk::run_forked(p.f);
    VK_CHECK(o == p.want || (p.want == vk::Outcome::Terminated && o == vk::Outcome::Threw), "fail-stop", p.name, ": ", vk::outcome_name(o));
    vk::nontrivial_current();
  }
  return vk::finish();
}
