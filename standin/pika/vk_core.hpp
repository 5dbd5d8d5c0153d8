// Stand-in for the part of pika that DLA-Future uses: the sender adaptors, async_rw_mutex, MPI polling and the runtime.
// Operation-state lifetimes follow pika's: values sent by when_all, continues_on and let_value live in the operation
// state, split and ensure_started drop their predecessor as soon as it has sent its values, drop_operation_state destroys
// the predecessor before continuing.
#pragma once

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdio>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <array>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <sstream>
#include <map>
#include <unordered_map>
#include <set>

#include <mpi.h>

#include "../vk_sched.hpp"

#define PIKA_VERSION_FULL 0x001F00

namespace vkp {
inline std::atomic<long> live_ops{0}, detached{0};

template <class... Ts>
struct pack {};

struct op_base {
  op_base() noexcept { live_ops.fetch_add(1, std::memory_order_relaxed); }
  op_base(op_base&&) = delete;
  virtual ~op_base() { live_ops.fetch_sub(1, std::memory_order_relaxed); }
  virtual void start() noexcept = 0;
};
using op_ptr = std::unique_ptr<op_base>;

template <class P>
struct receiver;
template <class... Ts>
struct receiver<pack<Ts...>> {
  virtual void set_value(Ts&&...) noexcept = 0;
  virtual void set_error(std::exception_ptr) noexcept = 0;

protected:
  ~receiver() = default;
};

template <class S, class = void>
struct is_sender : std::false_type {};
template <class S>
struct is_sender<S, std::void_t<typename std::remove_cv_t<std::remove_reference_t<S>>::vk_values>> : std::true_type {};

template <class S>
using values_of = typename std::decay_t<S>::vk_values;

template <class R>
struct result_pack_impl {
  using type = pack<R>;
};
template <class R>
struct result_pack_impl<R&&> {
  using type = pack<R>;
};
template <>
struct result_pack_impl<void> {
  using type = pack<>;
};
template <class R>
using result_pack = typename result_pack_impl<R>::type;

template <class... Ps>
struct concat;
template <>
struct concat<> {
  using type = pack<>;
};
template <class... Ts>
struct concat<pack<Ts...>> {
  using type = pack<Ts...>;
};
template <class... Ts, class... Us, class... Ps>
struct concat<pack<Ts...>, pack<Us...>, Ps...> : concat<pack<Ts..., Us...>, Ps...> {};

template <class P>
struct decay_pack;
template <class... Ts>
struct decay_pack<pack<Ts...>> {
  using type = pack<std::decay_t<Ts>...>;
};
template <class P>
using decay_pack_t = typename decay_pack<P>::type;

template <class P>
struct tuple_of;
template <class... Ts>
struct tuple_of<pack<Ts...>> {
  using type = std::tuple<std::decay_t<Ts>...>;
};
template <class P>
using tuple_of_t = typename tuple_of<P>::type;

template <class P>
struct const_ref_pack;
template <class... Ts>
struct const_ref_pack<pack<Ts...>> {
  using type = pack<const std::decay_t<Ts>&...>;
};

// sends the (decayed) values of a tuple as rvalues
template <class... Ts>
void send_tuple(receiver<pack<Ts...>>& r, std::tuple<Ts...>& t) {
  std::apply([&](auto&... v) { r.set_value(std::move(v)...); }, t);
}

template <class S>
op_ptr connect(S&& s, receiver<values_of<S>>& r) {
  if constexpr (std::is_lvalue_reference_v<S>) {
    std::decay_t<S> copy(s);
    return std::move(copy).vk_connect(r);
  }
  else
    return std::forward<S>(s).vk_connect(r);
}

// ---- just
template <class... Ts>
struct just_sender {
  using vk_values = pack<Ts...>;
  std::tuple<Ts...> v;
  struct op : op_base {
    std::tuple<Ts...> v;
    receiver<vk_values>& r;
    op(std::tuple<Ts...>&& v, receiver<vk_values>& r) : v(std::move(v)), r(r) {}
    void start() noexcept override { send_tuple(r, v); }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(v), r); }
};

// ---- then
template <class F, class P>
struct then_values;
template <class F, class... Ts>
struct then_values<F, pack<Ts...>> {
  using result = std::invoke_result_t<F&&, Ts&&...>;
  using type = result_pack<result>;
};

template <class S, class F, class P = values_of<S>>
struct then_sender;
template <class S, class F, class... Ts>
struct then_sender<S, F, pack<Ts...>> {
  using vk_values = typename then_values<F, pack<Ts...>>::type;
  S s;
  F f;
  struct op final : op_base, receiver<pack<Ts...>> {
    F f;
    receiver<vk_values>& r;
    op_ptr pred;
    op(S&& s, F&& f, receiver<vk_values>& r) : f(std::move(f)), r(r), pred(connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    void set_value(Ts&&... ts) noexcept override {
      auto& rr = r;
      std::exception_ptr ep;
      try {
        if constexpr (std::is_void_v<typename then_values<F, pack<Ts...>>::result>) {
          std::invoke(std::move(f), std::forward<Ts>(ts)...);
          rr.set_value();
        }
        else
          rr.set_value(std::invoke(std::move(f), std::forward<Ts>(ts)...));
        return;
      }
      catch (...) {
        ep = std::current_exception();
      }
      rr.set_error(std::move(ep));
    }
    void set_error(std::exception_ptr e) noexcept override { r.set_error(std::move(e)); }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(s), std::move(f), r); }
};

// ---- drop_value
template <class S, class P = values_of<S>>
struct drop_value_sender;
template <class S, class... Ts>
struct drop_value_sender<S, pack<Ts...>> {
  using vk_values = pack<>;
  S s;
  struct op final : op_base, receiver<pack<Ts...>> {
    receiver<vk_values>& r;
    op_ptr pred;
    op(S&& s, receiver<vk_values>& r) : r(r), pred(connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    void set_value(Ts&&...) noexcept override { r.set_value(); }
    void set_error(std::exception_ptr e) noexcept override { r.set_error(std::move(e)); }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(s), r); }
};

// ---- drop_operation_state
template <class S, class P = values_of<S>>
struct drop_op_sender;
template <class S, class... Ts>
struct drop_op_sender<S, pack<Ts...>> {
  using vk_values = pack<std::decay_t<Ts>...>;
  S s;
  struct op final : op_base, receiver<pack<Ts...>> {
    receiver<vk_values>& r;
    op_ptr pred;
    op(S&& s, receiver<vk_values>& r) : r(r), pred(connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    void set_value(Ts&&... ts) noexcept override {
      auto& rr = r;
      std::tuple<std::decay_t<Ts>...> t(std::forward<Ts>(ts)...);
      pred.reset();
      send_tuple(rr, t);
    }
    void set_error(std::exception_ptr e) noexcept override {
      pred.reset();
      r.set_error(std::move(e));
    }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(s), r); }
};

// ---- unpack
template <class T, class I>
struct unpack_types;
template <class T, std::size_t... I>
struct unpack_types<T, std::index_sequence<I...>> {
  using tup = std::remove_reference_t<T>;
  using type = pack<std::conditional_t<std::is_lvalue_reference_v<T>, decltype(std::get<I>(std::declval<T>())),
                                       std::tuple_element_t<I, tup>>...>;
};
template <class S, class P = values_of<S>>
struct unpack_sender;
template <class S, class T>
struct unpack_sender<S, pack<T>> {
  using idx = std::make_index_sequence<std::tuple_size_v<std::remove_cv_t<std::remove_reference_t<T>>>>;
  using vk_values = typename unpack_types<T, idx>::type;
  S s;
  struct op final : op_base, receiver<pack<T>> {
    receiver<vk_values>& r;
    op_ptr pred;
    op(S&& s, receiver<vk_values>& r) : r(r), pred(connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    template <std::size_t... I>
    void go(T&& t, std::index_sequence<I...>) {
      r.set_value(std::get<I>(std::forward<T>(t))...);
    }
    void set_value(T&& t) noexcept override { go(std::forward<T>(t), idx{}); }
    void set_error(std::exception_ptr e) noexcept override { r.set_error(std::move(e)); }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(s), r); }
};

// ---- continues_on
template <class S, class P = values_of<S>>
struct cont_sender;
template <class S, class... Ts>
struct cont_sender<S, pack<Ts...>> {
  using vk_values = pack<std::decay_t<Ts>...>;
  S s;
  int prio;
  struct op final : op_base, receiver<pack<Ts...>> {
    receiver<vk_values>& r;
    int prio;
    std::optional<std::tuple<std::decay_t<Ts>...>> v;
    op_ptr pred;
    op(S&& s, int prio, receiver<vk_values>& r) : r(r), prio(prio), pred(connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    void set_value(Ts&&... ts) noexcept override {
      v.emplace(std::forward<Ts>(ts)...);
      vks::submit([](void* p) { auto* o = static_cast<op*>(p); send_tuple(o->r, *o->v); }, this, prio);
    }
    void set_error(std::exception_ptr e) noexcept override { r.set_error(std::move(e)); }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(s), prio, r); }
};

// ---- when_all
template <class... Ss>
struct when_all_sender {
  using vk_values = typename concat<decay_pack_t<values_of<Ss>>...>::type;
  std::tuple<Ss...> ss;

  struct op;
  template <std::size_t I, class P>
  struct child;
  template <std::size_t I, class... Ts>
  struct child<I, pack<Ts...>> final : receiver<pack<Ts...>> {
    op* o = nullptr;
    std::optional<std::tuple<std::decay_t<Ts>...>> v;
    op_ptr pred;
    void set_value(Ts&&... ts) noexcept override {
      v.emplace(std::forward<Ts>(ts)...);
      o->done();
    }
    void set_error(std::exception_ptr e) noexcept override {
      o->fail(std::move(e));
      o->done();
    }
  };
  template <class I>
  struct children;
  template <std::size_t... I>
  struct children<std::index_sequence<I...>> {
    using type = std::tuple<child<I, values_of<std::tuple_element_t<I, std::tuple<Ss...>>>>...>;
  };
  struct op final : op_base {
    using idx = std::index_sequence_for<Ss...>;
    receiver<vk_values>& r;
    typename children<idx>::type c;
    std::atomic<std::size_t> left{sizeof...(Ss)};
    std::atomic<bool> failed{false};
    std::exception_ptr error;
    op(std::tuple<Ss...>&& ss, receiver<vk_values>& r) : r(r) { init(ss, idx{}); }
    template <std::size_t... I>
    void init(std::tuple<Ss...>& ss, std::index_sequence<I...>) {
      (((std::get<I>(c).o = this), (std::get<I>(c).pred = connect(std::move(std::get<I>(ss)), std::get<I>(c)))), ...);
    }
    void start() noexcept override {
      if constexpr (sizeof...(Ss) == 0)
        r.set_value();
      else
        start_(idx{});
    }
    template <std::size_t... I>
    void start_(std::index_sequence<I...>) {
      // the last child may complete and destroy this operation: the pointers are read beforehand
      op_base* p[] = {std::get<I>(c).pred.get()...};
      for (auto* q : p)
        q->start();
    }
    void fail(std::exception_ptr e) {
      if (!failed.exchange(true))
        error = std::move(e);
    }
    void done() {
      if (left.fetch_sub(1, std::memory_order_acq_rel) == 1) {
        if (failed)
          r.set_error(std::move(error));
        else
          finish(idx{});
      }
    }
    template <std::size_t... I>
    void finish(std::index_sequence<I...>) {
      std::apply([&](auto&... v) { r.set_value(std::move(v)...); }, std::tuple_cat(refs(*std::get<I>(c).v)...));
    }
    template <class... Us>
    static std::tuple<Us&...> refs(std::tuple<Us...>& t) {
      return std::apply([](auto&... v) { return std::tuple<Us&...>(v...); }, t);
    }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(ss), r); }
};

// ---- when_all_vector
template <class P>
struct vec_values;
template <>
struct vec_values<pack<>> {
  using type = pack<>;
};
template <class T>
struct vec_values<pack<T>> {
  using type = pack<std::vector<std::decay_t<T>>>;
};
template <class S, class P = values_of<S>>
struct when_all_vector_sender;
template <class S, class... T>
struct when_all_vector_sender<S, pack<T...>> {
  using vk_values = typename vec_values<pack<T...>>::type;
  std::vector<S> ss;
  struct op;
  struct child final : receiver<pack<T...>> {
    op* o = nullptr;
    std::optional<std::tuple<std::decay_t<T>...>> v;
    op_ptr pred;
    void set_value(T&&... t) noexcept override {
      v.emplace(std::forward<T>(t)...);
      o->done();
    }
    void set_error(std::exception_ptr e) noexcept override {
      o->fail(std::move(e));
      o->done();
    }
  };
  struct op final : op_base {
    receiver<vk_values>& r;
    std::size_t n;
    std::unique_ptr<child[]> c;
    std::atomic<std::size_t> left;
    std::atomic<bool> failed{false};
    std::exception_ptr error;
    op(std::vector<S>&& ss, receiver<vk_values>& r) : r(r), n(ss.size()), c(new child[n]), left(n) {
      for (std::size_t i = 0; i < n; ++i) {
        c[i].o = this;
        c[i].pred = connect(std::move(ss[i]), c[i]);
      }
    }
    void start() noexcept override {
      if (n == 0) {
        finish();
        return;
      }
      std::vector<op_base*> p(n);
      for (std::size_t i = 0; i < n; ++i)
        p[i] = c[i].pred.get();
      for (auto* q : p)
        q->start();
    }
    void fail(std::exception_ptr e) {
      if (!failed.exchange(true))
        error = std::move(e);
    }
    void done() {
      if (left.fetch_sub(1, std::memory_order_acq_rel) == 1) {
        if (failed)
          r.set_error(std::move(error));
        else
          finish();
      }
    }
    void finish() {
      if constexpr (sizeof...(T) == 0)
        r.set_value();
      else {
        typename tuple_first<vk_values>::type v;
        v.reserve(n);
        for (std::size_t i = 0; i < n; ++i)
          v.push_back(std::move(std::get<0>(*c[i].v)));
        r.set_value(std::move(v));
      }
    }
    template <class P>
    struct tuple_first;
    template <class V>
    struct tuple_first<pack<V>> {
      using type = V;
    };
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(ss), r); }
};

// ---- let_value
template <class S, class F, class P = values_of<S>>
struct let_sender;
template <class S, class F, class... Ts>
struct let_sender<S, F, pack<Ts...>> {
  using inner = std::decay_t<std::invoke_result_t<F&&, std::decay_t<Ts>&...>>;
  using vk_values = values_of<inner>;
  S s;
  F f;
  struct op final : op_base, receiver<pack<Ts...>> {
    receiver<vk_values>& r;
    F f;
    op_ptr pred;
    std::optional<std::tuple<std::decay_t<Ts>...>> v;
    op_ptr in;
    op(S&& s, F&& f, receiver<vk_values>& r) : r(r), f(std::move(f)), pred(connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    void set_value(Ts&&... ts) noexcept override {
      std::exception_ptr ep;
      try {
        v.emplace(std::forward<Ts>(ts)...);
        in = connect(std::apply([&](auto&... x) { return std::invoke(std::move(f), x...); }, *v), r);
      }
      catch (...) {
        ep = std::current_exception();
      }
      if (ep)
        r.set_error(std::move(ep));
      else
        in->start();
    }
    void set_error(std::exception_ptr e) noexcept override { r.set_error(std::move(e)); }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(s), std::move(f), r); }
};

// ---- shared completion of split, split_tuple and ensure_started
struct waiter {
  virtual void wake() noexcept = 0;

protected:
  ~waiter() = default;
};

template <class S, class P = values_of<S>>
struct shared;
template <class S, class... Ts>
struct shared<S, pack<Ts...>> final : receiver<pack<Ts...>>, std::enable_shared_from_this<shared<S, pack<Ts...>>> {
  using tuple = std::tuple<std::decay_t<Ts>...>;
  std::mutex m;
  bool started = false, completed = false;
  std::optional<tuple> v;
  std::exception_ptr error;
  op_ptr pred;
  std::vector<waiter*> waiting;
  std::shared_ptr<shared> self;

  explicit shared(S&& s) { pred = connect(std::move(s), *this); }

  void ensure() {
    {
      std::lock_guard g(m);
      if (started)
        return;
      started = true;
      self = this->shared_from_this();
    }
    pred->start();
  }
  // wakes w at once when already completed
  void add(waiter* w) {
    {
      std::lock_guard g(m);
      if (!completed) {
        waiting.push_back(w);
        return;
      }
    }
    w->wake();
  }
  void complete() {
    auto keep = std::move(self);
    pred.reset();
    std::vector<waiter*> ws;
    {
      std::lock_guard g(m);
      completed = true;
      ws.swap(waiting);
    }
    for (auto* w : ws)
      w->wake();
  }
  void set_value(Ts&&... ts) noexcept override {
    v.emplace(std::forward<Ts>(ts)...);
    complete();
  }
  void set_error(std::exception_ptr e) noexcept override {
    error = std::move(e);
    complete();
  }
};

template <class S>
struct split_sender {
  using vk_values = typename const_ref_pack<values_of<S>>::type;
  std::shared_ptr<shared<S>> st;
  struct op final : op_base, waiter {
    std::shared_ptr<shared<S>> st;
    receiver<vk_values>& r;
    op(std::shared_ptr<shared<S>> st, receiver<vk_values>& r) : st(std::move(st)), r(r) {}
    void start() noexcept override {
      auto s = st;
      s->add(this);
      s->ensure();
    }
    void wake() noexcept override {
      auto s = st;  // keeps the values while they are used
      if (s->error)
        r.set_error(s->error);
      else
        std::apply([&](const auto&... x) { r.set_value(x...); }, *s->v);
    }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(st), r); }
};

template <class S>
struct started_sender {
  using vk_values = decay_pack_t<values_of<S>>;
  std::shared_ptr<shared<S>> st;
  explicit started_sender(S&& s) : st(std::make_shared<shared<S>>(std::move(s))) { st->ensure(); }
  started_sender(started_sender&&) = default;
  started_sender& operator=(started_sender&&) = default;
  struct op final : op_base, waiter {
    std::shared_ptr<shared<S>> st;
    receiver<vk_values>& r;
    op(std::shared_ptr<shared<S>> st, receiver<vk_values>& r) : st(std::move(st)), r(r) {}
    void start() noexcept override {
      auto s = st;
      s->add(this);
    }
    void wake() noexcept override {
      auto s = st;
      if (s->error)
        r.set_error(s->error);
      else
        send_tuple(r, *s->v);
    }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(st), r); }
};

template <class S, std::size_t I>
struct split_tuple_element {
  using tup = std::tuple_element_t<0, tuple_of_t<values_of<S>>>;
  using vk_values = pack<std::tuple_element_t<I, tup>>;
  std::shared_ptr<shared<S>> st;
  explicit split_tuple_element(std::shared_ptr<shared<S>> s) : st(std::move(s)) {}
  split_tuple_element(split_tuple_element&&) = default;
  split_tuple_element& operator=(split_tuple_element&&) = default;
  struct op final : op_base, waiter {
    std::shared_ptr<shared<S>> st;
    receiver<vk_values>& r;
    op(std::shared_ptr<shared<S>> st, receiver<vk_values>& r) : st(std::move(st)), r(r) {}
    void start() noexcept override {
      auto s = st;
      s->add(this);
      s->ensure();
    }
    void wake() noexcept override {
      auto s = st;
      if (s->error)
        r.set_error(s->error);
      else
        r.set_value(std::move(std::get<I>(std::get<0>(*s->v))));
    }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(st), r); }
};

// ---- bulk
template <class S, class N, class F, class P = values_of<S>>
struct bulk_sender;
template <class S, class N, class F, class... Ts>
struct bulk_sender<S, N, F, pack<Ts...>> {
  using vk_values = pack<std::decay_t<Ts>...>;
  S s;
  N n;
  F f;
  struct op;
  struct chunk {
    op* o;
    N b, e;
  };
  struct op final : op_base, receiver<pack<Ts...>> {
    receiver<vk_values>& r;
    N n;
    F f;
    op_ptr pred;
    std::optional<std::tuple<std::decay_t<Ts>...>> v;
    std::vector<chunk> chunks;
    std::atomic<std::size_t> left{0};
    std::atomic<bool> failed{false};
    std::exception_ptr error;
    op(S&& s, N n, F&& f, receiver<vk_values>& r) : r(r), n(n), f(std::move(f)), pred(connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    void set_value(Ts&&... ts) noexcept override {
      v.emplace(std::forward<Ts>(ts)...);
      if (!(n > 0)) {
        send_tuple(r, *v);
        return;
      }
      const std::size_t k = static_cast<std::size_t>(n) <= 64 ? static_cast<std::size_t>(n) : 16;
      for (std::size_t i = 0; i < k; ++i)
        chunks.push_back({this, static_cast<N>(i * static_cast<std::size_t>(n) / k),
                          static_cast<N>((i + 1) * static_cast<std::size_t>(n) / k)});
      left = k;
      for (std::size_t i = 0; i < k; ++i)  // `this` may be gone after the last submission
        vks::submit(
            [](void* p) {
              auto* c = static_cast<chunk*>(p);
              c->o->run(c->b, c->e);
            },
            &chunks[i], 1);
    }
    void run(N b, N e) {
      try {
        for (N i = b; i < e; ++i)
          std::apply([&](auto&... x) { std::invoke(f, i, x...); }, *v);
      }
      catch (...) {
        if (!failed.exchange(true))
          error = std::current_exception();
      }
      if (left.fetch_sub(1, std::memory_order_acq_rel) == 1) {
        if (failed)
          r.set_error(std::move(error));
        else
          send_tuple(r, *v);
      }
    }
    void set_error(std::exception_ptr e) noexcept override { r.set_error(std::move(e)); }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(s), n, std::move(f), r); }
};

// ---- transform_mpi
template <class S, class F, class P = values_of<S>>
struct mpi_sender;
template <class S, class F, class... Ts>
struct mpi_sender<S, F, pack<Ts...>> {
  using result = std::invoke_result_t<F&&, std::decay_t<Ts>&..., MPI_Request*>;
  using vk_values = result_pack<result>;
  S s;
  F f;
  struct op final : op_base, receiver<pack<Ts...>> {
    receiver<vk_values>& r;
    F f;
    op_ptr pred;
    std::optional<std::tuple<std::decay_t<Ts>...>> v;
    std::conditional_t<std::is_void_v<result>, int, std::optional<std::conditional_t<std::is_void_v<result>, int, result>>>
        res{};
    MPI_Request req = MPI_REQUEST_NULL;
    op(S&& s, F&& f, receiver<vk_values>& r) : r(r), f(std::move(f)), pred(connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    void set_value(Ts&&... ts) noexcept override {
      try {
        v.emplace(std::forward<Ts>(ts)...);
      }
      catch (...) {
        r.set_error(std::current_exception());
        return;
      }
      // as the real runtime, which posts at once or on the pool it was told to use
      if (vks::post_later())
        vks::submit([](void* p) { static_cast<op*>(p)->post(); }, this, 3);
      else
        post();
    }
    void post() noexcept {
      std::exception_ptr ep;
      try {
        std::apply(
            [&](auto&... x) {
              if constexpr (std::is_void_v<result>)
                std::invoke(std::move(f), x..., &req);
              else
                res.emplace(std::invoke(std::move(f), x..., &req));
            },
            *v);
      }
      catch (...) {
        ep = std::current_exception();
      }
      if (ep) {
        r.set_error(std::move(ep));
        return;
      }
      vks::mpi_register(
          req,
          [](void* p) {
            auto* o = static_cast<op*>(p);
            if constexpr (std::is_void_v<result>)
              o->r.set_value();
            else
              o->r.set_value(std::move(*o->res));
          },
          this);
    }
    void set_error(std::exception_ptr e) noexcept override { r.set_error(std::move(e)); }
  };
  op_ptr vk_connect(receiver<vk_values>& r) && { return std::make_unique<op>(std::move(s), std::move(f), r); }
};

// ---- type-erased senders
template <class... Ts>
struct erased_base {
  virtual ~erased_base() = default;
  virtual op_ptr connect(receiver<pack<Ts...>>&) = 0;
  virtual std::unique_ptr<erased_base> clone() const = 0;
};

template <class S, class To, class From = values_of<S>>
struct converting_sender;
template <class S, class... To, class... From>
struct converting_sender<S, pack<To...>, pack<From...>> {
  struct op final : op_base, receiver<pack<From...>> {
    receiver<pack<To...>>& r;
    op_ptr pred;
    op(S&& s, receiver<pack<To...>>& r) : r(r), pred(vkp::connect(std::move(s), *this)) {}
    void start() noexcept override { pred->start(); }
    void set_value(From&&... f) noexcept override { r.set_value(To(std::forward<From>(f))...); }
    void set_error(std::exception_ptr e) noexcept override { r.set_error(std::move(e)); }
  };
};

template <class S, bool copyable, class... Ts>
struct erased final : erased_base<Ts...> {
  S s;
  explicit erased(S&& s) : s(std::move(s)) {}
  op_ptr connect(receiver<pack<Ts...>>& r) override {
    if constexpr (std::is_same_v<values_of<S>, pack<Ts...>>)
      return vkp::connect(std::move(s), r);
    else
      return std::make_unique<typename converting_sender<S, pack<Ts...>>::op>(std::move(s), r);
  }
  std::unique_ptr<erased_base<Ts...>> clone() const override {
    if constexpr (copyable)
      return std::make_unique<erased>(S(s));
    else
      return nullptr;
  }
};
}  // namespace vkp

namespace pika::execution {
enum class thread_priority { default_, low, normal, high, high_recursive, boost, bound };
enum class thread_stacksize { default_, small_, medium, large, huge, nostack, minimal, current };
}

namespace pika::threads::detail {
struct thread_pool_base {
  std::string name = "default";
  std::size_t get_os_thread_count() const { return static_cast<std::size_t>(vks::num_threads()); }
};
}

namespace pika::execution::experimental {

template <class S>
inline constexpr bool is_sender_v = vkp::is_sender<S>::value;
template <class S>
struct is_sender : vkp::is_sender<S> {};

template <class P>
struct vk_traits_impl;
template <class... Ts>
struct vk_traits_impl<vkp::pack<Ts...>> {
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = Variant<Tuple<Ts...>>;
};
template <class S>
struct sender_traits : vk_traits_impl<vkp::values_of<S>> {};

// pipe support
template <class F>
struct vk_closure {
  F f;
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  friend auto operator|(S&& s, vk_closure c) {
    return std::move(c.f)(std::forward<S>(s));
  }
};
template <class F>
vk_closure(F) -> vk_closure<F>;

// schedulers
struct thread_pool_scheduler {
  threads::detail::thread_pool_base* pool = nullptr;
  thread_priority priority = thread_priority::normal;
  thread_stacksize stacksize = thread_stacksize::default_;
  thread_pool_scheduler() = default;
  explicit thread_pool_scheduler(threads::detail::thread_pool_base* p) : pool(p) {}
};
inline thread_pool_scheduler with_priority(thread_pool_scheduler s, thread_priority p) {
  s.priority = p;
  return s;
}
inline thread_pool_scheduler with_stacksize(thread_pool_scheduler s, thread_stacksize p) {
  s.stacksize = p;
  return s;
}
inline thread_priority get_priority(const thread_pool_scheduler& s) { return s.priority; }

template <class... Ts>
vkp::just_sender<std::decay_t<Ts>...> just(Ts&&... ts) {
  return {std::tuple<std::decay_t<Ts>...>(std::forward<Ts>(ts)...)};
}

template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
vkp::then_sender<std::decay_t<S>, std::decay_t<F>> then(S&& s, F&& f) {
  return {std::forward<S>(s), std::forward<F>(f)};
}
template <class F>
auto then(F&& f) {
  return vk_closure{[f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
    return then(std::forward<decltype(s)>(s), std::move(f));
  }};
}

template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
vkp::let_sender<std::decay_t<S>, std::decay_t<F>> let_value(S&& s, F&& f) {
  return {std::forward<S>(s), std::forward<F>(f)};
}
template <class F>
auto let_value(F&& f) {
  return vk_closure{[f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
    return let_value(std::forward<decltype(s)>(s), std::move(f));
  }};
}

template <class S, class = std::enable_if_t<is_sender_v<S>>>
vkp::drop_value_sender<std::decay_t<S>> drop_value(S&& s) {
  return {std::forward<S>(s)};
}
inline auto drop_value() {
  return vk_closure{[](auto&& s) { return drop_value(std::forward<decltype(s)>(s)); }};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
vkp::drop_op_sender<std::decay_t<S>> drop_operation_state(S&& s) {
  return {std::forward<S>(s)};
}
inline auto drop_operation_state() {
  return vk_closure{[](auto&& s) { return drop_operation_state(std::forward<decltype(s)>(s)); }};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
vkp::unpack_sender<std::decay_t<S>> unpack(S&& s) {
  return {std::forward<S>(s)};
}
inline auto unpack() {
  return vk_closure{[](auto&& s) { return unpack(std::forward<decltype(s)>(s)); }};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
vkp::cont_sender<std::decay_t<S>> continues_on(S&& s, thread_pool_scheduler sch) {
  return {std::forward<S>(s), static_cast<int>(sch.priority)};
}
inline auto continues_on(thread_pool_scheduler sch) {
  return vk_closure{[sch](auto&& s) { return continues_on(std::forward<decltype(s)>(s), sch); }};
}
inline auto schedule(thread_pool_scheduler sch) { return continues_on(just(), sch); }
template <class S, class = std::enable_if_t<vkp::is_sender<S>::value>>
auto transfer(S&& s, thread_pool_scheduler sch) {
  return continues_on(std::forward<S>(s), sch);
}
inline auto transfer(thread_pool_scheduler sch) { return continues_on(sch); }
template <class S, class = std::enable_if_t<vkp::is_sender<S>::value>>
auto schedule_from(thread_pool_scheduler sch, S&& s) {
  return continues_on(std::forward<S>(s), sch);
}
template <class... Ts>
auto transfer_just(thread_pool_scheduler sch, Ts&&... ts) {
  return continues_on(just(std::forward<Ts>(ts)...), sch);
}

template <class... Ss, class = std::enable_if_t<(is_sender_v<Ss> && ...)>>
vkp::when_all_sender<std::decay_t<Ss>...> when_all(Ss&&... ss) {
  return {std::tuple<std::decay_t<Ss>...>(std::forward<Ss>(ss)...)};
}
template <class S>
vkp::when_all_vector_sender<S> when_all_vector(std::vector<S>&& ss) {
  return {std::move(ss)};
}
template <class S>
vkp::when_all_vector_sender<S> when_all_vector(const std::vector<S>& ss) {
  return {ss};
}
template <class S>
vkp::when_all_vector_sender<S> when_all_vector(std::vector<S>& ss) {
  return {ss};
}

template <class S, class = std::enable_if_t<is_sender_v<S>>>
vkp::split_sender<std::decay_t<S>> split(S&& s) {
  std::decay_t<S> t(std::forward<S>(s));
  return {std::make_shared<vkp::shared<std::decay_t<S>>>(std::move(t))};
}
inline auto split() {
  return vk_closure{[](auto&& s) { return split(std::forward<decltype(s)>(s)); }};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
vkp::started_sender<std::decay_t<S>> ensure_started(S&& s) {
  std::decay_t<S> t(std::forward<S>(s));
  return vkp::started_sender<std::decay_t<S>>(std::move(t));
}
inline auto ensure_started() {
  return vk_closure{[](auto&& s) { return ensure_started(std::forward<decltype(s)>(s)); }};
}
template <class S, std::size_t... I>
auto vk_split_tuple(std::shared_ptr<vkp::shared<S>> st, std::index_sequence<I...>) {
  return std::make_tuple(vkp::split_tuple_element<S, I>{st}...);
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto split_tuple(S&& s) {
  using D = std::decay_t<S>;
  D t(std::forward<S>(s));
  using tup = std::tuple_element_t<0, vkp::tuple_of_t<vkp::values_of<D>>>;
  return vk_split_tuple(std::make_shared<vkp::shared<D>>(std::move(t)),
                        std::make_index_sequence<std::tuple_size_v<tup>>{});
}
inline auto split_tuple() {
  return vk_closure{[](auto&& s) { return split_tuple(std::forward<decltype(s)>(s)); }};
}
template <class S, class N, class F, class = std::enable_if_t<is_sender_v<S>>>
vkp::bulk_sender<std::decay_t<S>, std::decay_t<N>, std::decay_t<F>> bulk(S&& s, N n, F&& f) {
  return {std::forward<S>(s), n, std::forward<F>(f)};
}
template <class N, class F>
auto bulk(N n, F&& f) {
  return vk_closure{[n, f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
    return bulk(std::forward<decltype(s)>(s), n, std::move(f));
  }};
}

// type-erased senders
template <class... Ts>
class unique_any_sender;
template <class... Ts>
class any_sender {
  std::unique_ptr<vkp::erased_base<Ts...>> p;
  friend class unique_any_sender<Ts...>;

public:
  using vk_values = vkp::pack<Ts...>;
  any_sender() = default;
  any_sender(any_sender&&) = default;
  any_sender(const any_sender& o) : p(o.p ? o.p->clone() : nullptr) {}
  any_sender& operator=(any_sender&&) = default;
  any_sender& operator=(const any_sender& o) {
    p = o.p ? o.p->clone() : nullptr;
    return *this;
  }
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, any_sender>>>
  any_sender(S&& s) {
    static_assert(std::is_copy_constructible_v<std::decay_t<S>>, "any_sender needs a copyable sender");
    std::decay_t<S> t(std::forward<S>(s));
    p = std::make_unique<vkp::erased<std::decay_t<S>, true, Ts...>>(std::move(t));
  }
  bool empty() const noexcept { return !p; }
  explicit operator bool() const noexcept { return bool(p); }
  void reset() { p.reset(); }
  vkp::op_ptr vk_connect(vkp::receiver<vk_values>& r) && {
    if (!p)
      vks::fatal("empty-sender", "an empty any_sender was used");
    auto q = std::move(p);
    return q->connect(r);
  }
};
template <class... Ts>
class unique_any_sender {
  std::unique_ptr<vkp::erased_base<Ts...>> p;

public:
  using vk_values = vkp::pack<Ts...>;
  unique_any_sender() = default;
  unique_any_sender(unique_any_sender&&) = default;
  unique_any_sender(const unique_any_sender&) = delete;
  unique_any_sender& operator=(unique_any_sender&&) = default;
  unique_any_sender& operator=(const unique_any_sender&) = delete;
  unique_any_sender(any_sender<Ts...>&& o) : p(std::move(o.p)) {}
  unique_any_sender(const any_sender<Ts...>& o) : unique_any_sender(any_sender<Ts...>(o)) {}
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, unique_any_sender> &&
                                              !std::is_same_v<std::decay_t<S>, any_sender<Ts...>>>>
  unique_any_sender(S&& s) {
    std::decay_t<S> t(std::forward<S>(s));
    p = std::make_unique<vkp::erased<std::decay_t<S>, false, Ts...>>(std::move(t));
  }
  bool empty() const noexcept { return !p; }
  explicit operator bool() const noexcept { return bool(p); }
  void reset() { p.reset(); }
  vkp::op_ptr vk_connect(vkp::receiver<vk_values>& r) && {
    if (!p)
      vks::fatal("empty-sender", "an empty unique_any_sender was used");
    auto q = std::move(p);
    return q->connect(r);
  }
};
template <class P>
struct vk_any_of;
template <class... Ts>
struct vk_any_of<vkp::pack<Ts...>> {
  using unique = unique_any_sender<std::decay_t<Ts>...>;
  using any = any_sender<std::decay_t<Ts>...>;
};
template <class S>
auto make_unique_any_sender(S&& s) {
  return typename vk_any_of<vkp::values_of<S>>::unique(std::forward<S>(s));
}
template <class S>
auto make_any_sender(S&& s) {
  return typename vk_any_of<vkp::values_of<S>>::any(std::forward<S>(s));
}

// start_detached
template <class S, class P = vkp::values_of<S>>
struct vk_detached;
template <class S, class... Ts>
struct vk_detached<S, vkp::pack<Ts...>> final : vkp::receiver<vkp::pack<Ts...>> {
  vkp::op_ptr op;
  explicit vk_detached(S&& s) {
    vkp::detached.fetch_add(1, std::memory_order_relaxed);
    op = vkp::connect(std::move(s), *this);
  }
  ~vk_detached() { vkp::detached.fetch_sub(1, std::memory_order_relaxed); }
  void set_value(Ts&&...) noexcept override { delete this; }
  void set_error(std::exception_ptr e) noexcept override {
    try {
      std::rethrow_exception(e);
    }
    catch (std::exception& x) {
      vks::fatal("detached-exception", x.what());
    }
    catch (...) {
      vks::fatal("detached-exception", "?");
    }
  }
};
template <class S, class = std::enable_if_t<is_sender_v<S>>>
void start_detached(S&& s) {
  std::decay_t<S> t(std::forward<S>(s));
  auto* d = new vk_detached<std::decay_t<S>>(std::move(t));
  d->op->start();
}
struct vk_detach_fn {
  template <class S>
  void operator()(S&& s) const {
    pika::execution::experimental::start_detached(std::forward<S>(s));
  }
};
inline auto start_detached() { return vk_closure<vk_detach_fn>{}; }
template <class F>
void execute(thread_pool_scheduler sch, F&& f) {
  start_detached(then(schedule(sch), std::forward<F>(f)));
}

// async_rw_mutex
enum class async_rw_mutex_access_type { read, readwrite };

template <class RW>
struct vk_rw_state {
  std::optional<RW> value;
  std::shared_ptr<vk_rw_state> next;
  std::mutex m;
  bool ready = false;
  std::vector<vkp::waiter*> waiting;

  void arrive(RW&& v) {
    value.emplace(std::move(v));
    make_ready();
  }
  void make_ready() {
    std::vector<vkp::waiter*> ws;
    {
      std::lock_guard g(m);
      ready = true;
      ws.swap(waiting);
    }
    for (auto* w : ws)
      w->wake();
  }
  void add(vkp::waiter* w) {
    {
      std::lock_guard g(m);
      if (!ready) {
        waiting.push_back(w);
        return;
      }
    }
    w->wake();
  }
  vk_rw_state() = default;
  vk_rw_state(const vk_rw_state&) = delete;
  ~vk_rw_state() {
    if (next) {
      // the next group's state is kept alive until its continuations have been run
      auto n = std::move(next);
      n->arrive(std::move(*value));
    }
  }
};

template <class RW, class R, async_rw_mutex_access_type A>
class async_rw_mutex_access_wrapper;

template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read> {
  std::shared_ptr<vk_rw_state<RW>> st;

public:
  async_rw_mutex_access_wrapper() = delete;
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<vk_rw_state<RW>> s) : st(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = default;
  std::add_const_t<R>& get() const {
    if (!st)
      vks::fatal("released-access", "a released read access was used");
    return *st->value;
  }
  operator std::add_const_t<R>&() const { return get(); }
};
template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite> {
  std::shared_ptr<vk_rw_state<RW>> st;

public:
  async_rw_mutex_access_wrapper() = delete;
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<vk_rw_state<RW>> s) : st(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = delete;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = delete;
  RW& get() {
    if (!st)
      vks::fatal("released-access", "a released read-write access was used");
    return *st->value;
  }
  const RW& get() const {
    if (!st)
      vks::fatal("released-access", "a released read-write access was used");
    return *st->value;
  }
  operator RW&() { return get(); }
  operator const RW&() const { return get(); }
};

template <class RW, class W>
struct vk_rw_sender {
  using vk_values = vkp::pack<W>;
  std::shared_ptr<vk_rw_state<RW>> st;
  struct op final : vkp::op_base, vkp::waiter {
    std::shared_ptr<vk_rw_state<RW>> st;
    vkp::receiver<vk_values>& r;
    op(std::shared_ptr<vk_rw_state<RW>> s, vkp::receiver<vk_values>& r) : st(std::move(s)), r(r) {}
    void start() noexcept override {
      auto s = st;
      s->add(this);
    }
    void wake() noexcept override {
      auto& rr = r;
      W w(std::move(st));
      rr.set_value(std::move(w));
    }
  };
  vkp::op_ptr vk_connect(vkp::receiver<vk_values>& r) && {
    if (!st)
      vks::fatal("used-sender", "a consumed access sender was used again");
    return std::make_unique<op>(std::move(st), r);
  }
};
template <class RW, class W>
struct vk_rw_unique_sender : vk_rw_sender<RW, W> {
  explicit vk_rw_unique_sender(std::shared_ptr<vk_rw_state<RW>> s) : vk_rw_sender<RW, W>{std::move(s)} {}
  vk_rw_unique_sender(vk_rw_unique_sender&&) = default;
  vk_rw_unique_sender& operator=(vk_rw_unique_sender&&) = default;
};

template <class RW, class R = RW>
class async_rw_mutex {
  using state = vk_rw_state<std::decay_t<RW>>;
  std::optional<std::decay_t<RW>> value;
  std::shared_ptr<state> st;
  async_rw_mutex_access_type prev = async_rw_mutex_access_type::readwrite;

  void next_state() {
    auto n = std::make_shared<state>();
    if (st)
      st->next = n;  // the previous group hands the value over when its last access is released
    else
      n->arrive(std::move(*value));
    // this may release the last reference to the previous group
    auto old = std::move(st);
    st = std::move(n);
  }

public:
  using read_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read>;
  using readwrite_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite>;

  async_rw_mutex() = delete;
  template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>>>
  explicit async_rw_mutex(U&& u) : value(std::forward<U>(u)) {}
  async_rw_mutex(async_rw_mutex&&) = default;
  async_rw_mutex(const async_rw_mutex&) = delete;
  async_rw_mutex& operator=(async_rw_mutex&&) = default;
  async_rw_mutex& operator=(const async_rw_mutex&) = delete;

  vk_rw_sender<std::decay_t<RW>, read_access_type> read() {
    if (!st || prev == async_rw_mutex_access_type::readwrite)
      next_state();
    prev = async_rw_mutex_access_type::read;
    return {st};
  }
  vk_rw_unique_sender<std::decay_t<RW>, readwrite_access_type> readwrite() {
    next_state();
    prev = async_rw_mutex_access_type::readwrite;
    return vk_rw_unique_sender<std::decay_t<RW>, readwrite_access_type>(st);
  }
};
}  // namespace pika::execution::experimental

namespace pika::mpi::experimental {
enum class exception_mode { install_handler, no_handler };
inline void start_polling(exception_mode = exception_mode::install_handler) { vks::start_polling(); }
inline void stop_polling() { vks::stop_polling(); }
inline std::string get_pool_name() { return "mpi"; }

template <class S, class F, class = std::enable_if_t<vkp::is_sender<S>::value>>
vkp::mpi_sender<std::decay_t<S>, std::decay_t<F>> transform_mpi(S&& s, F&& f) {
  return {std::forward<S>(s), std::forward<F>(f)};
}
template <class F>
auto transform_mpi(F&& f) {
  return execution::experimental::vk_closure{[f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
    return transform_mpi(std::forward<decltype(s)>(s), std::move(f));
  }};
}
}

namespace pika::this_thread::experimental {
template <class P>
struct vk_sync;
template <class... Ts>
struct vk_sync<vkp::pack<Ts...>> final : vkp::receiver<vkp::pack<Ts...>> {
  std::mutex m;
  std::condition_variable cv;
  bool done = false;
  std::optional<std::tuple<std::decay_t<Ts>...>> v;
  std::exception_ptr error;
  void finish() {
    std::lock_guard g(m);
    done = true;
    cv.notify_all();
  }
  void set_value(Ts&&... ts) noexcept override {
    v.emplace(std::forward<Ts>(ts)...);
    finish();
  }
  void set_error(std::exception_ptr e) noexcept override {
    error = std::move(e);
    finish();
  }
};
template <class S, class = std::enable_if_t<vkp::is_sender<S>::value>>
auto sync_wait(S&& s) {
  using P = vkp::values_of<S>;
  vk_sync<P> st;
  std::decay_t<S> t(std::forward<S>(s));
  auto op = vkp::connect(std::move(t), st);
  op->start();
  {
    std::unique_lock g(st.m);
    if (!st.done) {
      vks::block_begin();
      st.cv.wait(g, [&] { return st.done; });
      vks::block_end();
    }
  }
  if (st.error)
    std::rethrow_exception(st.error);
  if constexpr (!std::is_same_v<P, vkp::pack<>>)
    return std::move(std::get<0>(*st.v));
}
struct vk_sync_fn {
  template <class S>
  auto operator()(S&& s) const {
    return pika::this_thread::experimental::sync_wait(std::forward<S>(s));
  }
};
inline auto sync_wait() { return execution::experimental::vk_closure<vk_sync_fn>{}; }
}

namespace pika {
class mutex {
  std::mutex m;

public:
  void lock() {
    if (!m.try_lock()) {
      vks::block_begin();
      m.lock();
      vks::block_end();
    }
  }
  bool try_lock() { return m.try_lock(); }
  void unlock() { m.unlock(); }
};

template <class = void>
class barrier {
  std::mutex m;
  std::condition_variable cv;
  std::ptrdiff_t expected, left;
  unsigned long phase = 0;

public:
  explicit barrier(std::ptrdiff_t n) : expected(n), left(n) {}
  void arrive_and_wait(std::chrono::duration<double> = std::chrono::duration<double>(0)) {
    std::unique_lock g(m);
    if (--left == 0) {
      left = expected;
      ++phase;
      cv.notify_all();
      return;
    }
    const auto p = phase;
    vks::block_begin();
    cv.wait(g, [&] { return phase != p; });
    vks::block_end();
  }
};

template <std::ptrdiff_t = PTRDIFF_MAX>
class counting_semaphore {
  std::mutex m;
  std::condition_variable cv;
  std::ptrdiff_t v;

public:
  explicit counting_semaphore(std::ptrdiff_t n) : v(n) {}
  void release(std::ptrdiff_t n = 1) {
    std::lock_guard g(m);
    v += n;
    cv.notify_all();
  }
  void acquire() {
    std::unique_lock g(m);
    if (v == 0) {
      vks::block_begin();
      cv.wait(g, [&] { return v > 0; });
      vks::block_end();
    }
    --v;
  }
  bool try_acquire() {
    std::lock_guard g(m);
    if (v == 0)
      return false;
    --v;
    return true;
  }
};

class latch {
  std::mutex m;
  std::condition_variable cv;
  std::ptrdiff_t n;

public:
  explicit latch(std::ptrdiff_t n_) : n(n_) {}
  void count_down(std::ptrdiff_t k = 1) {
    std::lock_guard g(m);
    if ((n -= k) <= 0)
      cv.notify_all();
  }
  bool try_wait() {
    std::lock_guard g(m);
    return n <= 0;
  }
  void wait() {
    std::unique_lock g(m);
    if (n > 0) {
      vks::block_begin();
      cv.wait(g, [&] { return n <= 0; });
      vks::block_end();
    }
  }
  void arrive_and_wait(std::ptrdiff_t k = 1) {
    count_down(k);
    wait();
  }
};

inline bool is_runtime_initialized() { return vks::running(); }
inline std::size_t get_os_thread_count() { return static_cast<std::size_t>(vks::num_threads()); }
inline void wait() { vks::wait_idle(); }
inline void suspend() {
  if (!vks::running())
    throw std::runtime_error("pika::suspend: the runtime system is not active");
  vks::suspend();
}
inline void resume() {
  if (!vks::running())
    throw std::runtime_error("pika::resume: the runtime system is not active");
  vks::resume();
}
inline void finalize() {
  if (!vks::running() || vks::suspended())
    throw std::runtime_error("pika::finalize: the runtime system is not active");
}
struct scoped_finalize {
  ~scoped_finalize() { finalize(); }
};
namespace resource {
inline threads::detail::thread_pool_base& get_thread_pool(const std::string& = "default") {
  static threads::detail::thread_pool_base p;
  return p;
}
inline std::size_t get_num_threads(const std::string& = "default") { return get_os_thread_count(); }
inline std::size_t get_num_threads(std::size_t) { return get_os_thread_count(); }
}
}
