// C36: the kernels on single tiles, called directly, through the blocking overloads and asynchronously, on tiles of the caller's memory
// and on whole and partial tiles of matrices. Results against naive formulas, all surrounding memory bit by bit.
#pragma once
#include <alg.hpp>
#include <dlaf/blas/tile.h>
#include <dlaf/blas/tile_extensions.h>
#include <dlaf/lapack/tile.h>
#include <dlaf/lapack/tile_extensions.h>
#include <dlaf/matrix/copy_tile.h>
#include <dlaf/sender/when_all_lift.h>
#include <dlaf/sender/with_temporary_tile.h>
using namespace alg;
using dlaf::internal::Policy;
using dlaf::internal::whenAllLift;
using dlaf::matrix::SubTileSpec;
using dlaf::matrix::Tile;
using dlaf::memory::MemoryView;
using pika::execution::thread_priority;
template class dlaf::matrix::Tile<int, Device::CPU>;
template class dlaf::matrix::Tile<SizeType, Device::CPU>;
constexpr Backend B = Backend::MC;
constexpr Device D = Device::CPU;
using blas::Diag;
using blas::Side;
using blas::Uplo;

template <class T>
T junk(Rng& r) {
  T x;
  unsigned char b[sizeof(T)];
  for (auto& c : b)
    c = static_cast<unsigned char>(r.u64());
  std::memcpy(static_cast<void*>(&x), b, sizeof(T));
  return x;
}
template <class T>
T nan_or_junk() {
  if constexpr (std::is_integral_v<T>)
    return T(-77);
  else
    return nan_<T>();
}

// A tile of given size and contents: over the caller's memory, or (part of) a tile of a matrix.
template <class T>
struct Op {
  bool own;
  SizeType rows, cols;
  Ref<T> val;
  bool any_inside = false;  // workspace
  // caller's memory
  std::vector<T> buf, before;
  SizeType ld = 1, front = 0;
  // matrix
  std::unique_ptr<Mat<T>> m;
  GlobalTileIndex t;
  std::optional<SubTileSpec> sub;
  GlobalElementIndex o;
  Ref<T> all;

  Op(Rng& r, Group& g, bool own_, Ref<T> v) : own(own_), rows(v.m), cols(v.n), val(std::move(v)) {
    if (own) {
      ld = std::max<SizeType>(1, rows) + (r.chance(1, 2) ? r.irange(1, 4) : 0);
      front = r.irange(0, 3);
      const SizeType n = front + (rows && cols ? ld * (cols - 1) + rows : 0) + r.irange(0, 3);
      buf.resize(std::size_t(n));
      for (auto& x : buf)
        x = junk<T>(r);
      before = buf;
      for (SizeType j = 0; j < cols; ++j)
        for (SizeType i = 0; i < rows; ++i)
          buf[std::size_t(front + i + ld * j)] = val(i, j);
      return;
    }
    const bool part = !rows || !cols || r.chance(1, 2);
    const SizeType orow = part ? r.irange(0, 3) : 0, ocol = part ? r.irange(0, 3) : 0;
    // the tile itself
    const SizeType tr = std::max<SizeType>(1, rows + orow + (part ? r.irange(0, 3) : 0)), tc = std::max<SizeType>(1, cols + ocol + (part ? r.irange(0, 3) : 0));
    const bool last_r = r.chance(1, 2), last_c = r.chance(1, 2);
    const SizeType mb = tr + (last_r ? r.irange(0, 3) : 0), nb = tc + (last_c ? r.irange(0, 3) : 0);
    t = GlobalTileIndex(r.irange(0, 1), r.irange(0, 1));
    const SizeType M = t.row() * mb + tr + (last_r ? 0 : r.irange(0, int(mb))), N = t.col() * nb + tc + (last_c ? 0 : r.irange(0, int(nb)));
    const Distribution d = make_dist(g, M, N, mb, nb, {0, 0});
    if (part)
      sub = SubTileSpec{{orow, ocol}, {rows, cols}};
    o = GlobalElementIndex(t.row() * mb + orow, t.col() * nb + ocol);
    all = Ref<T>(M, N);
    for (auto& x : all.v)
      x = junk<T>(r);
    for (SizeType j = 0; j < cols; ++j)
      for (SizeType i = 0; i < rows; ++i)
        all(o.row() + i, o.col() + j) = nan_or_junk<T>();
    m = std::make_unique<Mat<T>>(g, d, random_alloc(r), all);
  }
  bool inside(SizeType i, SizeType j) const { return i >= o.row() && i < o.row() + rows && j >= o.col() && j < o.col() + cols; }
  std::string desc() const { return cat(rows, "x", cols, own ? cat("/", ld) : sub ? "part" : "tile"); }

  Tile<T, D> tile() { return Tile<T, D>(TileElementSize(rows, cols), MemoryView<T, D>(buf.data() + front, SizeType(buf.size()) - front), ld); }
  // fills a tile at the right time
  void put(const Ref<T>& v, thread_priority prio) {
    if (own)
      return;
    ex::start_detached(write_sender() | dlaf::internal::transform(Policy<B>(prio), [v](const Tile<T, D>& x) {
                         for (SizeType j = 0; j < v.n; ++j)
                           for (SizeType i = 0; i < v.m; ++i)
                             x({i, j}) = v(i, j);
                       }));
  }
  matrix::ReadWriteTileSender<T, D> write_sender() {
    if (sub)
      return matrix::splitTile((**m).readwrite(t), *sub);
    return (**m).readwrite(t);
  }
  matrix::ReadOnlyTileSender<T, D> read_sender() {
    if (sub)
      return matrix::splitTile((**m).read(t), *sub);
    return (**m).read(t);
  }
  // a tile of its own, gone when the kernel is
  Tile<const T, D> copy_tile() {
    const SizeType l = std::max<SizeType>(1, rows) + 1;
    Tile<T, D> x(TileElementSize(rows, cols), MemoryView<T, D>(rows && cols ? l * cols : 0), l);
    for (SizeType j = 0; j < cols; ++j)
      for (SizeType i = 0; i < rows; ++i)
        x({i, j}) = val(i, j);
    return Tile<const T, D>(std::move(x));
  }
  void poison(thread_priority prio) {
    if (own || !rows || !cols)
      return;
    std::fill(val.v.begin(), val.v.end(), nan_or_junk<T>());
    put(val, prio);
    vk::count("operands overwritten right behind the call");
  }

  Ref<T> get() {
    Ref<T> x(rows, cols);
    if (own) {
      for (SizeType j = 0; j < cols; ++j)
        for (SizeType i = 0; i < rows; ++i)
          x(i, j) = buf[std::size_t(front + i + ld * j)];
    }
    else {
      const Ref<T> f = m->local();
      for (SizeType j = 0; j < cols; ++j)
        for (SizeType i = 0; i < rows; ++i)
          x(i, j) = f(o.row() + i, o.col() + j);
    }
    return x;
  }
  void check_outside(const char* who) {
    if (!own)
      return m->check_bits(all, who, [&](SizeType i, SizeType j) { return !inside(i, j); });
    for (SizeType k = 0; k < SizeType(buf.size()); ++k) {
      const SizeType p = k - front;
      if (p >= 0 && rows && p % ld < rows && p / ld < cols)
        continue;
      VK_CHECK(same_bits(buf[std::size_t(k)], before[std::size_t(k)]), cat("changed:", who), who, ": memory outside the tile was written, offset ", p, " ld ", ld);
    }
    vk::count("elements compared bit by bit", buf.size());
  }
  // bits of the region where `where` says so, and everything around it
  template <class W>
  void check_kept(const char* who, W&& where) {
    check_outside(who);
    const Ref<T> x = get();
    for (SizeType j = 0; j < cols; ++j)
      for (SizeType i = 0; i < rows; ++i)
        if (where(i, j) && !same_bits(x(i, j), val(i, j))) {
          vk::violation(cat("changed:", who), cat(who, ": element (", i, ",", j, ") changed from ", val(i, j), " to ", x(i, j)));
          return;
        }
    vk::count("elements compared bit by bit", x.v.size());
  }
  void check_unchanged(const char* who) {
    check_kept(who, [](SizeType, SizeType) { return true; });
  }
};

template <class T>
struct In {
  Op<T>* o;
};
template <class T>
struct Out {
  Op<T>* o;
};
template <class T>
In<T> in(Op<T>& o) {
  return {&o};
}
template <class T>
Out<T> out(Op<T>& o) {
  return {&o};
}

struct Call {
  enum Mode { DIRECT, BLOCKING, ASYNC, OWNED } mode;
  bool detach;
  thread_priority prio, prio2;
  bool own() const { return mode == DIRECT || mode == BLOCKING; }
  std::string desc() const {
    static const char* n[] = {"direct", "blocking", "async", "owned"};
    return cat(n[mode], own() ? "" : detach ? "/detached" : "/waited");
  }
};

template <class A>
A direct(const A& a) {
  return a;
}
template <class T>
Tile<const T, D> direct(const In<T>& a) {
  return Tile<const T, D>(a.o->tile());
}
template <class T>
Tile<T, D> direct(const Out<T>& a) {
  return a.o->tile();
}
template <class A>
A byref(const A& a) {
  return a;
}
template <class T>
auto byref(const Tile<T, D>& a) {
  return std::cref(a);
}
template <bool Owned, class A>
A lift(const A& a) {
  return a;
}
template <bool Owned, class T>
auto lift(const In<T>& a) {
  if constexpr (Owned)
    return ex::just(a.o->copy_tile());
  else
    return a.o->read_sender();
}
template <bool Owned, class T>
auto lift(const Out<T>& a) {
  return a.o->write_sender();
}
template <class A>
void prepare(const A&, thread_priority) {}
template <class T>
void prepare(const In<T>& a, thread_priority p) {
  a.o->put(a.o->val, p);
}
template <class T>
void prepare(const Out<T>& a, thread_priority p) {
  a.o->put(a.o->val, p);
}
template <class A>
void poison(const A&, thread_priority) {}
template <class T>
void poison(const In<T>& a, thread_priority p) {
  a.o->poison(p);
}

inline void finish(const Call& c, ex::unique_any_sender<> s) {
  if (c.detach)
    ex::start_detached(std::move(s));
  else
    tt::sync_wait(std::move(s));
}
// asynchronously: operands from matrices, or tiles the call owns handed to the partially applied kernel
template <class K, bool Owned, class Sink, class... A>
void async_call(const Call& c, Sink sink, const A&... a) {
  (prepare(a, c.prio2), ...);
  auto s = [&] {
    if constexpr (Owned)
      return whenAllLift(lift<Owned>(a)...) | K::partial(Policy<B>(c.prio));
    else
      return K::async(Policy<B>(c.prio), whenAllLift(lift<Owned>(a)...));
  }();
  if constexpr (std::is_same_v<Sink, std::nullptr_t>)
    finish(c, std::move(s));
  else
    finish(c, std::move(s) | ex::then(sink));
  (poison(a, c.prio2), ...);
  pika::wait();
}
template <class K, class Sink, class... A>
void invoke(const Call& c, Sink sink, const A&... a) {
  vk::count(cat("calls ", c.desc()));
  switch (c.mode) {
    case Call::DIRECT: {
      std::tuple<decltype(direct(a))...> x(direct(a)...);
      std::apply(
          [&](auto&... y) {
            if constexpr (std::is_same_v<Sink, std::nullptr_t>)
              K::direct(y...);
            else
              sink(K::direct(y...));
          },
          x);
      break;
    }
    case Call::BLOCKING: {
      if constexpr (sizeof...(A) >= 2 && std::is_same_v<Sink, std::nullptr_t>) {
        std::tuple<decltype(direct(a))...> x(direct(a)...);
        std::apply([&](auto&... y) { K::blocking(Policy<B>(c.prio), byref(y)...); }, x);
      }
      break;
    }
    case Call::ASYNC:
      return async_call<K, false>(c, sink, a...);
    case Call::OWNED:
      return async_call<K, true>(c, sink, a...);
  }
}

#define KERNEL(name, inner, outer)                                                          \
  struct K_##name {                                                                         \
    static constexpr const char* n = #name;                                                 \
    template <class... A>                                                                   \
    static auto direct(A&&... a) {                                                          \
      return inner(std::forward<A>(a)...);                                                  \
    }                                                                                       \
    template <class... A>                                                                   \
    static void blocking(Policy<B> p, A&&... a) {                                           \
      outer(p, std::forward<A>(a)...);                                                      \
    }                                                                                       \
    template <class S>                                                                      \
    static auto async(Policy<B> p, S&& s) {                                                 \
      return outer(p, std::forward<S>(s));                                                  \
    }                                                                                       \
    static auto partial(Policy<B> p) { return outer(p); }                                   \
  };
#define TK(name) KERNEL(name, dlaf::tile::internal::name, dlaf::tile::name)
// ---------------------------------------------------------------- one case
template <class T>
struct Base {
  Rng& r;
  Group& g;
  Call c;
  std::string sched;
  using R = Real<T>;
  static constexpr double E = eps<T>();

  SizeType dim() {
    const int k = r.irange(0, 11);
    return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? (r.chance(1, 20) ? r.irange(60, 140) : r.irange(13, 40)) : r.irange(1, 12);
  }
  T scalar() {
    switch (r.irange(0, 5)) {
      case 0:
        return T(0);
      case 1:
        return T(1);
      case 2:
        return T(-1);
      default:
        return rnd<T>(r);
    }
  }
  R real_scalar() {
    switch (r.irange(0, 5)) {
      case 0:
        return R(0);
      case 1:
        return R(1);
      case 2:
        return R(-1);
      default:
        return R(r.real());
    }
  }
  Uplo uplo() { return r.chance(1, 2) ? Uplo::Lower : Uplo::Upper; }
  Side side() { return r.chance(1, 2) ? Side::Left : Side::Right; }
  Diag diag() { return r.chance(1, 2) ? Diag::Unit : Diag::NonUnit; }
  blas::Op op() {
    const blas::Op o[] = {blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans};
    return o[r.irange(0, 2)];
  }
  // the ones defined for Hermitian updates
  blas::Op herm_op() {
    if (is_cx<T>)
      return r.chance(1, 2) ? blas::Op::NoTrans : blas::Op::ConjTrans;
    return op();
  }
  Op<T> make(Ref<T> v) { return Op<T>(r, g, c.own(), std::move(v)); }
  template <class... A>
  void begin(const char* name, const A&... a) {
    const std::string d = cat(name, " ", name_of<T>::v, " ", c.desc(), " ", a...);
    vk::case_begin(d + sched);
    vk::nontrivial(d);
    vk::count(cat("kernel ", name));
  }
  Ref<T> opped(const Ref<T>& a, blas::Op o) { return adjoint(a, o); }
  Ref<T> scaled(T s, Ref<T> a) {
    for (auto& x : a.v)
      x = s == T(0) ? T(0) : s * x;
    return a;
  }
  Ref<T> plus(Ref<T> a, const Ref<T>& b) {
    for (std::size_t k = 0; k < a.v.size(); ++k)
      a.v[k] += b.v[k];
    return a;
  }
  Ref<T> maybe_nan(Ref<T> c0, T beta) {
    if (beta == T(0) && r.chance(1, 2))
      std::fill(c0.v.begin(), c0.v.end(), nan_<T>());
    return c0;
  }
  Ref<T> beta_c(T beta, const Ref<T>& c0) { return scaled(beta, c0); }
  double tol(SizeType k) { return 8 * double(k + 4) * E * double(k + 2); }
  template <class W>
  void result(Op<T>& o, const Ref<T>& want, double tl, const char* name, W&& where) {
    o.check_kept(name, [&](SizeType i, SizeType j) { return !where(i, j); });
    check_close(o.get(), want, tl, name, where);
    vk::count("results checked");
  }
  void result(Op<T>& o, const Ref<T>& want, double tl, const char* name) {
    result(o, want, tl, name, [](SizeType, SizeType) { return true; });
  }
  static auto tri(Uplo u) {
    return [u](SizeType i, SizeType j) { return in_tri(u, i, j); };
  }
  static auto tri(Uplo u, Diag d) {
    return [u, d](SizeType i, SizeType j) { return in_tri(u, i, j) && !(i == j && d == Diag::Unit); };
  }
  Ref<T> tri_input(SizeType n, Uplo u, Diag d) {
    Ref<T> a = random_tri<T>(r, n, d == Diag::Unit);
    poison_outside(a, u);
    return a;
  }
  Ref<T> half(Ref<T> a, Uplo u) {
    poison_outside(a, u);
    return a;
  }

};
#define USE_BASE                                                                                                                \
  using Base<T>::r, Base<T>::g, Base<T>::c, Base<T>::sched, Base<T>::E, Base<T>::dim, Base<T>::scalar, Base<T>::real_scalar,    \
      Base<T>::uplo, Base<T>::side, Base<T>::diag, Base<T>::op, Base<T>::herm_op, Base<T>::make, Base<T>::begin, Base<T>::opped, \
      Base<T>::scaled, Base<T>::plus, Base<T>::maybe_nan, Base<T>::beta_c, Base<T>::tol, Base<T>::result, Base<T>::tri,          \
      Base<T>::tri_input, Base<T>::half;                                                                                         \
  using R = Real<T>;

void blas_case(Rng& r, Group& g, const Call& c, const std::string& sched);
void lapack_case(Rng& r, Group& g, const Call& c, const std::string& sched);
void temp_case(Rng& r, Group& g, const Call& c, const std::string& sched);
void aux_case(Rng& r, Group& g, const Call& c, const std::string& sched);
#define RUN_CASE(name)                                                                  \
  void name(Rng& r, Group& g, const Call& c, const std::string& sched) {                \
    with_type(r, [&](auto tag) {                                                        \
      Case<typename decltype(tag)::type> k{{r, g, c, sched}};                           \
      k.any();                                                                          \
    });                                                                                 \
  }
