// C14: memory chunks and views over an accounted allocator.
#include <complex>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include <umpire/ResourceManager.hpp>

#include <vk.hpp>

#include <dlaf/memory/memory_chunk.h>
#include <dlaf/memory/memory_view.h>

using dlaf::Device;
using dlaf::SizeType;
using dlaf::memory::MemoryChunk;
using dlaf::memory::MemoryView;
using vk::cat;
using vk::Rng;

umpire::vk_account& host() {
  static umpire::Allocator a = umpire::ResourceManager::getInstance().getAllocator("HOST");
  return a.vk();
}

template <class T>
T stamp(std::uint64_t block, SizeType i) {
  T x;
  unsigned char b[sizeof(T)];
  std::uint64_t s = block * 0x9e3779b97f4a7c15ull + std::uint64_t(i) * 0x2545f4914f6cdd1dull;
  for (auto& c : b) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    c = static_cast<unsigned char>(s >> 56);
  }
  std::memcpy(static_cast<void*>(&x), b, sizeof(T));
  return x;
}
template <class T>
bool same(const T& a, const T& b) {
  return std::memcmp(static_cast<const void*>(&a), static_cast<const void*>(&b), sizeof(T)) == 0;
}

// one allocation, owned by the library or wrapped
template <class T>
struct Block {
  std::uint64_t id;
  T* base = nullptr;
  SizeType n = 0;
  bool wrapped = false;
  std::unique_ptr<T[]> user;
};
template <class T>
using BlockPtr = std::shared_ptr<Block<T>>;

template <class T>
struct Model {
  BlockPtr<T> b;
  SizeType off = 0, n = 0;
};

// every element of the block must still carry its stamp
template <class T>
void check_content(const Block<T>& b) {
  for (SizeType i = 0; i < b.n; ++i)
    if (!same(b.base[i], stamp<T>(b.id, i))) {
      vk::violation("content", cat("element ", i, " of a block of ", b.n, " changed"));
      return;
    }
}
template <class T>
void fill(Block<T>& b) {
  for (SizeType i = 0; i < b.n; ++i)
    b.base[i] = stamp<T>(b.id, i);
}

template <class T>
struct Views {
  using V = MemoryView<T, Device::CPU>;
  using C = MemoryView<const T, Device::CPU>;
  struct Slot {
    std::optional<V> v;
    std::optional<C> c;
    Model<T> m;
    bool is_const() const { return bool(c); }
    bool used() const { return v || c; }
    void clear() {
      v.reset();
      c.reset();
      m = {};
    }
  };
  std::vector<Slot> slots{8};
  std::vector<std::weak_ptr<Block<T>>> blocks;
  std::vector<BlockPtr<T>> wrapped;
  std::uint64_t next = 1;
  std::uint64_t base_live = host().live();
  std::string trace;

  Slot& any(Rng& r) { return slots[std::size_t(r.range(0, SizeType(slots.size()) - 1))]; }

  void check() {
    std::size_t owned = 0;
    for (auto& w : blocks)
      if (auto b = w.lock())
        owned += !b->wrapped;
    VK_EQ(host().live() - base_live, owned, "allocations", "live allocations after", trace);
    for (auto& s : slots) {
      if (!s.used())
        continue;
      const SizeType n = s.is_const() ? s.c->size() : s.v->size();
      const T* p = s.is_const() ? (*s.c)() : (*s.v)();
      VK_EQ(n, s.m.n, "size", "after", trace);
      if (s.m.n == 0) {
        VK_CHECK(p == nullptr, "empty-pointer", "an empty view has a pointer, after", trace);
        continue;
      }
      const T* want = s.m.b->base + s.m.off;
      VK_CHECK(p == want, "pointer", "a view at offset ", s.m.off, " length ", s.m.n, " of a block of ", s.m.b->n,
               " points to element ", (reinterpret_cast<const char*>(p) - reinterpret_cast<const char*>(s.m.b->base)) / SizeType(sizeof(T)),
               ", after", trace);
      if (p != want)
        continue;
      for (SizeType i : {SizeType(0), s.m.n / 2, s.m.n - 1}) {
        const T* q = s.is_const() ? (*s.c)(i) : (*s.v)(i);
        VK_CHECK(q == want + i, "element-pointer", "element ", i, " of a view, after", trace);
      }
    }
    for (auto& w : blocks)
      if (auto b = w.lock())
        check_content(*b);
  }

  void create(Slot& s, Rng& r) {
    s.clear();
    const SizeType n = r.chance(1, 6) ? 0 : r.chance(1, 30) ? r.range(1000, 40000) : r.range(1, 40);
    auto b = std::make_shared<Block<T>>();
    b->id = next++;
    b->n = n;
    const bool wrap = r.chance(1, 3);
    if (wrap) {
      b->wrapped = true;
      b->user = std::make_unique<T[]>(std::size_t(n));
      b->base = b->user.get();
      fill(*b);
      if (r.chance(1, 3))
        s.c.emplace(static_cast<const T*>(n == 0 && r.chance(1, 2) ? nullptr : b->base), n);
      else
        s.v.emplace(n == 0 && r.chance(1, 2) ? nullptr : b->base, n);
      wrapped.push_back(b);
      trace += cat(" wrap", n);
    }
    else {
      s.v.emplace(n);
      trace += cat(" new", n);
      if (n > 0) {
        b->base = (*s.v)();
        void* base = nullptr;
        std::size_t have = 0;
        if (!host().find(b->base, &base, &have)) {
          vk::violation("not-allocated", "the memory of a new view is not owned by the allocator");
          s.clear();
          return;
        }
        const std::size_t before = std::size_t(reinterpret_cast<char*>(b->base) - static_cast<char*>(base));
        VK_CHECK(have >= before + std::size_t(n) * sizeof(T), "too-small", have, " bytes for ", n, " elements");
        fill(*b);
        vk::count("allocations");
      }
    }
    if (n > 0) {
      blocks.push_back(b);
      s.m = {b, 0, n};
    }
    else
      s.m = {};
  }

  void step(Rng& r) {
    Slot& s = any(r);
    if (!s.used() || r.chance(1, 8)) {
      create(s, r);
      return;
    }
    Slot& d = any(r);
    switch (r.irange(0, 7)) {
      case 0:
        trace += " drop";
        s.clear();
        break;
      case 1: {  // copy construct
        if (&s == &d)
          break;
        trace += " copy";
        Model<T> m = s.m;
        d.clear();
        if (s.is_const())
          d.c.emplace(*s.c);
        else if (r.chance(1, 2))
          d.v.emplace(*s.v);
        else
          d.c.emplace(*s.v);
        d.m = m;
        break;
      }
      case 2: {  // move construct
        if (&s == &d)
          break;
        trace += " move";
        Model<T> m = s.m;
        d.clear();
        if (s.is_const())
          d.c.emplace(std::move(*s.c));
        else if (r.chance(1, 2))
          d.v.emplace(std::move(*s.v));
        else
          d.c.emplace(std::move(*s.v));
        s.m = {};
        d.m = m;
        break;
      }
      case 3: {  // copy assign (also to itself)
        if (!d.used() || (s.is_const() && !d.is_const()))
          break;
        trace += " copy=";
        if (d.is_const() && s.is_const())
          *d.c = *s.c;
        else if (d.is_const())
          *d.c = *s.v;
        else
          *d.v = *s.v;
        d.m = s.m;
        break;
      }
      case 4: {  // move assign
        if (&s == &d || !d.used() || (s.is_const() && !d.is_const()))
          break;
        trace += " move=";
        if (d.is_const() && s.is_const())
          *d.c = std::move(*s.c);
        else if (d.is_const())
          *d.c = std::move(*s.v);
        else
          *d.v = std::move(*s.v);
        d.m = s.m;
        s.m = {};
        break;
      }
      default: {  // sub-view, possibly replacing its own parent
        const SizeType off = r.range(0, s.m.n);
        const SizeType len = r.chance(1, 4) ? s.m.n - off : r.range(0, s.m.n - off);
        trace += cat(" sub", off, "+", len, "/", s.m.n);
        Model<T> m = len == 0 ? Model<T>{} : Model<T>{s.m.b, s.m.off + off, len};
        vk::count("sub-views");
        if (s.is_const()) {
          C x(*s.c, off, len);
          d.clear();
          d.c.emplace(std::move(x));
        }
        else if (r.chance(1, 2)) {
          V x(*s.v, off, len);
          d.clear();
          d.v.emplace(x);
        }
        else {
          C x(*s.v, off, len);
          d.clear();
          d.c.emplace(std::move(x));
        }
        d.m = m;
      }
    }
  }

  void run(Rng& r, const char* name) {
    const int steps = r.irange(3, 40);
    for (int k = 0; k < steps; ++k) {
      if (k == 0)
        vk::case_begin(cat("view history ", name));
      step(r);
      vk::case_update(cat("views of ", name, ":", trace));
      check();
      vk::count("view steps");
    }
    vk::nontrivial_current();
    std::vector<int> order;
    for (int i = 0; i < int(slots.size()); ++i)
      order.insert(order.begin() + r.irange(0, i), i);
    for (int i : order) {
      slots[std::size_t(i)].clear();
      trace += " drop";
      check();
    }
    // never freed: still ours and untouched
    for (auto& b : wrapped)
      check_content(*b);
    VK_EQ(host().live(), base_live, "allocations", "all views gone after", trace);
  }
};

template <class T>
void chunks(Rng& r, const char* name) {
  using K = MemoryChunk<T, Device::CPU>;
  struct Slot {
    std::optional<K> k;
    BlockPtr<T> b;  // none: empty
  };
  std::vector<Slot> slots(5);
  std::vector<BlockPtr<T>> wrapped;
  std::uint64_t next = 1000;
  const std::uint64_t base_live = host().live();
  std::string trace;
  auto check = [&]() {
    std::size_t owned = 0;
    for (auto& s : slots)
      if (s.k) {
        const SizeType n = s.b ? s.b->n : 0;
        VK_EQ(s.k->size(), n, "chunk-size", "after", trace);
        const K& ck = *s.k;
        if (n == 0) {
          VK_CHECK((*s.k)() == nullptr && ck() == nullptr, "empty-pointer", "an empty chunk has a pointer, after", trace);
          continue;
        }
        owned += !s.b->wrapped;
        VK_CHECK((*s.k)() == s.b->base && ck() == s.b->base, "chunk-pointer", "after", trace);
        for (SizeType i : {SizeType(0), n / 2, n - 1})
          VK_CHECK((*s.k)(i) == s.b->base + i && ck(i) == s.b->base + i, "chunk-element", "element ", i, " after", trace);
        check_content(*s.b);
      }
    VK_EQ(host().live() - base_live, owned, "allocations", "live allocations of chunks after", trace);
  };
  vk::case_begin(cat("chunk history ", name));
  const int steps = r.irange(3, 30);
  for (int q = 0; q < steps; ++q) {
    Slot& s = slots[std::size_t(r.irange(0, 4))];
    Slot& d = slots[std::size_t(r.irange(0, 4))];
    const int op = r.irange(0, 6);
    if (!s.k || op == 0) {
      s.k.reset();
      s.b.reset();
      const SizeType n = r.chance(1, 5) ? 0 : r.range(1, 50);
      if (r.chance(1, 8)) {
        s.k.emplace();
        trace += " empty";
      }
      else if (r.chance(1, 3)) {
        auto b = std::make_shared<Block<T>>();
        b->id = next++;
        b->n = n;
        b->wrapped = true;
        b->user = std::make_unique<T[]>(std::size_t(n));
        b->base = b->user.get();
        fill(*b);
        s.k.emplace(b->base, n);
        wrapped.push_back(b);
        if (n > 0)
          s.b = b;
        trace += cat(" wrap", n);
      }
      else {
        s.k.emplace(n);
        trace += cat(" new", n);
        if (n > 0) {
          auto b = std::make_shared<Block<T>>();
          b->id = next++;
          b->n = n;
          b->base = (*s.k)();
          void* base = nullptr;
          std::size_t have = 0;
          if (!host().find(b->base, &base, &have) || have < std::size_t(n) * sizeof(T)) {
            vk::violation("too-small", cat(have, " bytes for ", n, " elements"));
            return;
          }
          fill(*b);
          s.b = b;
        }
      }
    }
    else if (op <= 2 && &s != &d) {
      trace += " move";
      d.k.reset();
      d.k.emplace(std::move(*s.k));
      d.b = s.b;
      s.b.reset();
    }
    else if (op <= 4 && &s != &d && d.k) {
      trace += " move=";
      *d.k = std::move(*s.k);
      d.b = s.b;
      s.b.reset();
    }
    else if (op == 5) {
      trace += " drop";
      s.k.reset();
      s.b.reset();
    }
    vk::case_update(cat("chunks of ", name, ":", trace));
    check();
    vk::count("chunk steps");
  }
  vk::nontrivial_current();
  for (auto& s : slots) {
    s.k.reset();
    s.b.reset();
    check();
  }
  for (auto& b : wrapped)
    check_content(*b);
}

template <class T>
void probes(Rng& r, const char* name) {
  using V = MemoryView<T, Device::CPU>;
  using C = MemoryView<const T, Device::CPU>;
  using K = MemoryChunk<T, Device::CPU>;
  const SizeType n = r.range(0, 20);
  V parent(n);
  const SizeType off = n ? r.range(0, n) : 0;
  const SizeType len = r.range(0, n - off);
  V sub(parent, off, len);
  auto want = [&](const char* what, auto f) {
    vk::case_begin(cat(what, " on ", name, " parent ", n, " sub ", off, "+", len));
    const vk::Outcome o = vk::run_forked(f);
    VK_CHECK(o == vk::Outcome::Terminated, cat("not-refused:", what), what, ": ", vk::outcome_name(o));
    vk::nontrivial(cat(what, name, n, off, len));
  };
  const SizeType beyond = r.chance(1, 4) ? SizeType(1) << r.irange(5, 60) : r.range(1, 3);
  const SizeType o2 = r.range(0, len);
  switch (r.irange(0, 7)) {
    case 0:
      return want("sub-view too long", [&] { V x(sub, o2, len - o2 + beyond); });
    case 1:
      return want("const sub-view too long", [&] { C x(sub, o2, len - o2 + beyond); });
    case 2:
      return want("const sub-view of const too long", [&] {
        C c(sub);
        C x(c, o2, len - o2 + beyond);
      });
    case 3:
      return want("sub-view starts before", [&] { V x(sub, -r.range(1, 3), r.range(0, len)); });
    case 4:
      return want("sub-view starts beyond", [&] { V x(sub, len + beyond, 0); });
    case 5:
      return want("element beyond", [&] { sub(len + (beyond - 1)); });
    case 6:
      return want("negative length", [&] {
        switch (r.irange(0, 3)) {
          case 0: {
            V x(-beyond);
            break;
          }
          case 1: {
            K x(-beyond);
            break;
          }
          case 2: {
            V x(sub, o2, -r.range(1, 3));
            break;
          }
          default: {
            T a[1] = {};
            V x(a, -beyond);
          }
        }
      });
    default:
      return want("chunk element beyond", [&] {
        K k(n);
        k(n + beyond - 1);
      });
  }
}

// copies of one view used and dropped by several threads at once
template <class T>
void threads(Rng& r, const char* name) {
  const int nt = r.irange(2, 4);
  const SizeType n = r.range(nt, 64);
  vk::case_begin(cat("threads ", nt, " share a view of ", n, " ", name));
  const std::uint64_t before = host().releases(), live = host().live();
  {
    std::vector<std::thread> t;
    auto v = std::make_optional<MemoryView<T, Device::CPU>>(n);
    T* base = (*v)();
    for (int k = 0; k < nt; ++k) {
      const SizeType lo = n * k / nt, hi = n * (k + 1) / nt;
      t.emplace_back([w = MemoryView<T, Device::CPU>(*v, lo, hi - lo), lo, hi, s = r.u64()]() mutable {
        for (SizeType i = 0; i < hi - lo; ++i)
          *w(i) = stamp<T>(7, lo + i);
        MemoryView<T, Device::CPU> x(w, (hi - lo) / 2, hi - lo - (hi - lo) / 2);
        MemoryView<const T, Device::CPU> y(std::move(w));
        if (s % 2)
          x = MemoryView<T, Device::CPU>();
        for (SizeType i = 0; i < y.size(); ++i)
          if (!same(*y(i), stamp<T>(7, lo + i)))
            vk::violation("thread-content", "a shared view lost its content");
      });
    }
    if (r.chance(1, 2))
      v.reset();
    for (auto& x : t)
      x.join();
    if (v)
      for (SizeType i = 0; i < n; ++i)
        VK_CHECK(same(base[i], stamp<T>(7, i)), "thread-content", "element ", i);
    v.reset();
  }
  VK_EQ(host().releases() - before, std::uint64_t(1), "released-once", "");
  VK_EQ(host().live(), live, "allocations", "after the threads");
  vk::count("threads", std::uint64_t(nt));
  vk::nontrivial_current();
}

struct Odd {
  char c[5];
};
int main() {
  Rng r = vk::rng("views"), q = vk::rng("chunks"), p = vk::rng("probes"), t = vk::rng("threads");
  const int n = vk::scale(400, 8000);
  for (int k = 0; k < n; ++k) {
    Views<float>().run(r, "float");
    Views<double>().run(r, "double");
    Views<std::complex<float>>().run(r, "complex<float>");
    Views<std::complex<double>>().run(r, "complex<double>");
    Views<char>().run(r, "char");
    Views<Odd>().run(r, "5 bytes");
    chunks<double>(q, "double");
    chunks<std::complex<float>>(q, "complex<float>");
    chunks<Odd>(q, "5 bytes");
  }
  for (int k = 0; k < vk::scale(100, 1500); ++k) {
    threads<double>(t, "double");
    threads<char>(t, "char");
  }
#ifndef VK_TSAN
  for (int k = 0; k < vk::scale(60, 600); ++k) {
    probes<double>(p, "double");
    probes<char>(p, "char");
    probes<std::complex<double>>(p, "complex<double>");
  }
#endif
  return vk::finish();
}
