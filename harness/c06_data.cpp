// C06: strided data views describe and copy exactly their elements.
#include <complex>
#include <memory>
#include <numeric>
#include <vector>

#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>

#include <sys/mman.h>

#include <vk.hpp>

using namespace dlaf;
using namespace dlaf::common;
using vk::cat;

// element with lifetime accounting
struct Tracked {
  static long live, made;
  unsigned v;
  Tracked(unsigned x = 0) : v(x) {
    ++live;
    ++made;
  }
  Tracked(const Tracked& o) : v(o.v) {
    ++live;
    ++made;
  }
  Tracked& operator=(const Tracked&) = default;
  ~Tracked() {
    --live;
  }
  bool operator==(const Tracked& o) const {
    return v == o.v;
  }
};
long Tracked::live = 0, Tracked::made = 0;

struct Tri {
  unsigned char b[3];
  bool operator==(const Tri& o) const {
    return b[0] == o.b[0] && b[1] == o.b[1] && b[2] == o.b[2];
  }
};

template <class T>
T stamp(std::uint64_t k) {
  if constexpr (std::is_same_v<T, Tri>)
    return Tri{{static_cast<unsigned char>(k), static_cast<unsigned char>(k >> 8), static_cast<unsigned char>(k >> 16)}};
  else if constexpr (std::is_same_v<T, Tracked>)
    return Tracked(static_cast<unsigned>(k));
  else if constexpr (std::is_same_v<T, std::complex<float>>)
    return {static_cast<float>(k % 65536), -static_cast<float>(k / 65536)};
  else
    return static_cast<T>(k);
}

// user-defined implementation of the data concept
template <class T>
struct MyData {
  T* p;
  SizeType nb, bs, st;
  T* data() const noexcept { return p; }
  SizeType nblocks() const noexcept { return nb; }
  SizeType blocksize() const noexcept { return bs; }
  SizeType stride() const noexcept { return st; }
  SizeType count() const noexcept { return nb * bs; }
  bool is_contiguous() const noexcept { return nb == 1; }
};
namespace dlaf::common {
template <class T>
struct data_traits<MyData<T>> {
  using element_t = T;
};
}

struct Shape {
  SizeType nb, bs, st;
  std::string str() const { return cat(nb, "x", bs, "/", st); }
  SizeType count() const { return nb * bs; }
  SizeType span() const { return nb == 0 ? 0 : (nb - 1) * st + bs; }
};

Shape gen_shape(vk::Rng& r, SizeType count) {
  // factor count into blocks
  std::vector<SizeType> div;
  for (SizeType d = 1; d <= count; ++d)
    if (count % d == 0)
      div.push_back(d);
  SizeType nb = div.empty() ? 1 : r.pick(div);
  SizeType bs = count / nb;
  // a single block may come with any stride (e.g. the leading dimension of a tile with one column)
  SizeType st = nb == 1 ? (r.chance(1, 3) ? bs + r.range(0, 5) : 0) : bs + (r.chance(1, 4) ? 0 : r.range(0, 7));
  return {nb, bs, st};
}

template <class T>
struct Area {
  SizeType pre, n;
  std::vector<T> mem, before;
  Area(vk::Rng& r, const Shape& s, std::uint64_t base) : pre(r.range(0, 5)), n(pre + s.span() + r.range(0, 5)) {
    for (SizeType i = 0; i < n; ++i)
      mem.push_back(stamp<T>(base + static_cast<std::uint64_t>(i)));
    mem.shrink_to_fit();
    before = mem;
  }
  T* ptr() { return mem.data() + pre; }
  bool member(const Shape& s, SizeType i, SizeType& k) const {
    i -= pre;
    if (i < 0 || i >= s.span() || s.count() == 0)
      return false;
    if (s.nb == 1) {
      k = i;
      return true;
    }
    if (i % s.st >= s.bs)
      return false;
    k = i / s.st * s.bs + i % s.st;
    return true;
  }
};

template <class T, class D>
void describe(const D& d, T* p, const Shape& s, const char* what) {
  bool contig = s.nb == 1 || s.st == s.bs;
  VK_CHECK(data_pointer(d) == p, "describe", what, ": pointer");
  VK_EQ(data_count(d), s.count(), "describe", what);
  VK_EQ(data_iscontiguous(d), contig, "describe", what);
  // element k of the view must sit where the shape says
  SizeType nb = data_nblocks(d), bs = data_blocksize(d), st = data_stride(d);
  if (contig) {
    VK_EQ(nb, SizeType(1), "describe", what, " blocks");
    VK_EQ(bs, s.count(), "describe", what, " blocksize");
    VK_EQ(st, SizeType(0), "describe", what, " stride");
  }
  else {
    VK_EQ(nb, s.nb, "describe", what, " blocks");
    VK_EQ(bs, s.bs, "describe", what, " blocksize");
    VK_EQ(st, s.st, "describe", what, " stride");
  }
  vk::count("views described");
}

template <class T, class DS, class DD>
void do_copy(Area<T>& a, const Shape& ss, Area<T>& b, const Shape& sd, const DS& src, const DD& dst, const char* what) {
  b.mem = b.before;
  common::copy(src, dst);
  VK_CHECK(a.mem == a.before, "copy-source", what, ": source changed");
  for (SizeType i = 0; i < b.n; ++i) {
    SizeType k = -1;
    std::size_t ui = static_cast<std::size_t>(i);
    if (b.member(sd, i, k)) {
      SizeType j = ss.nb == 1 ? k : k / ss.bs * ss.st + k % ss.bs;
      if (!(b.mem[ui] == a.before[static_cast<std::size_t>(a.pre + j)])) {
        vk::violation("copy-element", cat(what, ": element ", k, " wrong"));
        return;
      }
    }
    else if (!(b.mem[ui] == b.before[ui])) {
      vk::violation("copy-outside", cat(what, ": byte outside the destination changed at ", i - b.pre));
      return;
    }
  }
  vk::count("copies");
  vk::count("elements compared", static_cast<std::uint64_t>(b.n));
}

template <class T>
void one(vk::Rng& r, const char* name) {
  SizeType count = r.chance(1, 40) ? r.range(300, 6000) : r.chance(1, 3) ? r.range(0, 8) : r.range(1, 96);
  Shape ss = gen_shape(r, count), sd = gen_shape(r, count);
  vk::case_begin(cat("data ", name, " source ", ss.str(), " destination ", sd.str()));
  if (count > 0)
    vk::nontrivial_current();
  long live0 = Tracked::live;
  {
    Area<T> a(r, ss, 100), b(r, sd, 70000);
    DataDescriptor<T> src(a.ptr(), ss.nb, ss.bs, ss.st), dst(b.ptr(), sd.nb, sd.bs, sd.st);
    DataDescriptor<const T> csrc(src);
    auto made = common::make_data(a.ptr(), ss.nb, ss.bs, ss.st);
    auto again = common::make_data(made);
    describe(src, a.ptr(), ss, "descriptor");
    describe(csrc, static_cast<const T*>(a.ptr()), ss, "read-only descriptor");
    describe(made, a.ptr(), ss, "make_data");
    describe(again, a.ptr(), ss, "make_data(make_data)");
    VK_CHECK(made == src && !(made != src) && again == src, "equality", "descriptors of the same data");
    if (a.ptr() != b.ptr())
      VK_CHECK(src != dst && !(src == dst), "equality", "descriptors of different data");
    if (ss.nb > 1) {
      // views differing in one component only
      DataDescriptor<T> o1(a.ptr(), ss.nb - 1, ss.bs, ss.st);
      VK_CHECK((o1 == src) == (o1.nblocks() == src.nblocks() && o1.blocksize() == src.blocksize() && o1.stride() == src.stride()),
               "equality", "different number of blocks");
      DataDescriptor<T> o2(a.ptr(), ss.nb, ss.bs, ss.st + 1);
      VK_CHECK(o2 != src, "equality", "different stride");
      // same number of elements, same stride, another block structure
      for (SizeType f = 2; f <= ss.bs; ++f)
        if (ss.bs % f == 0 && ss.st > ss.bs) {
          DataDescriptor<T> o3(a.ptr(), ss.nb * f, ss.bs / f, ss.st);
          VK_CHECK(o3 != src && !(o3 == src), "equality", "different block structure");
          vk::count("views equal but for the block structure");
          break;
        }
    }
    bool cs = ss.nb == 1 || ss.st == ss.bs, cd = sd.nb == 1 || sd.st == sd.bs;
    MyData<T> ms{a.ptr(), cs ? 1 : ss.nb, cs ? ss.count() : ss.bs, cs ? 0 : ss.st};
    MyData<T> md{b.ptr(), cd ? 1 : sd.nb, cd ? sd.count() : sd.bs, cd ? 0 : sd.st};
    DataDescriptor<const T> from_my(ms);
    describe(from_my, static_cast<const T*>(a.ptr()), ss, "descriptor of a user data type");
    // a user data type which does not merge adjacent blocks itself
    MyData<T> ns{a.ptr(), ss.nb, ss.bs, ss.nb == 1 ? 0 : ss.st};
    DataDescriptor<const T> from_plain(ns);
    describe(from_plain, static_cast<const T*>(a.ptr()), ss, "descriptor of a user data type as it comes");
    VK_CHECK(from_plain == from_my, "equality", "descriptors of the same data");
    do_copy(a, ss, b, sd, ns, dst, "user data as it comes to descriptor");
    do_copy(a, ss, b, sd, from_plain, dst, "converted user data to descriptor");
    if (ss.nb > 1 && cs)
      vk::count("adjacent blocks of user data");
    do_copy(a, ss, b, sd, src, dst, "descriptor to descriptor");
    do_copy(a, ss, b, sd, csrc, dst, "read-only descriptor to descriptor");
    do_copy(a, ss, b, sd, ms, dst, "user data to descriptor");
    do_copy(a, ss, b, sd, src, md, "descriptor to user data");
    do_copy(a, ss, b, sd, from_my, md, "converted to user data");
    if (cs)
      vk::count(cd ? "contiguous to contiguous" : "contiguous to strided");
    else
      vk::count(cd ? "strided to contiguous" : "strided to strided");

    // temporary buffers
    if (count > 0) {
      auto tmp = create_temporary_buffer(src);
      static_assert(std::is_same_v<decltype(tmp), Buffer<T>>, "buffer type");
      VK_CHECK(bool(tmp) && tmp.is_contiguous() && tmp.count() == count, "buffer", "temporary buffer");
      VK_CHECK(tmp.data() + count <= a.mem.data() || tmp.data() >= a.mem.data() + a.n, "buffer", "overlaps the data");
      common::copy(src, tmp);  // room for all (ASan)
      common::copy(tmp, dst);
      bool same = true;
      for (SizeType k = 0; k < count; ++k) {
        SizeType js = ss.nb == 1 ? k : k / ss.bs * ss.st + k % ss.bs, jd = sd.nb == 1 ? k : k / sd.bs * sd.st + k % sd.bs;
        same = same && a.ptr()[js] == b.ptr()[jd] && tmp.data()[k] == a.ptr()[js];
      }
      VK_CHECK(same, "buffer", "round trip through a temporary buffer");
      // moves keep the memory alive
      Buffer<T> tmp2 = std::move(tmp);
      VK_CHECK(bool(tmp2) && !bool(tmp), "buffer", "move construction");
      VK_CHECK(tmp2.count() == count && tmp2.data()[count - 1] == a.ptr()[ss.nb == 1 ? count - 1 : (ss.nb - 1) * ss.st + ss.bs - 1],
               "buffer", "moved content");
      Buffer<T> tmp3;
      VK_CHECK(!bool(tmp3), "buffer", "default buffer allocated");
      tmp3 = std::move(tmp2);
      VK_CHECK(bool(tmp3) && tmp3.count() == count, "buffer", "move assignment");

      Buffer<T> support;
      auto cont = make_contiguous(src, support);
      VK_CHECK(cont.is_contiguous() && cont.count() == count, "make-contiguous", "result");
      VK_EQ(bool(support), !cs, "make-contiguous", "buffer only when needed");
      VK_CHECK(cont.data() == (cs ? a.ptr() : support.data()), "make-contiguous", "points elsewhere");
      Buffer<T> csupport;
      auto ccont = make_contiguous(csrc, csupport);
      static_assert(std::is_same_v<decltype(ccont), DataDescriptor<const T>>, "constness");
      VK_CHECK(ccont.is_contiguous() && ccont.count() == count && bool(csupport) == !cs, "make-contiguous", "read-only");
      VK_CHECK(ccont.data() == (cs ? a.ptr() : csupport.data()), "make-contiguous", "read-only points elsewhere");

      // a support buffer which already holds memory, larger or smaller, from earlier data
      const SizeType old = r.range(1, 2 * count + 2);
      Buffer<T> used(old);
      auto cont2 = make_contiguous(src, used);
      VK_CHECK(cont2.is_contiguous() && cont2.count() == count, "make-contiguous", "with a used support buffer of ", old);
      VK_CHECK(cont2.data() == (cs ? a.ptr() : used.data()), "make-contiguous", "points elsewhere (used support buffer)");
      VK_EQ(used.count(), cs ? old : count, "make-contiguous", "size of the used support buffer of ", old);
      if (!cs) {
        common::copy(src, cont2);
        common::copy(cont2, dst);
        bool back = true;
        for (SizeType k = 0; k < count; ++k)
          back = back && cont2.data()[k] == a.ptr()[k / ss.bs * ss.st + k % ss.bs];
        VK_CHECK(back, "make-contiguous", "content through a used support buffer");
        vk::count("used support buffers");
      }

      std::unique_ptr<T[]> ext(new T[static_cast<std::size_t>(count)]);
      T* raw = ext.get();
      Buffer<T> adopted(std::move(ext), count);
      VK_CHECK(adopted.data() == raw && adopted.count() == count && bool(adopted), "buffer", "adopted memory");
      vk::count("buffers");
    }
  }
  VK_EQ(Tracked::live, live0, "buffer-lifetime", "elements not destroyed exactly once");
}

template <class T, std::size_t N>
void arrays(const char* name) {
  vk::case_begin(cat("array ", name, "[", N, "]"));
  vk::nontrivial_current();
  T x[N], y[N];
  for (std::size_t i = 0; i < N; ++i) {
    x[i] = stamp<T>(i + 5);
    y[i] = stamp<T>(900 + i);
  }
  DataDescriptor<T[N]> d(x), e(y);
  describe(d, &x[0], Shape{1, SizeType(N), 0}, "array descriptor");
  common::copy(d, e);
  for (std::size_t i = 0; i < N; ++i)
    VK_CHECK(y[i] == x[i], "copy-element", "array ", i);
  auto m = make_data(&x[0], SizeType(N));
  describe(m, &x[0], Shape{1, SizeType(N), 0}, "make_data(ptr, n)");
}

// Descriptions of data far larger than memory: nothing is dereferenced.
template <class T>
void huge(vk::Rng& r, const char* name) {
  const SizeType top = std::numeric_limits<SizeType>::max() / SizeType(sizeof(T));
  Shape s;
  s.nb = r.chance(1, 3) ? r.range(1, 9) : r.range(1, SizeType(1) << r.irange(1, 40));
  const SizeType room = top / s.nb;
  s.st = std::max<SizeType>(1, r.chance(1, 2) ? r.range(1, std::min<SizeType>(room, SizeType(1) << r.irange(1, 40))) : r.range(1, room));
  s.bs = r.chance(1, 4) ? s.st : r.range(0, s.st);
  vk::case_begin(cat("huge ", name, " ", s.str()));
  vk::nontrivial_current();
  T* p = reinterpret_cast<T*>(sizeof(T) * 16);
  DataDescriptor<T> d(p, s.nb, s.bs, s.st);
  describe(d, p, s, "huge descriptor");
  DataDescriptor<const T> c(d);
  describe(c, static_cast<const T*>(p), s, "huge read-only descriptor");
  DataDescriptor<T> l(p, s.count());
  describe(l, p, Shape{1, s.count(), 0}, "huge contiguous descriptor");
  VK_EQ(l == d, s.nb == 1 || s.bs == s.st, "equality", "huge, contiguous or not");
  if (s.nb > (SizeType(1) << 32)) {
    DataDescriptor<T> e(p, s.nb - (SizeType(1) << 32), s.bs, s.st);
    VK_EQ(e == d, s.bs == 0 && s.st == 0, "equality", "number of blocks equal modulo 2^32");
  }
  vk::count("huge views");
}

// Blocks further apart than 2^31 elements, in memory which is only reserved; and more than a million elements.
void wide(vk::Rng& r, int n) {
  const std::size_t bytes = std::size_t(7) << 32;
  auto reserve = [&]() {
    void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? nullptr : static_cast<char*>(p);
  };
  for (int k = 0; k < n; ++k) {
    char *x = reserve(), *y = reserve();
    if (!x || !y) {
      vk::count("wide data not reserved");
      return;
    }
    auto far = [&]() { return r.chance(1, 4) ? r.range(40, 90) : (SizeType(1) << r.irange(30, 32)) + r.range(0, 5000); };
    const SizeType nb = r.irange(2, 6), bs = 2 * r.irange(1, 20);
    const bool split = r.chance(1, 2) && nb % 2 == 0;
    Shape ss{nb, bs, far()}, sd{split ? nb / 2 : nb, split ? bs * 2 : bs, 0};
    sd.st = far();
    const int kind = r.irange(0, 2);
    if (kind == 1)
      ss = Shape{1, nb * bs, 0};
    if (kind == 2)
      sd = Shape{1, nb * bs, 0};
    vk::case_begin(cat("wide data ", ss.str(), " to ", sd.str()));
    vk::nontrivial_current();
    auto at = [](const Shape& s, SizeType i) { return s.nb == 1 ? i : i / s.bs * s.st + i % s.bs; };
    for (SizeType i = 0; i < nb * bs; ++i)
      x[at(ss, i)] = char(1 + i % 120);
    common::copy(DataDescriptor<char>(x, ss.nb, ss.bs, ss.st), DataDescriptor<char>(y, sd.nb, sd.bs, sd.st));
    for (SizeType i = 0; i < nb * bs; ++i)
      VK_CHECK(y[at(sd, i)] == char(1 + i % 120), "copy-element", "wide: element ", i);
    vk::count("wide copies");
    munmap(x, bytes);
    munmap(y, bytes);
  }
  for (int k = 0; k < 4; ++k) {
    const SizeType total = SizeType(1) << r.irange(20, 22);
    const SizeType b1 = k & 1 ? total / (SizeType(1) << r.irange(1, 19)) : total, b2 = k & 2 ? total / (SizeType(1) << r.irange(1, 19)) : total;
    Shape ss{total / b1, b1, b1 == total ? 0 : b1 + r.range(1, 3)}, sd{total / b2, b2, b2 == total ? 0 : b2 + r.range(1, 3)};
    vk::case_begin(cat("long data ", ss.str(), " to ", sd.str()));
    vk::nontrivial_current();
    Area<int> a(r, ss, 7), b(r, sd, 1u << 28);
    do_copy(a, ss, b, sd, DataDescriptor<int>(a.ptr(), ss.nb, ss.bs, ss.st), DataDescriptor<int>(b.ptr(), sd.nb, sd.bs, sd.st), "long");
    vk::count("long copies");
  }
}

int main() {
  auto r = vk::rng("c06");
  int n = vk::scale(900, 20000);
  for (int k = 0; k < n; ++k) {
    one<char>(r, "char");
    one<int>(r, "int");
    one<double>(r, "double");
    one<std::complex<float>>(r, "complex<float>");
    one<Tri>(r, "3-byte struct");
    one<Tracked>(r, "tracked");
  }
  for (int k = 0; k < vk::scale(1500, 20000); ++k) {
    huge<char>(r, "char");
    huge<double>(r, "double");
    huge<Tri>(r, "3-byte struct");
  }
  wide(r, vk::scale(24, 200));
  arrays<int, 1>("int");
  arrays<int, 13>("int");
  arrays<double, 4>("double");
  arrays<Tracked, 7>("tracked");
  {
    vk::case_begin("default descriptor");
    DataDescriptor<int> d;
    VK_CHECK(d.data() == nullptr && d.count() == 0 && d.nblocks() == 0 && d.blocksize() == 0 && d.stride() == 0, "describe", "default");
  }
  return vk::finish();
}
