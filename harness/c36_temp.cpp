// C36: duplicates of tiles and temporary tiles.
#include "c36_tiles.hpp"

template <class T>
struct Case : Base<T> {
  USE_BASE
  template <bool Copy>
  void duplicate() {
    const SizeType m = dim(), n = dim();
    auto a = make(random_ref<T>(r, m, n));
    begin(Copy ? "Duplicate" : "DuplicateNoCopy", " ", a.desc());
    using F = std::conditional_t<Copy, matrix::Duplicate<D>, matrix::DuplicateNoCopy<D>>;
    auto check = [&](const Tile<T, D>& x) {
      VK_CHECK((x.size() == TileElementSize(m, n)), "duplicate", "has size ", x.size(), " instead of ", TileElementSize(m, n));
      VK_CHECK(m == 0 || x.ld() == m, "duplicate", "is not contiguous: ld ", x.ld(), " rows ", m);
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < m; ++i) {
          if (Copy)
            VK_CHECK(same_bits(x({i, j}), a.val(i, j)), "duplicate", "element (", i, ",", j, ") differs");
          x({i, j}) = T(3);
        }
      vk::count("results checked");
    };
    if (c.own()) {
      const Tile<const T, D> x = direct(in(a));
      check(F{}(x));
      a.check_unchanged("duplicate source");
    }
    else {
      const Ref<T> v = a.val;
      prepare(in(a), c.prio2);
      auto d = ex::ensure_started(a.read_sender() | dlaf::internal::transform(Policy<B>(c.prio), F{}));
      // the source may change afterwards
      const Ref<T> keep = a.val;
      a.put(Ref<T>(m, n, nan_<T>()), c.prio2);
      auto x = tt::sync_wait(std::move(d));
      check(x);
      pika::wait();
      a.val = Ref<T>(m, n, nan_<T>());
      a.check_unchanged("duplicate source");
    }
  }

  template <bool To, bool From, bool Contig, bool Const>
  void temporary() {
    using namespace dlaf::internal;
    c.mode = Call::ASYNC;
    const SizeType m = dim(), n = dim();
    auto a = make(random_ref<T>(r, m, n));
    const Ref<T> v = a.val;
    Ref<T> w = random_ref<T>(r, m, n);
    begin("withTemporaryTile", To ? " to" : "", From ? " from" : "", Contig ? " contiguous" : "", Const ? " const " : " ", a.desc());
    prepare(out(a), c.prio2);
    const T* seen = nullptr;
    bool contiguous = false;
    Ref<T> got(m, n);
    int calls = 0, ops = 0;
    auto f = [&](auto& t) {
      ++calls;
      seen = t.ptr();
      contiguous = t.is_contiguous();
      return whenAllLift(std::cref(t)) | transform(Policy<B>(c.prio), [&](auto& x) {
               ++ops;
               for (SizeType j = 0; j < n; ++j)
                 for (SizeType i = 0; i < m; ++i) {
                   got(i, j) = x({i, j});
                   if constexpr (!Const)
                     x({i, j}) = w(i, j);
                 }
             });
    };
    constexpr auto to = To ? CopyToDestination::Yes : CopyToDestination::No;
    constexpr auto from = From ? CopyFromDestination::Yes : CopyFromDestination::No;
    constexpr auto rc = Contig ? RequireContiguous::Yes : RequireContiguous::No;
    const T* here = nullptr;
    bool was = false;
    tt::sync_wait(a.read_sender() | ex::then([&](const auto& x) {
                    here = x.get().ptr();
                    was = x.get().is_contiguous();
                  }));
    const bool fresh = Contig && !was;
    if constexpr (Const) {
      auto s = withTemporaryTile<D, to, CopyFromDestination::No, rc>(a.read_sender(), f);
      finish(c, std::move(s));
      a.poison(c.prio2);
      pika::wait();
      if (To || !fresh)
        check_close(got, v, 0, "temporary contents");
      a.check_unchanged("temporary source");
    }
    else {
      auto s = withTemporaryTile<D, to, from, rc>(a.write_sender(), f);
      const T* back = nullptr;
      finish(c, std::move(s) | ex::then([&](Tile<T, D> x) { back = x.ptr(); }));
      pika::wait();
      VK_CHECK(back == here || !m || !n, "temporary", "the tile sent on is not the one given");
      if (To || !fresh)
        check_close(got, v, 0, "temporary contents");
      const bool written = From || !fresh;
      result(a, written ? w : v, 0, "temporary result");
    }
    VK_CHECK(calls == 1, "temporary", "the operation was asked for ", calls, " times");
    VK_CHECK(ops == 1, "temporary", "the operation was run ", ops, " times");
    VK_CHECK(!Contig || contiguous || !m, "temporary", "the tile is not contiguous");
    VK_CHECK(!m || !n || fresh == (seen != here), "temporary", fresh ? "no new tile was made" : "a new tile was made without need");
    vk::count("results checked");
  }

  void temp() {
    switch (r.irange(0, 7)) {
      case 0:
        return temporary<true, false, true, false>();
      case 1:
        return temporary<false, true, true, false>();
      case 2:
        return temporary<true, true, false, false>();
      case 3:
        return temporary<false, false, true, true>();
      case 4:
        return temporary<true, false, true, true>();
      default:
        return temporary<true, true, true, false>();
    }
  }
  void any() {
    switch (r.irange(0, 4)) {
      case 0:
        return duplicate<true>();
      case 1:
        return duplicate<false>();
      default:
        return temp();
    }
  }
};
RUN_CASE(temp_case)
