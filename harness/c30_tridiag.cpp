// C30: tridiagonal eigensolver on hostile spectra: residual, orthogonality, ascending order; permutations of rows and columns
// compared element by element.
#include <alg.hpp>
#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/permutations/general.h>
using namespace alg;

template <class R>
void spectrum(Rng& r, SizeType n, SizeType nb, std::vector<R>& d, std::vector<R>& e, std::string& what) {
  d.assign(std::size_t(n), R(0));
  e.assign(std::size_t(n), R(0));
  auto D = [&](auto&& f) {
    for (SizeType i = 0; i < n; ++i)
      d[std::size_t(i)] = R(f(i));
  };
  auto E = [&](auto&& f) {
    for (SizeType i = 0; i + 1 < n; ++i)
      e[std::size_t(i)] = R(f(i));
  };
  const double ep = double(std::numeric_limits<R>::epsilon());
  switch (r.irange(0, 18)) {
    case 0:
      what = "zero";
      break;
    case 1:
      what = "multiple of the identity";
      D([](SizeType) { return 3.25; });
      break;
    case 2:
      what = "diagonal";
      D([&](SizeType) { return r.real(); });
      break;
    case 3:
      what = "(2,-1)";
      D([](SizeType) { return 2.; });
      E([](SizeType) { return -1.; });
      break;
    case 4:
      what = "Wilkinson";
      D([&](SizeType i) { return std::abs(double(n - 1) / 2 - double(i)); });
      E([](SizeType) { return 1.; });
      break;
    case 5: {
      what = "glued Wilkinson";
      const SizeType k = r.irange(2, 7);
      const double glue = r.chance(1, 2) ? std::sqrt(ep) : 1e-3;
      D([&](SizeType i) { return std::abs(double(k - 1) / 2 - double(i % k)); });
      E([&](SizeType i) { return i % k == k - 1 ? glue : 1.; });
      break;
    }
    case 6:
      what = "clustered";
      D([&](SizeType) { return 1 + ep * r.real() * 8; });
      E([&](SizeType) { return ep * r.real() * 4; });
      break;
    case 7:
      what = "graded down";
      D([&](SizeType i) { return std::pow(2., -double(std::min<SizeType>(i, 40))); });
      E([&](SizeType i) { return r.real() * std::pow(2., -double(std::min<SizeType>(i, 40))); });
      break;
    case 8:
      what = "graded up";
      D([&](SizeType i) { return std::pow(2., -double(std::min<SizeType>(n - i, 40))); });
      E([&](SizeType i) { return r.real() * std::pow(2., -double(std::min<SizeType>(n - i, 40))); });
      break;
    case 9:
      what = "random with zero couplings";
      D([&](SizeType) { return r.real(); });
      E([&](SizeType) { return r.chance(1, 3) ? 0. : r.real(); });
      break;
    case 10:
      what = "zero couplings between tiles";
      D([&](SizeType) { return r.real(); });
      E([&](SizeType i) { return (i + 1) % nb == 0 && r.chance(2, 3) ? 0. : r.real(); });
      break;
    case 11:
      what = "few values, tiny couplings";
      D([&](SizeType) { return double(r.irange(-1, 1)); });
      E([&](SizeType) { return r.chance(1, 2) ? r.real() : ep * r.real() * std::pow(2., r.irange(-4, 10)); });
      break;
    case 12:
      what = "zero diagonal";
      E([&](SizeType) { return r.real(); });
      break;
    case 13: {
      what = "scaled";
      const int x = std::is_same_v<R, float> ? 20 : 60;
      const double f = std::ldexp(1., r.irange(-x, x));
      D([&](SizeType) { return f * r.real(); });
      E([&](SizeType) { return f * r.real(); });
      break;
    }
    case 15:
    case 16: {
      // values a few units in the last place apart, some of them coupled and some not: both kinds of deflation in one merge
      what = "nearly equal values, few couplings";
      const double base = r.chance(1, 2) ? 1. : -1.;
      const int wide = r.pick(std::vector<int>{4, 16, 64, 1 << 12});
      const double c = r.pick(std::vector<double>{ep, 16 * ep, std::sqrt(ep), 1e-2});
      D([&](SizeType) { return r.chance(1, 8) ? r.real() : base + ep * r.irange(-wide, wide); });
      E([&](SizeType i) { return (i + 1) % nb == 0 ? (r.chance(1, 8) ? 0. : c * r.real()) : (r.chance(1, 2) ? 0. : ep * r.irange(-wide, wide)); });
      break;
    }
    case 14:
      what = "constant";
      D([](SizeType) { return 1.; });
      E([&](SizeType) { return r.chance(1, 2) ? 1. : -1.; });
      break;
    default:
      what = "random";
      D([&](SizeType) { return r.real(); });
      E([&](SizeType) { return r.real(); });
  }
}

// `extreme`: the whole matrix scaled towards the limits of the range of the type.
template <class T>
void solve_case(Session& s, Group& g, Rng& r, bool extreme = false) {
  using R = Real<T>;
  const Bulk bulk = random_bulk(r);
  const SizeType nb = tile_of(r, bulk, 1, 9);
  const SizeType n = size_of(r, bulk, nb, 12, 52);
  const auto src = random_source(r, g);
  const bool local = g.single() && r.chance(3, 4);
  const AllocKind lt = random_alloc(r), lv = random_alloc(r), lq = random_alloc(r);
  std::vector<R> d, e;
  std::string what;
  spectrum(r, n, nb, d, e, what);
  if (extreme) {
    const int x = (r.chance(1, 2) ? 1 : -1) * (std::is_same_v<R, float> ? r.irange(10, 20) : r.irange(200, 400));
    for (auto& y : d)
      y = std::ldexp(y, x);
    for (auto& y : e)
      y = std::ldexp(y, x);
    what += cat(" times 2^", x);
  }
  const std::string K = extreme ? "extreme scale: " : "";
  const std::string desc = cat(name_of<T>::v, " n=", n, "/", nb, " grid=", local ? "local" : g.desc(), src_desc(src), " ", what);
  vk::case_begin(cat(extreme ? "extreme " : "tridiag ", desc, " ", lt.desc(), " ", lv.desc(), " ", lq.desc(), " threads=", getTuneParameters().tridiag_rank1_num_threads, s.sched));
  Ref<R> tin(n, 2);
  for (SizeType i = 0; i < n; ++i) {
    tin(i, 0) = d[std::size_t(i)];
    tin(i, 1) = i + 1 < n ? e[std::size_t(i)] : std::numeric_limits<R>::quiet_NaN();
  }
  Group own;  // for the matrices every process has a copy of
  own.grid.reset();
  const Distribution dt(LocalElementSize(n, 2), TileElementSize(nb, 2)), dv(LocalElementSize(n, 1), TileElementSize(nb, 1));
  Mat<R> td(own, dt, lt, tin);
  Ref<R> none(n, 1, std::numeric_limits<R>::quiet_NaN());
  Mat<R> ev(own, dv, lv, none);
  Ref<T> noneq(n, n, nan_<T>());
  Mat<T> q(g, make_dist(g, n, n, nb, nb, src), lq, noneq);
  if (local)
    eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(*td, *ev, *q);
  else
    eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(*g.grid, *td, *ev, *q);
  const Ref<R> w = ev.local();
  td.check_padding("tridiagonal");
  ev.check_padding("eigenvalues");
  q.check_padding("eigenvectors");
  const Ref<T> z = q.gather();
  Ref<R> w0 = w;
  if (!g.single())
    PMPI_Bcast(w0.v.data(), int(w0.v.size() * sizeof(R)), MPI_BYTE, 0, g.comm);
  VK_CHECK(w.v.empty() || std::memcmp(w.v.data(), w0.v.data(), w.v.size() * sizeof(R)) == 0, "eigenvalues-copies", "eigenvalues differ between processes");
  double norm = 0;
  for (SizeType i = 0; i < n; ++i)
    norm = std::max(norm, double(std::abs(d[std::size_t(i)])) + (i > 0 ? double(std::abs(e[std::size_t(i - 1)])) : 0.) + double(std::abs(e[std::size_t(i)])));
  for (SizeType i = 0; i + 1 < n; ++i)
    VK_CHECK(w(i, 0) <= w(i + 1, 0), K + "order", "eigenvalues ", i, " and ", i + 1, ": ", w(i, 0), " ", w(i + 1, 0));
  Ref<T> tz(n, n), zw(n, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i) {
      T x = T(d[std::size_t(i)]) * z(i, j);
      if (i > 0)
        x += T(e[std::size_t(i - 1)]) * z(i - 1, j);
      if (i + 1 < n)
        x += T(e[std::size_t(i)]) * z(i + 1, j);
      tz(i, j) = x;
      zw(i, j) = z(i, j) * T(w(j, 0));
    }
  const double u = eps<T>() * double(n + 5);
  check_close(tz, zw, 20 * u * norm, (K + "T Q = Q W").c_str());
  check_close(mul(adjoint(z), z), identity<T>(n), 20 * u, (K + "Q orthogonal").c_str());
  if (is_cx<T>)
    for (auto& x : z.v)
      VK_CHECK(std::imag(x) == 0, "not-real", "complex eigenvectors of a real matrix must be real, got ", x);
  vk::count("decompositions checked");
  if (n > 1)
    vk::nontrivial(desc);
}

template <class T, Coord C>
void perm_case(Session& s, Group& g, Rng& r, Rng& pr) {
  const Bulk bulk = random_bulk(r);
  const SizeType nb = tile_of(r, bulk, 1, 6), n = size_of(r, bulk, nb, 8, 26);
  const auto src = random_source(r, g);
  const bool local = r.chance(1, 3);  // each process permutes what it has
  const SizeType nt = (n + nb - 1) / nb;
  SizeType b = 0, e = nt;
  if (r.chance(2, 3)) {
    b = r.irange(0, int(nt));
    e = r.irange(int(b), int(nt));
  }
  const AllocKind li = random_alloc(r), lo = random_alloc(r);
  const std::string desc = cat(name_of<T>::v, C == Coord::Col ? " columns" : " rows", local ? " of each process" : "", " n=", n, "/", nb, " tiles [", b,
                               ",", e, ") grid=", g.desc(), src_desc(src));
  vk::case_begin(cat("permute ", desc, " ", li.desc(), " ", lo.desc(), s.sched));
  const Ref<T> in = random_ref<T>(r, n, n), out = random_ref<T>(r, n, n);
  const Distribution dist = make_dist(g, n, n, nb, nb, src);
  Mat<T> mi(g, dist, li, in), mo(g, dist, lo, out);
  auto shuffled = [&](Rng& q, SizeType k) {
    std::vector<SizeType> p(static_cast<std::size_t>(k));
    for (SizeType i = 0; i < k; ++i)
      p[std::size_t(i)] = i;
    const int how = q.irange(0, 3);
    if (how == 0)
      std::reverse(p.begin(), p.end());
    else if (how == 1 && k > 0)
      std::rotate(p.begin(), p.begin() + q.irange(0, int(k - 1)), p.end());
    else
      for (SizeType i = k - 1; i > 0; --i)
        std::swap(p[std::size_t(i)], p[std::size_t(q.range(0, i))]);
    return p;
  };
  const SizeType gb = std::min(n, b * nb), ge = std::min(n, e * nb);
  const SizeType len = local ? dist.local_size().get<C>() : n;
  // global element at a local index and back, for the permuted axis
  const SizeType lb = local ? dlaf::matrix::internal::distribution::local_element_distance_from_global_tile<C>(dist, 0, b) : gb;
  const SizeType le = local ? dlaf::matrix::internal::distribution::local_element_distance_from_global_tile<C>(dist, 0, e) : ge;
  const auto p = shuffled(local ? pr : r, le - lb);
  // the index vector is read as one array
  Matrix<SizeType, Device::CPU> perms(LocalElementSize(len, 1), TileElementSize(nb, 1), matrix::AllocationLayout::ColMajor);
  for (SizeType i = 0; i < perms.nr_tiles().rows(); ++i) {
    auto t = tt::sync_wait(perms.readwrite(LocalTileIndex(i, 0)));
    for (SizeType k = 0; k < t.size().rows(); ++k) {
      const SizeType at = i * nb + k;
      t({k, 0}) = at >= lb && at < le ? p[std::size_t(at - lb)] : 1000000;
    }
  }
  Matrix<const SizeType, Device::CPU>& cp = perms;
  Matrix<const T, Device::CPU>& ci = *mi;
  if (local)
    permutations::permute<Backend::MC, Device::CPU, T, C>(b, e, cp, ci, *mo);
  else if (r.chance(1, 2))
    permutations::permute<Backend::MC, Device::CPU, T, C>(*g.grid, b, e, cp, ci, *mo);
  else {
    auto chain = g.grid->template communicator_pipeline<orthogonal(C)>();
    permutations::permute<Backend::MC, Device::CPU, T, C>(chain, b, e, cp, ci, *mo);
  }
  // expected on this process
  Ref<T> want = out;
  auto global_of = [&](SizeType k) {
    const SizeType t = k / nb;
    return local ? dist.global_tile_from_local_tile<C>(t) * nb + k % nb : k;
  };
  for (SizeType k = lb; k < le; ++k) {
    const SizeType to = global_of(k), from = global_of(lb + p[std::size_t(k - lb)]);
    for (SizeType x = gb; x < ge; ++x)
      if (C == Coord::Col)
        want(x, to) = in(x, from);
      else
        want(to, x) = in(from, x);
  }
  mo.check_unchanged(want, "permuted matrix");
  mi.check_unchanged(in, "permutation input");
  vk::count("permutations checked");
  if (le - lb > 1)
    vk::nontrivial(cat("p ", desc));
}

// Entries whose squares are not representable: a run of its own, as the solver may not return.
int beyond(Session& s) {
  s.cases("beyond", 1, [&](int, Group& g, Rng& r, Rng&) {
    const SizeType n = 8, nb = 2;
    Group own;
    own.grid.reset();
    vk::case_begin("beyond the range: tridiag d n=8/2 (cos, sin) times 2^600");
    Ref<double> tin(n, 2);
    for (SizeType i = 0; i < n; ++i)
      tin(i, 0) = std::ldexp(std::cos(double(i + 1)), 600), tin(i, 1) = std::ldexp(std::sin(double(i + 1)), 600);
    const AllocKind a = random_alloc(r);
    Mat<double> td(own, Distribution(LocalElementSize(n, 2), TileElementSize(nb, 2)), a, tin);
    Mat<double> ev(own, Distribution(LocalElementSize(n, 1), TileElementSize(nb, 1)), a, Ref<double>(n, 1, 0.));
    Mat<double> q(own, Distribution(LocalElementSize(n, n), TileElementSize(nb, nb)), a, Ref<double>(n, n, 0.));
    eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, double>(*td, *ev, *q);
    const Ref<double> z = q.local();
    check_close(mul(adjoint(z), z), identity<double>(n), 1e-13, "beyond the range: Q orthogonal");
  });
  return s.finish();
}

int main(int argc, char** argv) {
  Session s(argc, argv, 2);
  if (std::getenv("VK_BEYOND"))
    return beyond(s);
  s.cases("tridiag", vk::scale(700, 3000), [&](int, Group& g, Rng& r, Rng& pr) {
    (void) pr;
    const bool cx = r.chance(1, 3);
#if defined(VK_TYPE_D) && defined(VK_TYPE_S)
    const bool dbl = r.chance(1, 2);
#elif defined(VK_TYPE_D)
    const bool dbl = true;
#else
    const bool dbl = false;
#endif
    (void) dbl;
#ifdef VK_TYPE_D
    if (dbl)
      return cx ? solve_case<std::complex<double>>(s, g, r) : solve_case<double>(s, g, r);
#endif
#ifdef VK_TYPE_S
    return cx ? solve_case<std::complex<float>>(s, g, r) : solve_case<float>(s, g, r);
#endif
  });
  s.cases("extreme", vk::scale(60, 300), [&](int, Group& g, Rng& r, Rng& pr) {
    (void) pr;
#ifdef VK_TYPE_D
    solve_case<double>(s, g, r, true);
#else
    solve_case<float>(s, g, r, true);
#endif
  });
  s.cases("permute", vk::scale(900, 3000), [&](int, Group& g, Rng& r, Rng& pr) {
    const bool col = r.chance(1, 2);
#ifdef VK_TYPE_D
    using T = double;
#else
    using T = float;
#endif
    col ? perm_case<T, Coord::Col>(s, g, r, pr) : perm_case<T, Coord::Row>(s, g, r, pr);
  });
  return s.finish();
}
