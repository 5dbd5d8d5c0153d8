// C21: initialisers give each element a value that depends on its global position only.
#include <alg.hpp>
#include <dlaf/util_matrix.h>
using namespace alg;
namespace mu = dlaf::matrix::util;

enum Kind { SET, SET_OP, IDENTITY, ZERO, ZERO_RANGE, RANDOM, HERMITIAN, BANDED, POSDEF, NONZERO_DIAG, N_KINDS };
static const char* kind_name[] = {"set", "set op", "identity", "zero", "zero range", "random", "hermitian", "banded", "positive definite", "non-zero diagonal"};

template <class T>
T element(SizeType i, SizeType j, std::uint64_t key) {
  std::uint64_t h = key + std::uint64_t(i) * 0x9e3779b97f4a7c15ull + std::uint64_t(j) * 0xc2b2ae3d27d4eb4full;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  const double a = double(h & 0xfffff) / 1048576. - .5, b = double((h >> 20) & 0xfffff) / 1048576. - .5;
  if constexpr (is_cx<T>)
    return T(Real<T>(a), Real<T>(b));
  else
    return T(a);
}

template <class T>
void run(Kind k, matrix::Matrix<T, Device::CPU>& m, std::uint64_t key, blas::Op op, SizeType band) {
  const auto prio = key % 2 ? pika::execution::thread_priority::normal : pika::execution::thread_priority::high;
  auto f = [key](const GlobalElementIndex& x) { return element<T>(x.row(), x.col(), key); };
  switch (k) {
    case SET:
      return mu::set(m, f);
    case SET_OP:
      return mu::set(m, f, op);
    case IDENTITY:
      return mu::set_identity(m);
    case ZERO:
      return mu::set0<Backend::MC>(prio, m);
    case RANDOM:
      return mu::set_random(m);
    case HERMITIAN:
      return mu::set_random_hermitian(m);
    case BANDED:
      return mu::set_random_hermitian_banded(m, band);
    case POSDEF:
      return mu::set_random_hermitian_positive_definite(m);
    case NONZERO_DIAG:
      return mu::set_random_non_zero_diagonal(m);
    default:
      return;
  }
}

template <class T>
void one(Kind kind, Group& g, Rng& r, Rng& pr, const std::string& sched) {
  const bool square = kind >= HERMITIAN;
  const Bulk bulk = random_bulk(r);
  const SizeType mb = tile_of(r, bulk, 1, 7), nb = square ? mb : tile_of(r, bulk, 1, 7);
  const SizeType m = size_of(r, bulk, mb, 30, 30), n = square ? m : size_of(r, bulk, nb, 30, 30);
  const int kr = r.chance(1, 3) ? r.irange(1, 3) : 1, kc = r.chance(1, 3) ? r.irange(1, 3) : 1;
  const auto src = random_source(r, g);
  const AllocKind al = random_alloc(r);
  const std::uint64_t key = r.u64();
  const blas::Op op = r.pick(std::vector<blas::Op>{blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans});
  const SizeType band = r.chance(1, 2) ? r.range(0, mb) : r.range(0, std::max<SizeType>(1, n) + 2);
  const bool again = r.chance(1, 3);
  const std::string d = cat(kind_name[kind], " ", name_of<T>::v, " ", m, "/", mb, "*", kr, "x", n, "/", nb, "*", kc, " grid=", g.desc(), src_desc(src),
                            kind == SET_OP ? cat(" op ", char(op)) : "", kind == BANDED ? cat(" band ", band) : "");
  vk::case_begin(cat("initialise ", d, " ", al.desc(), again ? " after another" : "", sched));
  Ref<T> want(m, n), junk = random_ref<T>(r, m, n);
  Mat<T> a(g, make_dist_blocks(g, m, n, mb, nb, kr, kc, src), al, junk);
  // a pending initialisation must be overwritten, not mixed
  if (again)
    run<T>(r.chance(1, 2) ? ZERO : RANDOM, *a, key, op, band);
  Ref<T> before = again ? a.local() : junk;
  if (kind == ZERO_RANGE) {
    // own range of every process
    const auto nl = a.dist.local_nr_tiles();
    const SizeType sr = pr.range(0, nl.rows()), sc = pr.range(0, nl.cols());
    const LocalTileIndex b(pr.range(0, nl.rows() - sr), pr.range(0, nl.cols() - sc));
    want = before;
    a.each_local([&](LocalTileIndex l, GlobalElementIndex o, TileElementSize s) {
      if (l.row() < b.row() || l.col() < b.col() || l.row() >= b.row() + sr || l.col() >= b.col() + sc)
        return;
      for (SizeType j = 0; j < s.cols(); ++j)
        for (SizeType i = 0; i < s.rows(); ++i)
          want(o.row() + i, o.col() + j) = T(0);
    });
    mu::set0<Backend::MC>(pika::execution::thread_priority::normal, b, LocalTileSize(sr, sc), *a);
    a.check_unchanged(want, "zeroed range");
    vk::count("ranges of tiles zeroed");
    return;
  }
  run<T>(kind, *a, key, op, band);
  if (kind <= ZERO) {
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        want(i, j) = kind == SET        ? element<T>(i, j, key)
                     : kind == IDENTITY ? T(i == j ? 1 : 0)
                     : kind == ZERO     ? T(0)
                     : op == blas::Op::NoTrans ? element<T>(i, j, key)
                     : op == blas::Op::Trans   ? element<T>(j, i, key)
                                               : conj_(element<T>(j, i, key));
    // a zero imaginary part may have either sign
    if (kind == SET_OP) {
      Ref<T> got = a.local();
      a.each_local([&](LocalTileIndex, GlobalElementIndex o, TileElementSize s) {
        for (SizeType j = o.col(); j < o.col() + s.cols(); ++j)
          for (SizeType i = o.row(); i < o.row() + s.rows(); ++i)
            VK_CHECK(got(i, j) == want(i, j), "set-op", "element (", i, ",", j, ") is ", got(i, j), ", expected ", want(i, j));
      });
      a.check_padding("matrix");
    }
    else
      a.check_unchanged(want, "initialised");
    vk::count("defined contents checked");
    if (m && n)
      vk::nontrivial(d);
    return;
  }
  // the same on one process, with other storage
  {
    Group& one_ = g;
    const AllocKind plain{};
    Mat<T> b(one_, Distribution(GlobalElementSize(m, n), TileElementSize(mb, nb), {1, 1}, {0, 0}, {0, 0}), plain, junk);
    run<T>(kind, *b, key, op, band);
    want = b.local();
  }
  a.check_unchanged(want, "compared with one process");
  vk::count("random contents compared between grids");
  // what the values have to be like
  const double e = 8 * eps<T>();
  const double off = kind == POSDEF ? 2. * double(n) : 0;
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i) {
      const T x = want(i, j);
      if (kind == BANDED && std::abs(double(i - j)) > double(band)) {
        VK_CHECK(x == T(0), "outside-band", "element (", i, ",", j, ") outside the band of ", band, " is ", x);
        continue;
      }
      const bool diag = i == j;
      const double q = diag ? std::abs(x - T(Real<T>(off))) : std::abs(x);
      VK_CHECK(q <= 1 + e + (diag ? 4 * off * eps<T>() : 0), "range", "element (", i, ",", j, ") is ", x);
      if (kind == HERMITIAN || kind == BANDED || kind == POSDEF) {
        VK_CHECK(want(j, i) == conj_(x), "not-hermitian", "elements (", i, ",", j, ") ", x, " and transposed ", want(j, i));
        if (diag)
          VK_CHECK(std::imag(std::complex<double>(x)) == 0, "diagonal-not-real", "element ", i, " is ", x);
      }
      if (kind == NONZERO_DIAG && diag)
        VK_CHECK(std::abs(x) >= 0.1 * (1 - e), "diagonal-too-small", "element ", i, " is ", x);
    }
  if (kind == POSDEF)
    for (SizeType i = 0; i < n; ++i) {
      double s = 0;
      for (SizeType j = 0; j < n; ++j)
        if (j != i)
          s += std::abs(want(i, j));
      VK_CHECK(std::real(want(i, i)) > s, "not-dominant", "row ", i, " diagonal ", want(i, i), " sum of the others ", s);
    }
  // every tile has a content of its own (the mirrored one apart), random in every element
  std::map<std::string, std::pair<SizeType, SizeType>> seen;
  std::size_t zeros = 0, in_band = 0;
  for (SizeType tj = 0; tj * nb < n; ++tj)
    for (SizeType ti = 0; ti * mb < m; ++ti) {
      if (square && kind != NONZERO_DIAG && ti < tj)
        continue;
      std::string bytes;
      bool counts = mb * nb >= 6 && kind != BANDED;
      for (SizeType j = 0; j < nb; ++j)
        for (SizeType i = 0; i < mb; ++i) {
          if (ti * mb + i >= m || tj * nb + j >= n) {
            counts = false;
            continue;
          }
          const T x = want(ti * mb + i, tj * nb + j);
          if (kind != BANDED || std::abs(double(ti * mb + i - tj * nb - j)) <= double(band))
            ++in_band, zeros += x == T(0);
          bytes.append(reinterpret_cast<const char*>(&x), sizeof(T));
        }
      if (!counts)
        continue;
      const auto [it, fresh] = seen.emplace(bytes, std::make_pair(ti, tj));
      VK_CHECK(fresh, "tiles-equal", "tiles (", ti, ",", tj, ") and (", it->second.first, ",", it->second.second, ") hold the same values");
      vk::count("tiles compared with each other");
    }
  VK_CHECK(zeros <= 2, "zeros", zeros, " of ", in_band, " random elements are zero");
  if (m && n)
    vk::nontrivial(d);
}

int main(int argc, char** argv) {
  Session s(argc, argv);
  s.cases("init", vk::scale(8000, 40000), [&](int k, Group& g, Rng& r, Rng& pr) {
    with_type(r, [&](auto t) { one<typename decltype(t)::type>(Kind(k % N_KINDS), g, r, pr, s.sched); });
  });
  return s.finish();
}
