// Starts the library on the bundled runtime, and a few helpers to fill and read matrices.
#pragma once
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <utility>
#include <vector>
#include <mpi.h>
#include <pika/execution.hpp>
#include <pika/init.hpp>
#include <pika/runtime.hpp>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/init.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/panel.h>
#include <dlaf/types.h>
using namespace dlaf;
using dlaf::matrix::Distribution;
using Mat = dlaf::matrix::Matrix<double, Device::CPU>;
using Ref = dlaf::matrix::Matrix<const double, Device::CPU>;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;

template <class F>
int demo(int argc, char** argv, F&& f) {
  int got;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &got);
  pika::start(argc, argv);
  const char* a[] = {"demo"};
  dlaf::initialize(1, a);
  int bad = f();
  int all = bad;
  MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  std::printf("wrong: %d\n", bad);
  std::fflush(stdout);
  // do not wait for work that may never end
  if (all)
    MPI_Abort(MPI_COMM_WORLD, 3);
  pika::wait();
  dlaf::finalize();
  pika::stop();
  MPI_Finalize();
  return 0;
}

template <class M, class F>
void fill(M& m, F&& f) {
  const auto& d = m.distribution();
  for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
      auto t = tt::sync_wait(m.readwrite(LocalTileIndex(i, j)));
      const auto g = d.global_element_index(d.global_tile_index(LocalTileIndex(i, j)), {0, 0});
      for (SizeType b = 0; b < t.size().cols(); ++b)
        for (SizeType a = 0; a < t.size().rows(); ++a)
          t({a, b}) = f(g.row() + a, g.col() + b);
    }
}
// f(i, j, value) returns whether the value is right; counts the wrong ones
template <class M, class F>
int wrong(M& m, F&& f) {
  int bad = 0;
  const auto& d = m.distribution();
  for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
      auto w = tt::sync_wait(m.read(LocalTileIndex(i, j)));
      const auto& t = w.get();
      const auto g = d.global_element_index(d.global_tile_index(LocalTileIndex(i, j)), {0, 0});
      for (SizeType b = 0; b < t.size().cols(); ++b)
        for (SizeType a = 0; a < t.size().rows(); ++a)
          bad += !f(g.row() + a, g.col() + b, t({a, b}));
    }
  return bad;
}
// the whole matrix (column-major), on every process
template <class M>
std::vector<double> gather(M& m) {
  const SizeType n = m.size().rows();
  std::vector<double> v(std::size_t(n * m.size().cols()), 0.0);
  wrong(m, [&](SizeType i, SizeType j, double x) {
    v[std::size_t(i + j * n)] = x;
    return true;
  });
  MPI_Allreduce(MPI_IN_PLACE, v.data(), int(v.size()), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
  return v;
}
inline double val(SizeType i, SizeType j) { return std::sin(double(1 + 7 * i + 13 * j + i * j)); }
// waits up to five seconds
template <class F>
bool soon(F&& f) {
  for (int k = 0; k < 5000; ++k) {
    if (f())
      return true;
    usleep(1000);
  }
  return false;
}
