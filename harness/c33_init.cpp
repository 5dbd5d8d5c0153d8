// C33: configuration precedence and the life cycle of the library.
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <unistd.h>

#include <mpi.h>
#include <pika/init.hpp>
#include <pika/mpi.hpp>
#include <pika/runtime.hpp>

#include <dlaf/eigensolver/internal/get_1d_block_size.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/eigensolver/internal/get_red2band_barrier_busy_wait.h>
#include <dlaf/eigensolver/internal/get_red2band_panel_nworkers.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_barrier_busy_wait.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_nworkers.h>
#include <dlaf/factorization/qr/internal/get_tfactor_barrier_busy_wait.h>
#include <dlaf/factorization/qr/internal/get_tfactor_num_workers.h>
#include <dlaf/init.h>
#include <dlaf/matrix/allocation.h>
#include <dlaf/matrix/allocation_io.h>
#include <dlaf/memory/memory_chunk.h>
#include <dlaf/tune.h>
#include <vk.hpp>
using namespace dlaf;
using vk::Rng;
using vk::cat;
using Tune = TuneParameters;

// MPI as the library sees it: present or not, with some level of thread support
static int mpi_present = 0, mpi_level = MPI_THREAD_MULTIPLE;
static std::uint64_t mpi_asked = 0;
extern "C" int MPI_Initialized(int* f) {
  ++mpi_asked;
  *f = mpi_present;
  return MPI_SUCCESS;
}
extern "C" int MPI_Query_thread(int* f) {
  *f = mpi_level;
  return MPI_SUCCESS;
}
extern "C" int MPI_Abort(MPI_Comm, int) {
  _exit(77);
}

// an option, described independently of the implementation
struct Option {
  std::string env, cmd;  // cmd empty: not on the command line
  enum Kind { Size, Signed, Real, Flag, Layout } kind;
  std::string printed;  // name in the printed configuration, empty: not printed
  // as text in canonical form
  std::function<std::string(configuration&, Tune&)> get;
  std::function<void(configuration&, Tune&, const std::string&)> set;
  bool config;
};

template <class T>
std::string canon(const T& v) {
  std::ostringstream os;
  os << v;
  return os.str();
}
template <class T>
void from(T& v, const std::string& s) {
  std::istringstream is(s);
  is >> v;
}
static void from(matrix::AllocationLayout& v, const std::string& s) {
  using L = matrix::AllocationLayout;
  v = s == "ColMajor" ? L::ColMajor : s == "Blocks" ? L::Blocks : L::Tiles;
}

static std::vector<Option> options() {
  std::vector<Option> o;
#define CFG(field, ENV, CMD, KIND, PRINT)                                                            \
  o.push_back({"DLAF_" ENV, CMD, Option::KIND, PRINT, [](configuration& c, Tune&) { return canon(c.field); }, \
               [](configuration& c, Tune&, const std::string& s) { from(c.field, s); }, true})
#define TUNE(field, ENV, CMD, KIND, PRINT)                                                           \
  o.push_back({"DLAF_" ENV, CMD, Option::KIND, PRINT, [](configuration&, Tune& c) { return canon(c.field); }, \
               [](configuration&, Tune& c, const std::string& s) { from(c.field, s); }, false})
  CFG(print_config, "PRINT_CONFIG", "--dlaf:print-config", Flag, "");
  CFG(num_np_gpu_streams, "NUM_NP_GPU_STREAMS", "--dlaf:num-np-gpu-streams", Size, "num_np_gpu_streams");
  CFG(num_hp_gpu_streams, "NUM_HP_GPU_STREAMS", "--dlaf:num-hp-gpu-streams", Size, "num_hp_gpu_streams");
  CFG(umpire_host_memory_pool_initial_block_bytes, "UMPIRE_HOST_MEMORY_POOL_INITIAL_BLOCK_BYTES", "--dlaf:umpire-host-memory-pool-initial-block-bytes", Size,
      "umpire_host_memory_pool_initial_block_bytes");
  CFG(umpire_host_memory_pool_next_block_bytes, "UMPIRE_HOST_MEMORY_POOL_NEXT_BLOCK_BYTES", "--dlaf:umpire-host-memory-pool-next-block-bytes", Size,
      "umpire_host_memory_pool_next_block_bytes");
  CFG(umpire_host_memory_pool_alignment_bytes, "UMPIRE_HOST_MEMORY_POOL_ALIGNMENT_BYTES", "--dlaf:umpire-host-memory-pool-alignment-bytes", Size,
      "umpire_host_memory_pool_alignment_bytes");
  CFG(umpire_host_memory_pool_coalescing_free_ratio, "UMPIRE_HOST_MEMORY_POOL_COALESCING_FREE_RATIO", "--dlaf:umpire-host-memory-pool-coalescing-free-ratio", Real,
      "umpire_host_memory_pool_coalescing_free_ratio");
  CFG(umpire_host_memory_pool_coalescing_reallocation_ratio, "UMPIRE_HOST_MEMORY_POOL_COALESCING_REALLOCATION_RATIO",
      "--dlaf:umpire-host-memory-pool-coalescing-reallocation-ratio", Real, "umpire_host_memory_pool_coalescing_reallocation_ratio");
  CFG(umpire_device_memory_pool_initial_block_bytes, "UMPIRE_DEVICE_MEMORY_POOL_INITIAL_BLOCK_BYTES", "--dlaf:umpire-device-memory-pool-initial-block-bytes", Size,
      "umpire_device_memory_pool_initial_block_bytes");
  CFG(umpire_device_memory_pool_next_block_bytes, "UMPIRE_DEVICE_MEMORY_POOL_NEXT_BLOCK_BYTES", "--dlaf:umpire-device-memory-pool-next-block-bytes", Size,
      "umpire_device_memory_pool_next_block_bytes");
  CFG(umpire_device_memory_pool_alignment_bytes, "UMPIRE_DEVICE_MEMORY_POOL_ALIGNMENT_BYTES", "--dlaf:umpire-device-memory-pool-alignment-bytes", Size,
      "umpire_device_memory_pool_alignment_bytes");
  CFG(umpire_device_memory_pool_coalescing_free_ratio, "UMPIRE_DEVICE_MEMORY_POOL_COALESCING_FREE_RATIO", "--dlaf:umpire-device-memory-pool-coalescing-free-ratio",
      Real, "umpire_device_memory_pool_coalescing_free_ratio");
  CFG(umpire_device_memory_pool_coalescing_reallocation_ratio, "UMPIRE_DEVICE_MEMORY_POOL_COALESCING_REALLOCATION_RATIO",
      "--dlaf:umpire-device-memory-pool-coalescing-reallocation-ratio", Real, "umpire_device_memory_pool_coalescing_reallocation_ratio");
  CFG(num_gpu_blas_handles, "NUM_GPU_BLAS_HANDLES", "--dlaf:num-gpu-blas-handles", Size, "num_gpu_blas_handles");
  CFG(num_gpu_lapack_handles, "NUM_GPU_LAPACK_HANDLES", "--dlaf:num-gpu-lapack-handles", Size, "num_gpu_lapack_handles");

  TUNE(default_allocation_layout, "DEFAULT_ALLOCATION_LAYOUT", "--dlaf:default_allocation_layout", Layout, "default_allocation_layout");
  TUNE(tfactor_num_threads, "TFACTOR_NUM_THREADS", "--dlaf:tfactor-num-threads", Size, "tfactor_num_threads");
  TUNE(tfactor_num_streams, "TFACTOR_NUM_STREAMS", "--dlaf:tfactor-num-streams", Size, "tfactor_num_streams");
  TUNE(tfactor_barrier_busy_wait_us, "TFACTOR_BARRIER_BUSY_WAIT_US", "--dlaf:tfactor-barrier-busy-wait-us", Size, "tfactor_barrier_busy_wait_us");
  TUNE(red2band_panel_num_threads, "RED2BAND_PANEL_NUM_THREADS", "--dlaf:red2band-panel-num-threads", Size, "red2band_panel_num_threads");
  TUNE(red2band_barrier_busy_wait_us, "RED2BAND_BARRIER_BUSY_WAIT_US", "--dlaf:red2band-barrier-busy-wait-us", Size, "red2band_barrier_busy_wait_us");
  TUNE(eigensolver_min_band, "EIGENSOLVER_MIN_BAND", "--dlaf:eigensolver-min-band", Signed, "eigensolver_min_band");
  TUNE(band_to_tridiag_1d_block_size_base, "BAND_TO_TRIDIAG_1D_BLOCK_SIZE_BASE", "--dlaf:band-to-tridiag-1d-block-size-base", Signed,
       "band_to_tridiag_1d_block_size_base");
  TUNE(tridiag_rank1_num_threads, "TRIDIAG_RANK1_NUM_THREADS", "--dlaf:tridiag-rank1-num-threads", Size, "tridiag_rank1_num_threads");
  TUNE(tridiag_rank1_barrier_busy_wait_us, "TRIDIAG_RANK1_BARRIER_BUSY_WAIT_US", "--dlaf:tridiag-rank1-barrier-busy-wait-us", Size,
       "tridiag_rank1_barrier_busy_wait_us");
  TUNE(bt_band_to_tridiag_hh_apply_group_size, "BT_BAND_TO_TRIDIAG_HH_APPLY_GROUP_SIZE", "--dlaf:bt-band-to-tridiag-hh-apply-group-size", Signed,
       "bt_band_to_tridiag_hh_apply_group_size");
  TUNE(communicator_grid_num_pipelines, "COMMUNICATOR_GRID_NUM_PIPELINES", "--dlaf:communicator-grid-num-pipelines", Size, "communicator_grid_num_pipelines");
  TUNE(debug_dump_cholesky_factorization_data, "DEBUG_DUMP_CHOLESKY_FACTORIZATION_DATA", "", Flag, "");
  TUNE(debug_dump_generalized_eigensolver_data, "DEBUG_DUMP_GENERALIZED_EIGENSOLVER_DATA", "", Flag, "");
  TUNE(debug_dump_generalized_to_standard_data, "DEBUG_DUMP_GENERALIZED_TO_STANDARD_DATA", "", Flag, "");
  TUNE(debug_dump_eigensolver_data, "DEBUG_DUMP_EIGENSOLVER_DATA", "", Flag, "");
  TUNE(debug_dump_inverse_from_cholesky_factor_data, "DEBUG_DUMP_INVERSE_FROM_CHOLESKY_FACTOR_DATA", "", Flag, "");
  TUNE(debug_dump_reduction_to_band_data, "DEBUG_DUMP_REDUCTION_TO_BAND_DATA", "", Flag, "");
  TUNE(debug_dump_band_to_tridiagonal_data, "DEBUG_DUMP_BAND_TO_TRIDIAGONAL_DATA", "", Flag, "");
  TUNE(debug_dump_triangular_inverse_data, "DEBUG_DUMP_TRIANGULAR_INVERSE_DATA", "", Flag, "");
  TUNE(debug_dump_tridiag_solver_data, "DEBUG_DUMP_TRIDIAG_SOLVER_DATA", "", Flag, "");
  return o;
}

// a value of an option: canonical text and the way it is written
static std::string value(const Option& o, Rng& r) {
  switch (o.kind) {
    case Option::Size:
      return std::to_string(r.chance(1, 8) ? r.u64() : r.chance(1, 8) ? ~std::uint64_t(0) - std::uint64_t(r.irange(0, 3)) : std::uint64_t(r.irange(0, 5000)));
    case Option::Signed:
      return std::to_string(r.chance(1, 8) ? std::int64_t(r.u64()) : std::int64_t(r.irange(-20, 5000)));
    case Option::Real:
      return canon(double(r.irange(-8, 64)) / 8);
    case Option::Flag:
      return r.chance(1, 2) ? "1" : "0";
    default:
      return r.pick(std::vector<std::string>{"ColMajor", "Blocks", "Tiles"});
  }
}
static std::string mix_case(std::string s, Rng& r) {
  for (char& c : s)
    if (r.chance(1, 2))
      c = char(r.chance(1, 2) ? std::toupper(c) : std::tolower(c));
  return s;
}
static std::string written(const Option& o, const std::string& v, Rng& r) {
  if (o.kind == Option::Flag)
    return mix_case(r.pick(v == "1" ? std::vector<std::string>{"on", "true", "yes", "1"} : std::vector<std::string>{"off", "false", "no", "0"}), r);
  if (o.kind == Option::Layout)
    return mix_case(v, r);
  return v;
}
static std::string malformed(const Option& o, Rng& r) {
  const std::string n = std::to_string(r.irange(1, 99));
  std::vector<std::string> bad;
  if (o.kind == Option::Flag)
    bad = {"", "maybe", "o", "onn", "10", "-1", "2", "true ", " yes"};
  else if (o.kind == Option::Layout)
    bad = {"Column", "tile", "Colmajor ", "0", "block", "ColMajorTiles"};
  else {
    bad = {"", " ", "abc", n + "abc", "k" + n, n + "k", n + " " + n, "-", "+", n + ",5", "--" + n, "0x" + n + "z", n + ";"};
    if (o.kind != Option::Real)
      for (auto s : {"0x10", "1.5", "1e3", "99999999999999999999", "18446744073709551616"})
        bad.push_back(s);
    if (o.kind == Option::Signed)
      for (auto s : {"9223372036854775808", "-9223372036854775809"})
        bad.push_back(s);
    if (o.kind == Option::Real)
      for (auto s : {"1e999", "1.5.5", "-1e400"})
        bad.push_back(s);
  }
  return r.pick(bad);
}

struct Line {
  std::vector<std::string> words{"program"};
  std::vector<const char*> argv() const {
    std::vector<const char*> v;
    for (auto& w : words)
      v.push_back(w.c_str());
    return v;
  }
};

// initialise in one of the documented ways
struct Life {
  std::unique_ptr<ScopedInitializer> scoped;
  int how = 0;
  void begin(const Line& l, const configuration* user, Rng& r) {
    auto argv = l.argv();
    const int n = int(argv.size());
    how = r.irange(0, 3);
    if (how >= 2) {
      namespace po = pika::program_options;
      po::options_description d("application");
      d.add_options()("size", po::value<int>(), "of the problem");
      d.add(getOptionsDescription());
      argv.insert(argv.begin() + 1, "--size=5");
      po::variables_map vm;
      po::store(po::parse_command_line(n + 1, argv.data(), d), vm);
      po::notify(vm);
      if (how == 2)
        user ? initialize(vm, *user) : initialize(vm);
      else
        scoped = user ? std::make_unique<ScopedInitializer>(vm, *user) : std::make_unique<ScopedInitializer>(vm);
    }
    else if (how == 0)
      user ? initialize(n, argv.data(), *user) : initialize(n, argv.data());
    else
      scoped = user ? std::make_unique<ScopedInitializer>(n, argv.data(), *user) : std::make_unique<ScopedInitializer>(n, argv.data());
  }
  void end() {
    if (scoped)
      scoped.reset();
    else
      finalize();
  }
};

struct Capture {
  std::ostringstream out, err;
  std::streambuf *o, *e;
  Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
  ~Capture() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};

static void clear_env(const std::vector<Option>& os) {
  for (auto& o : os)
    unsetenv(o.env.c_str());
  for (auto s : {"DLAF_NUM_NP_GPU_STREAMS_PER_THREAD", "DLAF_NUM_HP_GPU_STREAMS_PER_THREAD"})
    unsetenv(s);
}

static void one_life(const std::vector<Option>& os, Rng& r, std::string& d) {
  clear_env(os);
  configuration user, blank;
  Tune& tune = getTuneParameters();
  const bool give_user = r.chance(2, 3);
  const int density = r.irange(1, 6);
  Line line;
  std::vector<std::string> want;
  for (auto& o : os) {
    std::string v;
    int from_where = 0;
    if (o.config ? give_user && r.chance(density, 7) : r.chance(density, 7)) {
      // the application's own choice
      const std::string u = value(o, r);
      o.set(user, tune, u);
    }
    v = o.get(user, tune);
    if (r.chance(density, 7)) {
      v = value(o, r);
      setenv(o.env.c_str(), written(o, v, r).c_str(), 1);
      from_where = 1;
    }
    if (!o.cmd.empty() && r.chance(density, 7)) {
      if (o.kind == Option::Flag) {
        v = "1";
        line.words.push_back(o.cmd);
      }
      else {
        v = value(o, r);
        const std::string w = written(o, v, r);
        if (r.chance(1, 2) || w[0] == '-')
          line.words.push_back(o.cmd + "=" + w);
        else {
          line.words.push_back(o.cmd);
          line.words.push_back(w);
        }
      }
      from_where = 2;
    }
    want.push_back(v);
    vk::count(from_where == 2 ? "values from the command line" : from_where == 1 ? "values from the environment" : "values from the application");
  }
  // not the application's but of an unrelated version
  const bool old_env = r.chance(1, 8), old_cmd = r.chance(1, 8);
  if (old_env)
    setenv("DLAF_NUM_NP_GPU_STREAMS_PER_THREAD", "7", 1);
  if (old_cmd)
    line.words.push_back("--dlaf:num-hp-gpu-streams-per-thread=9");
  if (r.chance(1, 10))
    line.words.push_back("--dlaf:no-mpi-pool");
  const configuration& given = give_user ? user : blank;
  mpi_present = r.chance(1, 2);
  mpi_level = MPI_THREAD_MULTIPLE;
  for (auto& w : line.words)
    d += w + " ";
  vk::case_begin(cat("initialise with ", line.words.size() - 1, " words: ", d.substr(0, 400)));

  Life life;
  std::string out, err;
  {
    Capture c;
    life.begin(line, give_user ? &user : nullptr, r);
    out = c.out.str();
    err = c.err.str();
  }
  d += cat("how=", life.how, " mpi=", mpi_present);
  configuration& cfg = internal::getConfiguration();
  for (std::size_t k = 0; k < os.size(); ++k)
    VK_CHECK(os[k].get(cfg, tune) == want[k], "precedence", os[k].env, " is ", os[k].get(cfg, tune), ", expected ", want[k]);
  VK_CHECK(cfg.num_np_gpu_streams_per_thread == given.num_np_gpu_streams_per_thread && cfg.num_hp_gpu_streams_per_thread == given.num_hp_gpu_streams_per_thread,
           "unsupported-option", "a value that should be ignored was used");
  VK_CHECK((err.find("DLAF_NUM_NP_GPU_STREAMS_PER_THREAD") != std::string::npos) == old_env &&
               (err.find("dlaf:num-hp-gpu-streams-per-thread") != std::string::npos) == old_cmd,
           "unsupported-option", "warnings: ", err);
  if (want[0] == "1") {
    std::map<std::string, std::string> lines;
    std::istringstream is(out);
    for (std::string l; std::getline(is, l);) {
      const auto p = l.find(" = ");
      if (p == std::string::npos)
        continue;
      const auto b = l.find_first_not_of(' ');
      VK_CHECK(lines.emplace(l.substr(b, p - b), l.substr(p + 3)).second, "printed-twice", l);
    }
    for (std::size_t k = 0; k < os.size(); ++k)
      if (!os[k].printed.empty()) {
        auto i = lines.find(os[k].printed);
        VK_CHECK(i != lines.end(), "not-printed", os[k].printed);
        if (i != lines.end())
          VK_CHECK(i->second == want[k], "printed-wrong", os[k].printed, " printed as ", i->second, ", in effect is ", want[k]);
      }
    vk::count("configurations printed");
  }
  else
    VK_CHECK(out.empty(), "printed-unasked", out);
  VK_CHECK(vks::polling() == bool(mpi_present), "polling", "for MPI requests is ", vks::polling(), " with MPI ", mpi_present);

  // what the algorithms make of the parameters
  const std::size_t pool = std::size_t(vks::num_threads());
  auto clamp = [](std::size_t v, std::size_t hi) { return std::min(std::max<std::size_t>(v, 1), std::max<std::size_t>(hi, 1)); };
  VK_CHECK(factorization::internal::get_tfactor_num_workers<Backend::MC>() == clamp(tune.tfactor_num_threads, pool - 1), "workers", "tfactor");
  VK_CHECK(eigensolver::internal::get_red2band_panel_num_workers() == clamp(tune.red2band_panel_num_threads, pool - 1), "workers", "red2band");
  VK_CHECK(eigensolver::internal::get_tridiag_rank1_num_workers() == clamp(tune.tridiag_rank1_num_threads, pool), "workers", "rank1");
  auto us = [](std::size_t v) { return std::chrono::duration<double>(std::chrono::microseconds(v)); };
  VK_CHECK(factorization::internal::getTFactorBarrierBusyWait() == us(tune.tfactor_barrier_busy_wait_us), "busy-wait", "tfactor");
  VK_CHECK(eigensolver::internal::getReductionToBandBarrierBusyWait() == us(tune.red2band_barrier_busy_wait_us), "busy-wait", "red2band");
  VK_CHECK(eigensolver::internal::getTridiagRank1BarrierBusyWait() == us(tune.tridiag_rank1_barrier_busy_wait_us), "busy-wait", "rank1");
  const SizeType nb = r.irange(1, 600);
  if (tune.eigensolver_min_band >= 2) {
    SizeType b = nb;
    for (SizeType q = nb - 1; q >= 1; --q)
      if (nb % q == 0 && q >= tune.eigensolver_min_band)
        b = q;
    VK_CHECK(eigensolver::internal::getBandSize(nb) == b, "band-size", "of ", nb, " with minimum ", tune.eigensolver_min_band, " is ", eigensolver::internal::getBandSize(nb), ", expected ", b);
  }
  if (tune.band_to_tridiag_1d_block_size_base >= 1) {
    const SizeType base = tune.band_to_tridiag_1d_block_size_base, got = eigensolver::internal::get1DBlockSize(nb);
    VK_CHECK(got % nb == 0 && got >= nb && (got == nb || got <= base) && (base - got < nb), "1d-block-size", got, " for ", nb, " and ", base);
  }
  {
    using namespace matrix;
    const AllocationSpec a(AllocationLayoutDefault{});
    VK_CHECK(a.layout() == tune.default_allocation_layout, "default-layout", a.layout());
    vk::count("parameters used");
  }
  {
    memory::MemoryChunk<double, Device::CPU> m(r.irange(0, 40));
    for (SizeType i = 0; i < m.size(); ++i)
      *m(i) = 1;
  }

  // MPI may come to life only now; then the polling is the application's own, and is left to it
  const bool own_polling = !mpi_present && r.chance(1, 2);
  if (own_polling) {
    mpi_present = 1;
    vks::start_polling();
  }
  life.end();
  if (own_polling) {
    VK_CHECK(vks::polling(), "polling", "started by the application was stopped by the library");
    vks::stop_polling();
    vk::count("polling by the application");
  }
  const configuration fresh;
  for (auto& o : os)
    if (o.config) {
      configuration f = fresh;
      VK_CHECK(o.get(internal::getConfiguration(), tune) == o.get(f, tune), "after-finalise", o.env, " is still ", o.get(internal::getConfiguration(), tune));
    }
  VK_CHECK(!vks::polling(), "polling", "after the end");
  VK_CHECK(memory::internal::getUmpireHostAllocator().vk().live() == 0, "memory", "still in use at the end");
  vk::count("lives");
}

template <class F>
static void section(const char* name, int n, F&& f) {
  Rng r = vk::rng(name);
  for (int k = 0; k < n; ++k) {
    Rng one(r.u64());
    f(k, one);
  }
}

int main() {
  const auto os = options();
  using vk::Outcome;

  // refused histories and values, each in a child of its own
  section("refused", vk::scale(250, 3000), [&](int k, Rng& r) {
    clear_env(os);
    const int what = k % 10;
    auto life = [&](auto&& f) {
      return vk::run_forked([&] {
        setenv("VK_THREADS", "1", 1);
        pika::start(0, nullptr);
        f();
      });
    };
    std::string text;
    Outcome res = Outcome::Terminated;
    const char* none[] = {"program"};
    bool fine = false;
    if (what == 0) {
      text = "initialised twice";
      const bool again_scoped = r.chance(1, 2);
      res = life([&] {
        initialize(1, none);
        if (again_scoped)
          ScopedInitializer s(1, none);
        else
          initialize(1, none);
      });
    }
    else if (what == 1) {
      text = "finalised without initialisation";
      const int before = r.irange(0, 2);
      res = life([&] {
        for (int q = 0; q < before; ++q) {
          initialize(1, none);
          finalize();
        }
        finalize();
      });
    }
    else if (what == 2) {
      text = "tune parameters without the runtime";
      const bool direct = r.chance(1, 2);
      res = vk::run_forked([&] {
        if (direct)
          getTuneParameters();
        else
          initialize(1, none);
      });
    }
    else if (what == 3) {
      const int level = r.pick(std::vector<int>{MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED});
      text = cat("MPI with thread level ", level);
      res = life([&] {
        mpi_present = 1;
        mpi_level = level;
        initialize(1, none);
      });
    }
    else if (what == 4) {
      text = "unknown or repeated option";
      const bool unknown = r.chance(1, 2);
      res = life([&] {
        const char* a[] = {"program", unknown ? "--dlaf:no-such-option=3" : "--dlaf:num-gpu-blas-handles=3", "--dlaf:num-gpu-blas-handles=4"};
        initialize(3, a);
      });
    }
    else if (what == 5) {
      // what refused ones are compared with
      text = "a proper life";
      fine = true;
      const int threads = r.irange(1, 6);
      res = vk::run_forked([&] {
        setenv("VK_THREADS", std::to_string(threads).c_str(), 1);
        pika::start(0, nullptr);
        const std::size_t half = std::size_t(std::max(1, threads / 2)), all = std::size_t(threads);
        const auto t = getTuneParameters();
        if (t.tfactor_num_threads != half || t.red2band_panel_num_threads != half || t.tridiag_rank1_num_threads != all)
          throw 1;
        for (int q = 0; q < 3; ++q) {
          initialize(1, none);
          finalize();
        }
        pika::stop();
      });
    }
    else {
      const auto& o = r.pick(os);
      const bool by_cmd = what >= 8 && !o.cmd.empty();
      std::string w = malformed(o, r);
      if (by_cmd && o.kind == Option::Flag)
        w = "=" + w;
      text = cat(by_cmd ? o.cmd : o.env, " set to '", w, "'");
      // nothing is said about an unspecified layout
      res = life([&] {
        if (by_cmd) {
          const std::string arg = o.kind == Option::Flag ? o.cmd + w : o.cmd + "=" + w;
          const char* a[] = {"program", arg.c_str()};
          initialize(2, a);
        }
        else {
          setenv(o.env.c_str(), w.c_str(), 1);
          const std::string good = o.kind == Option::Flag ? o.cmd : o.cmd + "=" + value(o, r);
          const char* a[] = {"program", good.c_str()};
          // whatever takes precedence over it
          initialize(o.cmd.empty() || r.chance(2, 3) ? 1 : 2, a);
        }
      });
      vk::count("malformed values");
    }
    vk::case_begin(text);
    if (fine)
      VK_CHECK(res == Outcome::Returned, "refused-use", text, ": ", vk::outcome_name(res));
    else
      VK_CHECK(res == Outcome::Terminated || res == Outcome::Threw, "accepted", text, ": ", vk::outcome_name(res));
    vk::nontrivial(text);
  });

  // a number below zero for a count, on the command line and in the environment
  section("negative", vk::scale(40, 300), [&](int k, Rng& r) {
    clear_env(os);
    const auto& o = os[std::size_t(k) % os.size()];
    if (o.kind != Option::Size)
      return;
    const std::string w = std::to_string(-std::int64_t(r.irange(1, 99)));
    const bool cmd = r.chance(1, 2);
    const Outcome res = vk::run_forked([&] {
      setenv("VK_THREADS", "1", 1);
      pika::start(0, nullptr);
      const std::string arg = o.cmd + "=" + w;
      const char* a[] = {"program", arg.c_str()};
      if (!cmd)
        setenv(o.env.c_str(), w.c_str(), 1);
      initialize(cmd ? 2 : 1, a);
    });
    vk::case_begin(cat(cmd ? o.cmd : o.env, "=", w));
    VK_CHECK(res == Outcome::Terminated || res == Outcome::Threw, cmd ? "negative-on-command-line" : "negative-in-environment", o.env, ": ", w, " ", vk::outcome_name(res));
    vk::nontrivial(cat(o.env, cmd, w));
    vk::count("malformed values");
  });

  // every option, with a proper value that something is attached to
  section("attached", int(os.size()) * vk::scale(4, 20), [&](int k, Rng& r) {
    clear_env(os);
    const auto& o = os[std::size_t(k) % os.size()];
    std::string w = written(o, value(o, r), r);
    const std::string extra(1, r.pick(std::vector<char>{'k', 'M', 'x', ' ', ';', ',', '%', '_', 'B', 's', '\t'}));
    const int where = k / int(os.size()) % 4;
    // (a blank in front of a number is accepted, and so is left out)
    const bool front = where == 2 && extra != " " && extra != "\t";
    w = front ? extra + w : w + extra;
    const bool cmd = where == 3 && !o.cmd.empty() && o.kind != Option::Flag;
    const Outcome res = vk::run_forked([&] {
      setenv("VK_THREADS", "1", 1);
      pika::start(0, nullptr);
      const std::string arg = o.cmd + "=" + w;
      const char* a[] = {"program", arg.c_str()};
      if (!cmd)
        setenv(o.env.c_str(), w.c_str(), 1);
      initialize(cmd ? 2 : 1, a);
    });
    vk::case_begin(cat(cmd ? o.cmd : o.env, "='", w, "'"));
    VK_CHECK(res == Outcome::Terminated || res == Outcome::Threw, "accepted", o.env, ": '", w, "' ", vk::outcome_name(res));
    vk::nontrivial(cat(o.env, cmd, w));
    vk::count("malformed values");
  });

  section("help", 1, [&](int, Rng&) {
    clear_env(os);
    std::ostringstream d;
    d << getOptionsDescription();
    for (auto& o : os)
      if (!o.cmd.empty())
        VK_CHECK(d.str().find(o.cmd) != std::string::npos, "help", o.cmd, " is not described");
  });

  // asking for help ends the program properly, after the description was printed
  section("asked for help", 6, [&](int k, Rng&) {
    clear_env(os);
    const Outcome res = vk::run_forked([&] {
      setenv("VK_THREADS", "1", 1);
      pika::start(0, nullptr);
      static std::ostringstream text;
      static auto& known = os;
      std::cout.rdbuf(text.rdbuf());
      std::atexit([] {
        for (auto& o : known)
          if (!o.cmd.empty() && text.str().find(o.cmd) == std::string::npos)
            vk::exit_now(1);
        vk::exit_now(77);
      });
      const char* a[] = {"program", "--dlaf:help", k % 2 ? "--dlaf:num-gpu-blas-handles=3" : "--dlaf:print-config"};
      if (k < 3)
        initialize(3, a);
      else
        ScopedInitializer s(3, a);
    });
    vk::case_begin("asked for help");
    VK_CHECK(res == Outcome::Terminated, "help", "the program ", vk::outcome_name(res));
  });

  pika::start(0, nullptr);
  const Tune start = getTuneParameters();
  section("lives", vk::scale(1500, 20000), [&](int k, Rng& r) {
    if (k % 50 == 0)
      getTuneParameters() = start;
    std::string d;
    one_life(os, r, d);
    vk::nontrivial(d);
  });
  vk::count("questions to MPI", mpi_asked);
  pika::stop();
  return vk::finish();
}
