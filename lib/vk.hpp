// Monitor library: case bookkeeping, seeded generation, violation recording, reports.
//
// Every harness process writes $VK_OUT/report.<rank>.json when it ends normally and keeps the description of
// the case being executed in $VK_OUT/case.<rank> (memory mapped), so that a crash can be attributed to a case.
#pragma once

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vk {

inline std::uint64_t splitmix(std::uint64_t& s) {
  std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}
inline std::uint64_t hash_str(const std::string& s) {
  return hash_bytes(s.data(), s.size());
}

// Seeded generator. All random choices of a harness come from such objects.
class Rng {
  std::uint64_t s_;

public:
  explicit Rng(std::uint64_t s) : s_(s) {
    splitmix(s_);
  }
  std::uint64_t u64() {
    return splitmix(s_);
  }
  // uniform in [lo, hi]
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    std::uint64_t w = static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1u;
    if (w == 0)
      return static_cast<std::int64_t>(u64());
    return static_cast<std::int64_t>(static_cast<std::uint64_t>(lo) + u64() % w);
  }
  int irange(int lo, int hi) {
    return static_cast<int>(range(lo, hi));
  }
  bool chance(int num, int den) {
    return range(0, den - 1) < num;
  }
  // in [-1, 1]
  double real() {
    return static_cast<double>(static_cast<std::int64_t>(u64() >> 11)) / 4503599627370496.0 - 1.0;
  }
  double unit() {
    return static_cast<double>(u64() >> 11) / 9007199254740992.0;
  }
  template <class C>
  const typename C::value_type& pick(const C& c) {
    return c[static_cast<std::size_t>(range(0, static_cast<std::int64_t>(c.size()) - 1))];
  }
};

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += static_cast<char>(c);
  }
  return o;
}

struct Violation {
  std::string key, msg, cas;
};

class Ctx {
public:
  static Ctx& get() {
    static Ctx* c = new Ctx();
    return *c;
  }
  std::uint64_t seed = 1;
  bool thorough = false;
  int rank = 0;
  int seed_offset = 0;
  std::string out = "";
  std::mutex m;
  std::uint64_t evaluations = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::uint64_t sample_seen = 0;
  std::size_t last_sample = 0;
  std::map<std::string, std::uint64_t> counters;
  std::vector<Violation> violations;
  std::uint64_t violations_total = 0;
  std::map<std::string, int> per_key;
  std::string current;
  char* case_map = nullptr;
  static constexpr std::size_t case_size = 4096;

private:
  Ctx() {
    if (const char* s = std::getenv("VERIF_SEED"))
      seed = std::strtoull(s, nullptr, 10);
    if (const char* s = std::getenv("VERIF_TIER"))
      thorough = std::string(s) == "thorough";
    if (const char* s = std::getenv("OMPI_COMM_WORLD_RANK"))
      rank = std::atoi(s);
    if (const char* s = std::getenv("VK_OUT"))
      out = s;
    if (!out.empty()) {
      std::string f = out + "/case." + std::to_string(rank);
      int fd = ::open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
      if (fd >= 0 && ::ftruncate(fd, case_size) == 0) {
        void* p = ::mmap(nullptr, case_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED)
          case_map = static_cast<char*>(p);
      }
      if (fd >= 0)
        ::close(fd);
    }
  }
};

inline std::uint64_t seed() {
  return Ctx::get().seed;
}
inline bool thorough() {
  return Ctx::get().thorough;
}
template <class A, class B>
inline std::common_type_t<A, B> scale(A quick, B deep) {
  return thorough() ? deep : quick;
}
// generator for a named section, independent of other sections
inline Rng rng(const std::string& section) {
  return Rng(seed() * 0x9e3779b97f4a7c15ull ^ hash_str(section));
}

inline void cat_(std::ostringstream&) {}
template <class T, class... Ts>
void cat_(std::ostringstream& s, const T& t, const Ts&... ts) {
  if constexpr (std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char> ||
                std::is_same_v<T, char>)
    s << static_cast<int>(t);
  else if constexpr (std::is_same_v<T, bool>)
    s << (t ? "true" : "false");
  else
    s << t;
  cat_(s, ts...);
}
template <class... Ts>
std::string cat(const Ts&... ts) {
  std::ostringstream s;
  s.precision(17);
  cat_(s, ts...);
  return s.str();
}

inline void case_begin(const std::string& desc) {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  ++c.evaluations;
  c.current = desc;
  if (c.case_map) {
    std::size_t n = std::min(desc.size(), Ctx::case_size - 1);
    std::memcpy(c.case_map, desc.data(), n);
    c.case_map[n] = 0;
  }
  // reservoir of samples
  constexpr std::size_t keep = 12;
  ++c.sample_seen;
  c.last_sample = keep;
  if (c.samples.size() < keep) {
    c.last_sample = c.samples.size();
    c.samples.push_back(desc);
  }
  else {
    std::uint64_t h = hash_str(desc) ^ c.sample_seen;
    std::uint64_t j = splitmix(h) % c.sample_seen;
    if (j < keep) {
      c.last_sample = j;
      c.samples[j] = desc;
    }
  }
}
// the description of the current case grows while it runs
inline void case_update(const std::string& desc) {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  c.current = desc;
  if (c.case_map) {
    std::size_t n = std::min(desc.size(), Ctx::case_size - 1);
    std::memcpy(c.case_map, desc.data(), n);
    c.case_map[n] = 0;
  }
  if (c.last_sample < c.samples.size())
    c.samples[c.last_sample] = desc;
}
// register the current case as non-trivial (counted once per distinct key)
inline void nontrivial(const std::string& key) {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  c.distinct.insert(hash_str(key));
}
inline void nontrivial_current() {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  c.distinct.insert(hash_str(c.current));
}
inline void nontrivial_hash(std::uint64_t h) {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  c.distinct.insert(h);
}
inline void count(const std::string& name, std::uint64_t n = 1) {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  c.counters[name] += n;
}
inline void count_max(const std::string& name, std::uint64_t n) {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  auto& v = c.counters["max " + name];
  if (n > v)
    v = n;
}

inline void violation(const std::string& key, const std::string& msg) {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  ++c.violations_total;
  if (++c.per_key[key] <= 3 && c.violations.size() < 60) {
    c.violations.push_back({key, msg, c.current});
    std::fprintf(stderr, "[vk] violation %s: %s  (case: %s)\n", key.c_str(), msg.c_str(),
                 c.current.c_str());
  }
}
inline bool has_violations() {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  return c.violations_total > 0;
}

#define VK_CHECK(cond, key, ...)               \
  do {                                         \
    if (!(cond))                               \
      ::vk::violation(key, ::vk::cat(__VA_ARGS__)); \
  } while (0)

// Equality with printing of both sides
#define VK_EQ(got, want, key, ...)                                                              \
  do {                                                                                          \
    const auto vk_g = (got);                                                                    \
    const auto vk_w = (want);                                                                   \
    if (!(vk_g == vk_w))                                                                        \
      ::vk::violation(key, ::vk::cat(#got, " = ", vk_g, ", expected ", vk_w, " : ", __VA_ARGS__)); \
  } while (0)

enum class Outcome { Returned, Terminated, Threw, Crashed };
inline const char* outcome_name(Outcome o) {
  switch (o) {
    case Outcome::Returned:
      return "returned";
    case Outcome::Terminated:
      return "terminated";
    case Outcome::Threw:
      return "threw";
    default:
      return "crashed";
  }
}

// leaves at once: the exit hooks of a sanitizer take their time
[[noreturn]] inline void exit_now(int code) {
  ::syscall(SYS_exit_group, code);
  std::abort();
}
// Runs f in a forked child (only use when the process is single threaded) and reports how it ended.
// The child's output is discarded. Sanitizer reports and signals give Crashed.
template <class F>
Outcome run_forked(F&& f) {
  std::fflush(nullptr);
  pid_t pid = ::fork();
  if (pid < 0) {
    std::perror("fork");
    std::_Exit(2);
  }
  if (pid == 0) {
    int fd = ::open("/dev/null", O_WRONLY);
    if (!std::getenv("VK_FORK_OUTPUT")) {
      ::dup2(fd, 1);
      ::dup2(fd, 2);
    }
    std::set_terminate([]() { vk::exit_now(77); });
    try {
      f();
    }
    catch (...) {
      vk::exit_now(78);
    }
    vk::exit_now(0);
  }
  int st = 0;
  while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  count("forked probes");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
    return Outcome::Terminated;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78)
    return Outcome::Threw;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return Outcome::Returned;
  return Outcome::Crashed;
}

// Writes the report. Returns the process exit code (0: the monitors ran to the end; verdicts are in the report).
inline int finish() {
  auto& c = Ctx::get();
  std::lock_guard<std::mutex> l(c.m);
  if (c.out.empty()) {
    std::cerr << "[vk] evaluations " << c.evaluations << " distinct " << c.distinct.size() << " violations "
              << c.violations_total << "\n";
    for (auto& kv : c.counters)
      std::cerr << "[vk]   " << kv.first << ": " << kv.second << "\n";
    return c.violations_total ? 1 : 0;
  }
  std::string f = c.out + "/report." + std::to_string(c.rank) + ".json";
  std::string tmp = f + ".tmp";
  {
    std::ofstream o(tmp);
    o << "{\"rank\":" << c.rank << ",\"evaluations\":" << c.evaluations
      << ",\"violations_total\":" << c.violations_total << ",\"counters\":{";
    bool first = true;
    for (auto& kv : c.counters) {
      o << (first ? "" : ",") << "\"" << json_escape(kv.first) << "\":" << kv.second;
      first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : c.samples) {
      o << (first ? "" : ",") << "\"" << json_escape(s.substr(0, 600)) << "\"";
      first = false;
    }
    o << "],\"violations\":[";
    first = true;
    for (auto& v : c.violations) {
      o << (first ? "" : ",") << "{\"key\":\"" << json_escape(v.key) << "\",\"msg\":\""
        << json_escape(v.msg.substr(0, 2000)) << "\",\"case\":\"" << json_escape(v.cas.substr(0, 2000)) << "\"}";
      first = false;
    }
    o << "],\"distinct\":[";
    first = true;
    for (auto h : c.distinct) {
      o << (first ? "" : ",") << h;
      first = false;
    }
    o << "]}\n";
  }
  std::rename(tmp.c_str(), f.c_str());
  return 0;
}

}
