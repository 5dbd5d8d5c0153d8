// C39: failed assertions, unreachable branches, invalid options and failed MPI calls stop the program and say where and what;
// names of options are unique and parse back. The real macros fail in forked children whose standard error is read.
#include <atomic>
#include <chrono>
#include <cctype>
#include <complex>
#include <cstring>
#include <iomanip>
#include <set>
#include <sstream>
#include <thread>
#include <variant>

#include <mpi.h>
#include <sys/mman.h>

#include <vk.hpp>

#include <dlaf/blas/enum_output.h>
#include <dlaf/blas/enum_parse.h>
#include <dlaf/common/assert.h>
#include <dlaf/common/format_short.h>
#include <dlaf/common/index2d.h>
#include <dlaf/common/timer.h>
#include <dlaf/communication/error.h>
#include <dlaf/eigensolver/tridiag_solver/coltype.h>
#include <dlaf/lapack/enum_output.h>
#include <dlaf/matrix/allocation.h>
#include <dlaf/matrix/allocation_io.h>
#include <dlaf/matrix/index.h>
#include <dlaf/types.h>

#include "c39_levels.hpp"
C39_DECLARE(only_none)
C39_DECLARE(only_plain)
C39_DECLARE(only_moderate)
C39_DECLARE(only_heavy)
namespace all_levels {
C39_FUNCTIONS(on)
}

using vk::cat;

// ---------------------------------------------------------------- children with their standard error
struct Shared {
  std::atomic<int> after, caught, aborts, comm_world, code, before;
};
Shared* sh = nullptr;

struct Said {
  int status = -1;  // 77 terminate, 79 MPI_Abort, 78 escaped exception, 0 returned
  std::string text;
};

bool in_child = false;
extern "C" int MPI_Abort(MPI_Comm c, int code) {
  if (!in_child)
    return PMPI_Abort(c, code);
  ++sh->aborts;
  sh->comm_world = c == MPI_COMM_WORLD;
  sh->code = code;
  vk::exit_now(79);
  return 0;
}

template <class F>
Said child(F&& f) {
  sh->after = 0, sh->caught = 0, sh->aborts = 0, sh->comm_world = 0, sh->code = 0, sh->before = 0;
  std::fflush(nullptr);
  int p[2];
  if (::pipe(p) != 0)
    std::_Exit(2);
  const pid_t pid = ::fork();
  if (pid < 0) {
    std::perror("fork");
    std::_Exit(2);
  }
  if (pid == 0) {
    in_child = true;
    ::close(p[0]);
    ::dup2(p[1], 1);
    ::dup2(p[1], 2);
    std::set_terminate([]() { std::cerr.flush(); vk::exit_now(77); });
    try {
      f();
    }
    catch (...) {
      vk::exit_now(78);
    }
    vk::exit_now(0);
  }
  ::close(p[1]);
  Said s;
  char buf[4096];
  for (;;) {
    const ssize_t n = ::read(p[0], buf, sizeof buf);
    if (n > 0)
      s.text.append(buf, std::size_t(n));
    else if (n == 0 || errno != EINTR)
      break;
  }
  ::close(p[0]);
  int st = 0;
  while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  s.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  vk::count("forked probes");
  return s;
}

// the pieces occur in the text in this order
void says(const Said& s, const std::vector<std::string>& pieces, const std::string& what) {
  std::size_t at = 0;
  for (auto& p : pieces) {
    const auto k = s.text.find(p, at);
    VK_CHECK(k != std::string::npos, "message", what, ": \"", p, "\" is missing or out of place in \"", s.text, "\"");
    if (k == std::string::npos)
      return;
    at = k + p.size();
  }
  vk::count("messages read");
}
void stopped(const Said& s, const std::string& what, int want = 77) {
  VK_CHECK(s.status == want, "not-stopped", what, ": the program ", s.status == 0 ? "went on" : s.status == 78 ? "threw an exception" : cat("ended with ", s.status));
  VK_CHECK(sh->after == 0, "went-on", what, ": what follows the failure was executed");
  VK_CHECK(sh->caught == 0, "catchable", what, ": the failure could be caught");
}

// ---------------------------------------------------------------- assertions
using V = std::variant<int, long long, unsigned long long, double, bool, char, std::string, dlaf::GlobalTileIndex, dlaf::LocalElementSize, std::complex<float>,
                       blas::Uplo, dlaf::Device>;
struct Value {
  V v;
  friend std::ostream& operator<<(std::ostream& o, const Value& x) {
    std::visit([&](auto& y) { o << y; }, x.v);
    return o;
  }
  std::string str() const {
    std::ostringstream o;
    o << *this;
    return o.str();
  }
};
Value random_value(vk::Rng& r) {
  switch (r.irange(0, 11)) {
    case 0: return {r.irange(-100000, 100000)};
    case 1: return {(long long) r.u64()};
    case 2: return {(unsigned long long) r.u64()};
    case 3: return {r.real() * 1e10};
    case 4: return {r.chance(1, 2)};
    case 5: return {char('a' + r.irange(0, 25))};
    case 6: {
      std::string s;
      for (int k = r.irange(0, r.chance(1, 20) ? 3000 : 20); k > 0; --k)
        s += char(r.chance(1, 30) ? '\n' : r.irange(32, 126));
      return {s};
    }
    case 7: return {dlaf::GlobalTileIndex(r.range(-5, 1000), r.range(-5, 1000))};
    case 8: return {dlaf::LocalElementSize(r.range(0, 1000), r.range(0, 1000))};
    case 9: return {std::complex<float>(float(r.irange(-9, 9)), float(r.irange(-9, 9)))};
    case 10: return {r.pick(std::vector<blas::Uplo>{blas::Uplo::Lower, blas::Uplo::Upper, blas::Uplo::General})};
    default: return {r.chance(1, 2) ? dlaf::Device::CPU : dlaf::Device::GPU};
  }
}

enum Where { Here, Thread, Noexcept, Caught, Unwinding, TwoThreads, Places };
const char* where_name(int w) {
  static const char* n[] = {"in the main thread", "on another thread", "in a noexcept function", "in a try block", "while unwinding", "on two threads"};
  return n[w];
}
struct Unwind {
  std::function<void()> f;
  ~Unwind() noexcept(false) { f(); }
};
// runs f, which fails, in this place; sets the flags if the program goes on
void run_at(int w, const std::function<void()>& f) {
  auto go = [&]() {
    f();
    ++sh->after;
  };
  try {
    switch (w) {
      case Thread: std::thread(go).join(); break;
      case TwoThreads: {
        std::thread a(go), b(go);
        a.join();
        b.join();
        break;
      }
      case Noexcept: [&]() noexcept { go(); }(); break;
      case Unwinding:
        try {
          Unwind u{go};
          throw 1;
        }
        catch (int) {
        }
        break;
      default: go();
    }
  }
  catch (...) {
    ++sh->caught;
  }
}

void fail_with(const std::vector<Value>& v, int level, int a, int b) {
  switch (level * 5 + int(v.size())) {
    case 1: DLAF_ASSERT(a == b, v[0]); break;
    case 2: DLAF_ASSERT(a + 1 > b + 1, v[0], v[1]); break;
    case 3: DLAF_ASSERT(a > b && !false, v[0], v[1], v[2]); break;
    case 4: DLAF_ASSERT((std::max<int>(a, b) == a), v[0], v[1], v[2], v[3]); break;
    case 6: DLAF_ASSERT_MODERATE(a == b, v[0]); break;
    case 7: DLAF_ASSERT_MODERATE(b <= a, v[0], v[1]); break;
    case 8: DLAF_ASSERT_MODERATE(!(a < b), v[0], v[1], v[2]); break;
    case 9: DLAF_ASSERT_MODERATE(a != a, v[0], v[1], v[2], v[3]); break;
    case 11: DLAF_ASSERT_HEAVY(a == b, v[0]); break;
    case 12: DLAF_ASSERT_HEAVY(b <= a, v[0], v[1]); break;
    case 13: DLAF_ASSERT_HEAVY(!(a < b), v[0], v[1], v[2]); break;
    case 14: DLAF_ASSERT_HEAVY(a != a, v[0], v[1], v[2], v[3]); break;
    case 16: DLAF_UNIMPLEMENTED(v[0]); break;
    case 17: DLAF_UNIMPLEMENTED(v[0], v[1]); break;
    case 18: DLAF_UNIMPLEMENTED(v[0], v[1], v[2]); break;
    case 19: DLAF_UNIMPLEMENTED(v[0], v[1], v[2], v[3]); break;
    default: std::_Exit(2);
  }
}
std::string unreachable() {
  return DLAF_UNREACHABLE(std::string);
}
void unreachable_plain() {
  DLAF_UNREACHABLE_PLAIN;
}
void invalid_option(const Value& v) {
  DLAF_INVALID_OPTION_VALUE("the option", v, "red, green, blue");
}

void assertions(vk::Rng& r) {
  for (int k = 0; k < vk::scale(400, 3000); ++k) {
    const int level = r.irange(0, 3), w = r.irange(0, Places - 1), n = r.irange(1, 4), a = r.irange(-50, 50), b = a + r.irange(1, 50);
    std::vector<Value> v;
    for (int i = 0; i < n; ++i)
      v.push_back(random_value(r));
    std::string desc = cat("assertion of level ", level, " with ", n, " values ", where_name(w), ":");
    for (auto& x : v)
      desc += cat(" <", x.str().substr(0, 30), ">");
    vk::case_begin(desc);
    const Said s = child([&]() {
      run_at(w, [&]() {
        fail_with(v, level, a, b);
      });
    });
    stopped(s, desc);
    std::vector<std::string> pieces{"c39_stop.cpp:", "fail_with"};
    static const char* ex[4][5] = {{"", "a == b", "a + 1 > b + 1", "a > b && !false", "(std::max<int>(a, b) == a)"},
                                   {"", "a == b", "b <= a", "!(a < b)", "a != a"},
                                   {"", "a == b", "b <= a", "!(a < b)", "a != a"},
                                   {"", "", "", "", ""}};
    pieces.push_back(ex[level][n]);
    for (auto& x : v)
      pieces.push_back(x.str());
    if (w != TwoThreads)
      says(s, pieces, desc);
    else
      says(s, {"c39_stop.cpp:"}, desc);
    vk::nontrivial(desc);
  }
  // the line
  {
    vk::case_begin("lines");
    const int here = __LINE__;
    const Said s = child([]() { DLAF_ASSERT(false, ""); });
    says(s, {cat("c39_stop.cpp:", here + 1), "assertions", "false"}, "line of the assertion");
    stopped(s, "line of the assertion");
    for (int u = 0; u < 2; ++u) {
      const Said t = child([&]() {
        if (u == 0)
          unreachable();
        else
          unreachable_plain();
        ++sh->after;
      });
      stopped(t, "unreachable branch");
      says(t, {"c39_stop.cpp:", "unreachable"}, "unreachable branch");
    }
    vk::nontrivial_current();
  }
  for (int k = 0; k < 40; ++k) {
    const Value v = random_value(r);
    vk::case_begin(cat("invalid option value ", v.str().substr(0, 40)));
    const int w = r.irange(0, TwoThreads - 1);
    const Said s = child([&]() {
      run_at(w, [&]() {
        invalid_option(v);
      });
    });
    stopped(s, "invalid option value");
    says(s, {"c39_stop.cpp:", "invalid_option", "the option", v.str(), "red, green, blue"}, "invalid option value");
    vk::nontrivial_current();
  }
  // assertions which hold
  for (int k = 0; k < 300; ++k) {
    const int n = r.irange(1, 4);
    int evaluated = 0;
    std::vector<Value> v;
    for (int i = 0; i < n; ++i)
      v.push_back(random_value(r));
    std::ostringstream o;
    auto* old = std::cerr.rdbuf(o.rdbuf());
    auto c = [&]() { return ++evaluated > 0; };
    switch (n) {
      case 1: DLAF_ASSERT(c(), v[0]); break;
      case 2: DLAF_ASSERT(c(), v[0], v[1]); break;
      case 3: DLAF_ASSERT_MODERATE(c(), v[0], v[1], v[2]); break;
      default: DLAF_ASSERT_HEAVY(c(), v[0], v[1], v[2], v[3]);
    }
    std::cerr.rdbuf(old);
    VK_EQ(evaluated, 1, "evaluated", "condition of an assertion which holds");
    VK_CHECK(o.str().empty(), "noise", "an assertion which holds printed ", o.str());
    vk::count("assertions which hold");
  }
  // levels switched on and off
  struct L {
    const char* name;
    void (*f[3])(Counts&, bool);
    int on;  // -1 none, 3 all
  };
  const L ls[] = {{"none", {only_none::plain, only_none::moderate, only_none::heavy}, -1},
                  {"plain", {only_plain::plain, only_plain::moderate, only_plain::heavy}, 0},
                  {"moderate", {only_moderate::plain, only_moderate::moderate, only_moderate::heavy}, 1},
                  {"heavy", {only_heavy::plain, only_heavy::moderate, only_heavy::heavy}, 2},
                  {"all", {all_levels::on::plain, all_levels::on::moderate, all_levels::on::heavy}, 3}};
  for (auto& l : ls)
    for (int m = 0; m < 3; ++m) {
      const bool on = l.on == 3 || l.on == m;
      const std::string what = cat("assertion of level ", m, " with levels ", l.name);
      vk::case_begin(what);
      Counts c;
      std::ostringstream o;
      auto* old = std::cerr.rdbuf(o.rdbuf());
      l.f[m](c, true);
      std::cerr.rdbuf(old);
      VK_EQ(c.condition, int(on), "evaluated", what);
      VK_CHECK(on || c.first + c.second == 0, "evaluated", what, ": the arguments of a disabled assertion were evaluated");
      VK_CHECK(o.str().empty(), "noise", what);
      const Said s = child([&]() {
        Counts d;
        l.f[m](d, false);
        ++sh->after;
      });
      if (on) {
        stopped(s, what);
        says(s, {"c39_", "cond(c, ok)", "first value", "4711"}, what);
      }
      else
        VK_CHECK(s.status == 0 && s.text.empty(), "noise", what, ": a disabled assertion acted: ", s.status, " ", s.text);
      vk::nontrivial_current();
    }
}

// ---------------------------------------------------------------- MPI
int called = 0;
int returns(int code) {
  ++called;
  return code;
}
void checked(int code) {
  DLAF_MPI_CHECK_ERROR(returns(code));
}
void mpi(vk::Rng& r) {
  MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_RETURN);
  MPI_Comm_set_errhandler(MPI_COMM_SELF, MPI_ERRORS_RETURN);
  std::vector<int> codes;
  for (int c = MPI_SUCCESS + 1; c <= MPI_ERR_LASTCODE && c < 200; ++c) {
    char t[MPI_MAX_ERROR_STRING];
    int n = 0;
    if (MPI_Error_string(c, t, &n) == MPI_SUCCESS)
      codes.push_back(c);
  }
  for (int k = 0; k < 6; ++k) {  // of the application's own
    int cl = 0, code = 0;
    MPI_Add_error_class(&cl);
    MPI_Add_error_string(cl, cat("own error class ", k).c_str());
    MPI_Add_error_code(cl, &code);
    MPI_Add_error_string(code, cat("own error code ", k).c_str());
    codes.push_back(cl);
    codes.push_back(code);
    vk::count("error codes of the application");
  }
  for (int c : codes) {
    char t[MPI_MAX_ERROR_STRING];
    int n = 0;
    MPI_Error_string(c, t, &n);
    const int w = r.irange(0, TwoThreads - 1);
    const std::string what = cat("MPI error ", c, " (", t, ") ", where_name(w));
    vk::case_begin(what);
    const Said s = child([&]() { run_at(w, [&]() { checked(c); }); });
    stopped(s, what, 79);
    VK_CHECK(sh->aborts == 1 && sh->comm_world == 1, "abort-world", what, ": ", sh->aborts.load(), " call(s) of MPI_Abort, on the world: ", sh->comm_world.load());
    VK_CHECK(sh->code != 0, "abort-code", what, ": aborted with the code of success");
    says(s, {"c39_stop.cpp:", "checked", t}, what);
    vk::count("MPI errors");
    vk::nontrivial_current();
  }
  {
    vk::case_begin("MPI success");
    called = 0;
    std::ostringstream o;
    auto* old = std::cerr.rdbuf(o.rdbuf());
    checked(MPI_SUCCESS);
    std::cerr.rdbuf(old);
    VK_EQ(called, 1, "evaluated", "successful MPI call");
    VK_CHECK(o.str().empty(), "noise", "a successful MPI call printed ", o.str());
  }
  // calls that really fail
  struct R {
    const char* name;
    void (*f)();
  };
  const R rs[] = {
      {"send to a rank that does not exist", []() { int x = 0; DLAF_MPI_CHECK_ERROR(MPI_Send(&x, 1, MPI_INT, 99, 0, MPI_COMM_SELF)); }},
      {"negative count", []() { int x = 0; DLAF_MPI_CHECK_ERROR(MPI_Send(&x, -1, MPI_INT, 0, 0, MPI_COMM_SELF)); }},
      {"negative tag", []() { int x = 0; DLAF_MPI_CHECK_ERROR(MPI_Send(&x, 1, MPI_INT, 0, -7, MPI_COMM_SELF)); }},
      {"null type", []() { int x = 0; DLAF_MPI_CHECK_ERROR(MPI_Send(&x, 1, MPI_DATATYPE_NULL, 0, 0, MPI_COMM_SELF)); }},
      {"root outside", []() { int x = 0; DLAF_MPI_CHECK_ERROR(MPI_Bcast(&x, 1, MPI_INT, 5, MPI_COMM_SELF)); }},
  };
  for (auto& x : rs) {
    vk::case_begin(x.name);
    const Said s = child([&]() {
      x.f();
      ++sh->after;
    });
    stopped(s, x.name, 79);
    says(s, {"c39_stop.cpp:", "MPI_ERR_"}, x.name);
    vk::count("MPI calls that fail");
    vk::nontrivial_current();
  }
}

// ---------------------------------------------------------------- names
template <class E>
std::string name(E e) {
  std::ostringstream o;
  o << e;
  return o.str();
}
template <class E>
std::string short_name(E e) {
  std::ostringstream o;
  o << dlaf::internal::FormatShort{e};
  return o.str();
}
template <class E>
void names(const char* what, const std::vector<std::pair<E, std::string>>& v, bool brief) {
  std::set<std::string> full, cut;
  for (auto& [e, want] : v) {
    vk::case_begin(cat(what, " ", want));
    const std::string n = name(e);
    VK_CHECK(n == want, "name", what, " ", want, " is printed as ", n);
    VK_CHECK(full.insert(n).second, "name-unique", what, ": two values are printed as ", n);
    if constexpr (std::is_same_v<E, blas::Diag> || std::is_same_v<E, blas::Layout> || std::is_same_v<E, blas::Op> || std::is_same_v<E, blas::Side> ||
                  std::is_same_v<E, blas::Uplo>) {
      const std::string s = short_name(e);
      VK_CHECK(s == want.substr(0, 1), "short-name", what, " ", want, " is shortened to ", s);
      VK_CHECK(cut.insert(s).second, "name-unique", what, ": two values are shortened to ", s);
    }
    // the stream is left usable, and formatting of what follows is not changed
    std::ostringstream o;
    o << std::hex << e << 255;
    VK_CHECK(o.str() == want + "ff", "stream-state", what, " ", want, " left ", o.str());
    vk::count("names");
    vk::nontrivial_current();
  }
}
std::string any_case(vk::Rng& r, std::string s) {
  for (auto& c : s)
    c = char(r.chance(1, 2) ? std::toupper(c) : std::tolower(c));
  return s;
}
void options(vk::Rng& r) {
  names<blas::Diag>("diagonal", {{blas::Diag::Unit, "Unit"}, {blas::Diag::NonUnit, "NonUnit"}}, true);
  names<blas::Layout>("layout", {{blas::Layout::RowMajor, "RowMajor"}, {blas::Layout::ColMajor, "ColMajor"}}, true);
  names<blas::Op>("operation", {{blas::Op::NoTrans, "NoTrans"}, {blas::Op::Trans, "Trans"}, {blas::Op::ConjTrans, "ConjTrans"}}, true);
  names<blas::Side>("side", {{blas::Side::Left, "Left"}, {blas::Side::Right, "Right"}}, true);
  names<blas::Uplo>("triangle", {{blas::Uplo::Lower, "Lower"}, {blas::Uplo::Upper, "Upper"}, {blas::Uplo::General, "General"}}, true);
  names<lapack::Norm>("norm", {{lapack::Norm::One, "OneNorm"}, {lapack::Norm::Two, "TwoNorm"}, {lapack::Norm::Inf, "InfinityNorm"}, {lapack::Norm::Fro, "FrobeniusNorm"},
                               {lapack::Norm::Max, "MaxNorm"}}, false);
  names<dlaf::Device>("device", {{dlaf::Device::CPU, "CPU"}, {dlaf::Device::GPU, "GPU"}}, false);
  names<dlaf::Backend>("backend", {{dlaf::Backend::MC, "MC"}, {dlaf::Backend::GPU, "GPU"}}, false);
  using CT = dlaf::eigensolver::internal::ColType;
  names<CT>("column type", {{CT::UpperHalf, "UpperHalf"}, {CT::LowerHalf, "LowerHalf"}, {CT::Dense, "Dense"}, {CT::Deflated, "Deflated"}}, false);
  using AL = dlaf::matrix::AllocationLayout;
  const std::vector<std::pair<AL, std::string>> al{{AL::ColMajor, "ColMajor"}, {AL::Blocks, "Blocks"}, {AL::Tiles, "Tiles"}};
  names<AL>("allocation", al, false);
  for (auto& [e, n] : al)
    for (int k = 0; k < 40; ++k) {
      const std::string s = k == 0 ? name(e) : any_case(r, n);
      vk::case_begin(cat("allocation layout from ", s));
      VK_CHECK(dlaf::matrix::allocation_layout_from(s) == e, "parse", s);
      vk::count("names parsed");
      vk::nontrivial_current();
    }
  for (int k = 0; k < 60; ++k) {
    std::string s = any_case(r, r.pick(al).second);
    const std::size_t at = std::size_t(r.irange(0, int(s.size()) - 1));
    switch (r.irange(0, 5)) {
      case 0: s.erase(at, 1); break;
      case 1: s.insert(at, 1, char(r.irange(32, 126))); break;
      case 2: s[at] = char(s[at] == '_' ? '-' : '_'); break;
      case 3: s += " "; break;
      case 4: s.clear(); break;
      default: s = s.substr(0, at);
    }
    vk::case_begin(cat("allocation layout from <", s, ">"));
    const Said c = child([&]() {
      dlaf::matrix::allocation_layout_from(s);
      ++sh->after;
    });
    // an inserted character can give one of the names back only by being one of its letters, which changes the length
    stopped(c, cat("unknown allocation layout <", s, ">"));
    says(c, {"AllocationLayout", s, "ColMajor", "Blocks", "Tiles"}, "unknown allocation layout");
    vk::nontrivial_current();
  }
  for (auto [c, u] : std::vector<std::pair<char, blas::Uplo>>{{'L', blas::Uplo::Lower}, {'U', blas::Uplo::Upper}, {'G', blas::Uplo::General}, {'l', blas::Uplo::Lower},
                                                               {'u', blas::Uplo::Upper}, {'g', blas::Uplo::General}}) {
    vk::case_begin(cat("triangle from ", c));
    VK_CHECK(dlaf::internal::char2uplo(c) == u, "parse", "triangle ", c, " became ", name(dlaf::internal::char2uplo(c)));
    VK_CHECK(short_name(dlaf::internal::char2uplo(c))[0] == std::toupper(c), "parse", c);
    vk::count("names parsed");
    vk::nontrivial_current();
  }
}

// ---------------------------------------------------------------- timer
template <class Rep, class Period, int Id>
struct FakeClock {
  using rep = Rep;
  using period = Period;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<FakeClock>;
  static inline rep t{};
  static time_point now() { return time_point(duration(t)); }
};
template <class C>
void fake(vk::Rng& r, const char* what) {
  for (int k = 0; k < 50; ++k) {
    C::t = typename C::rep(r.range(-1000000, 1000000));
    const dlaf::common::Timer<C> timer;
    const auto t0 = C::t;
    for (int i = 0; i < 4; ++i) {  // reading it does not restart it
      const auto d = typename C::rep(r.range(0, r.chance(1, 3) ? 5 : 1000000));
      C::t += d;
      const double want = double(C::t - t0) * double(C::period::num) / double(C::period::den);
      vk::case_begin(cat("timer of ", what, ": ", C::t - t0));
      VK_CHECK(std::abs(timer.elapsed() - want) <= 1e-12 * std::abs(want), "elapsed", what, ": ", timer.elapsed(), " s instead of ", want);
      vk::count("times read");
    }
    vk::nontrivial_current();
  }
}
void timers(vk::Rng& r) {
  fake<FakeClock<long long, std::nano, 0>>(r, "nanoseconds");
  fake<FakeClock<long long, std::milli, 1>>(r, "milliseconds");
  fake<FakeClock<long long, std::ratio<1>, 2>>(r, "seconds");
  fake<FakeClock<long long, std::ratio<60>, 3>>(r, "minutes");
  fake<FakeClock<double, std::micro, 4>>(r, "fractional microseconds");
  fake<FakeClock<long long, std::ratio<1, 3>, 5>>(r, "thirds of a second");
  fake<FakeClock<long long, std::pico, 6>>(r, "picoseconds");
  const auto a = std::chrono::steady_clock::now();
  const dlaf::common::Timer<> t;
  const dlaf::common::Timer<std::chrono::steady_clock> u;
  std::this_thread::sleep_for(std::chrono::milliseconds(30));
  const double e = u.elapsed();
  const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
  VK_CHECK(e >= 0.03 && e <= wall, "elapsed", "30 ms of sleep took ", e, " s, of ", wall, " s around it");
  (void) t.elapsed();
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  sh = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  new (sh) Shared{};
  auto r = vk::rng("c39");
  assertions(r);
  mpi(r);
  options(r);
  timers(r);
  const int rc = vk::finish();
  MPI_Finalize();
  return rc;
}
