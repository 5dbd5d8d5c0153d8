#include "vk_sched.hpp"

#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <vector>

#ifdef VK_TSAN
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
extern "C" void AnnotateIgnoreReadsBegin(const char*, int);
extern "C" void AnnotateIgnoreReadsEnd(const char*, int);
extern "C" void AnnotateIgnoreWritesBegin(const char*, int);
extern "C" void AnnotateIgnoreWritesEnd(const char*, int);
// the scheduler's own containers are protected by a lock the race detector is not shown (it would order the workloads'
// accesses); what their memory functions do under it is none of its business
#define QUIET() (AnnotateIgnoreReadsBegin(__FILE__, __LINE__), AnnotateIgnoreWritesBegin(__FILE__, __LINE__))
#define UNQUIET() (AnnotateIgnoreWritesEnd(__FILE__, __LINE__), AnnotateIgnoreReadsEnd(__FILE__, __LINE__))
#define ACQ(p) __tsan_acquire(p)
#define REL(p) __tsan_release(p)
#else
#define ACQ(p) ((void) 0)
#define REL(p) ((void) 0)
#define QUIET() ((void) 0)
#define UNQUIET() ((void) 0)
#endif

namespace vks {
namespace {
struct task {
  fn_t fn;
  void* arg;
  int prio;
  std::uint64_t id;
  bool held;
};
struct mpi_op {
  MPI_Request req;
  fn_t fn;
  void* arg;
  unsigned hold;
  std::uint64_t id;
};

int lock_word = 0;
void lock() {
  int n = 0;
  while (__atomic_exchange_n(&lock_word, 1, __ATOMIC_ACQUIRE))
    if (++n > 64) {
      sched_yield();
    }
  QUIET();
}
void unlock() {
  UNQUIET();
  __atomic_store_n(&lock_word, 0, __ATOMIC_RELEASE);
}

int sig = 0;  // bumped on every change of state
long futex(int* a, int op, int v, const timespec* t = nullptr) { return syscall(SYS_futex, a, op, v, t, nullptr, 0); }
void bump() {
  __atomic_add_fetch(&sig, 1, __ATOMIC_RELEASE);
  futex(&sig, FUTEX_WAKE_PRIVATE, INT_MAX);
}
void wait_sig(int seen, long ns) {
  timespec t{ns / 1000000000, ns % 1000000000};
  futex(&sig, FUTEX_WAIT_PRIVATE, seen, &t);
}

// never destroyed: detached threads may outlive static destruction
std::vector<task>& queue = *new std::vector<task>;
std::vector<mpi_op>& mops = *new std::vector<mpi_op>;
int n_threads = 0, n_workers = 0, n_running = 0, n_blocked = 0, n_idle = 0, main_blocked = 0;
bool is_running = false, is_suspended = false, is_polling = false, quitting = false;
int poller_busy = 0;
char quiesce_token;  // carries the effects of all finished tasks to a thread that waited for all of them
int pol = RANDOM;
std::uint64_t rng = 88172645463325252ull;
int post_mode = 0;  // communications are posted: 0 at once, 1 by a task of their own, 2 either way
unsigned delay_pm = 0, delay_us = 0, mpi_pm = 0, mpi_polls = 0;
std::uint64_t next_id = 0, next_mpi = 0, last_mpi_done = 0, last_started = 0;
std::uint64_t base_id = 0;
stats st{};
std::uint64_t progress = 0;
thread_local bool worker_thread = false;

std::uint64_t rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng;
}

void* worker_main(void*);
void spawn() {
  ++n_workers;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 128ul << 20);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  pthread_t t;
  if (pthread_create(&t, &a, worker_main, nullptr))
    fatal("harness", "cannot create a worker thread");
  pthread_attr_destroy(&a);
}

std::size_t pick() {
  const std::size_t n = queue.size();
  switch (pol) {
    case LIFO:
      return n - 1;
    case FIFO:
      return 0;
    case STARVE: {
      std::size_t k = rnd() % n;
      for (std::size_t i = 0; i < n; ++i)
        if (!queue[(k + i) % n].held)
          return (k + i) % n;
      return k;
    }
    case PRIO:
    case REVERSE_PRIO: {
      std::size_t b = 0;
      for (std::size_t i = 1; i < n; ++i)
        if (pol == PRIO ? queue[i].prio > queue[b].prio : queue[i].prio < queue[b].prio)
          b = i;
      return b;
    }
    default:
      return rnd() % n;
  }
}

void* worker_main(void*) {
  worker_thread = true;
  lock();
  for (;;) {
    if (quitting)
      break;
    // surplus workers (left from blocking periods) leave
    if (n_idle > 4 && n_workers - n_blocked > n_threads + 4)
      break;
    if (is_running && !is_suspended && !queue.empty() && n_running < n_threads) {
      std::size_t k = pick();
      task t = queue[k];
      queue.erase(queue.begin() + static_cast<long>(k));
      ++n_running;
      if (static_cast<std::uint64_t>(n_running) > st.max_running)
        st.max_running = n_running;
      st.order_hash = (st.order_hash ^ (t.id - base_id)) * 1099511628211ull;
      if (t.id < last_started)
        ++st.reordered;
      last_started = t.id;
      unsigned d = 0;
      if (delay_pm && rnd() % 1000 < delay_pm)
        d = 1 + static_cast<unsigned>(rnd() % delay_us);
      unlock();
      if (d)
        usleep(d);
      ACQ(t.arg);
      t.fn(t.arg);
      REL(&quiesce_token);
      lock();
      --n_running;
      ++st.executed;
      ++progress;
      unlock();
      bump();
      lock();
    }
    else {
      int seen = __atomic_load_n(&sig, __ATOMIC_ACQUIRE);
      ++n_idle;
      unlock();
      wait_sig(seen, 50000000);
      lock();
      --n_idle;
    }
  }
  --n_workers;
  unlock();
  return nullptr;
}

void* poller_main(void*) {
  std::vector<mpi_op> mine;
  for (;;) {
    lock();
    if (quitting) {
      unlock();
      return nullptr;
    }
    bool work = is_polling && !mops.empty();
    if (work) {
      // hand the requests over, in a random order
      mine.swap(mops);
      poller_busy = static_cast<int>(mine.size());
      for (std::size_t i = mine.size(); i > 1; --i)
        std::swap(mine[i - 1], mine[rnd() % i]);
    }
    int seen = __atomic_load_n(&sig, __ATOMIC_ACQUIRE);
    unlock();
    if (!work) {
      wait_sig(seen, 2000000);
      continue;
    }
    std::vector<mpi_op> rest, done;
    for (auto& m : mine) {
      int flag = 0;
      if (m.req == MPI_REQUEST_NULL)
        flag = 1;
      else
        MPI_Test(&m.req, &flag, MPI_STATUS_IGNORE);
      if (flag && m.hold) {
        --m.hold;
        flag = 0;
      }
      (flag ? done : rest).push_back(m);
    }
    lock();
    mops.insert(mops.end(), rest.begin(), rest.end());
    mine.clear();
    poller_busy = static_cast<int>(done.size());
    for (auto& m : done) {
      if (m.id < last_mpi_done)
        ++st.mpi_out_of_order;
      last_mpi_done = m.id;
      ++st.mpi_completed;
      ++progress;
    }
    unlock();
    for (auto& m : done)
      submit(m.fn, m.arg, 1);
    lock();
    poller_busy = 0;
    unlock();
    if (!done.empty())
      bump();
    else
      usleep(20);
  }
}

int stall_max = 600;

void* watch_main(void*) {
  std::uint64_t last = ~0ull;
  int dead = 0, stall = 0;
  for (;;) {
    usleep(100000);
    lock();
    if (quitting) {
      unlock();
      return nullptr;
    }
    const bool quiet = n_running == 0 && (queue.empty() || is_suspended) && main_blocked > 0;
    const bool mpi = !mops.empty() || poller_busy;
    const bool waiting = n_blocked > 0 || main_blocked > 1 || !queue.empty() || mpi;
    if (progress != last || !quiet || !waiting) {
      last = progress;
      dead = stall = 0;
    }
    else if (mpi && is_polling)
      ++stall;
    else
      ++dead;
    char buf[256];
    std::snprintf(buf, sizeof buf, "running=%d queued=%zu blocked=%d mpi-pending=%zu polling=%d suspended=%d", n_running,
                  queue.size(), n_blocked, mops.size(), is_polling, is_suspended);
    unlock();
    if (dead > 80)
      fatal("deadlock", buf);
    if (stall > stall_max)
      fatal("mpi-stall", buf);
  }
}

void ensure_helpers() {
  static int once = 0;
  if (__atomic_exchange_n(&once, 1, __ATOMIC_ACQ_REL))
    return;
  // read here: the threads must not look at the environment while the program changes it
  if (const char* s = std::getenv("VK_STALL_S"))
    stall_max = std::atoi(s) * 10;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  pthread_t t;
  pthread_create(&t, &a, poller_main, nullptr);
  pthread_create(&t, &a, watch_main, nullptr);
  pthread_attr_destroy(&a);
}
}  // namespace

void fatal(const char* kind, const char* msg) {
  std::fprintf(stderr, "[vk-fatal] %s %s\n", kind, msg);
  std::fflush(stderr);
  std::abort();
}

void submit(fn_t fn, void* arg, int prio) {
  REL(arg);
  lock();
  if (!is_running) {
    unlock();
    fatal("runtime-not-running", "a task was submitted while the runtime was not running");
  }
  std::uint64_t id = ++next_id;
  queue.push_back({fn, arg, prio, id, rnd() % 8 == 0});
  ++st.submitted;
  if (queue.size() > st.max_queue)
    st.max_queue = queue.size();
  ++progress;
  // a blocked worker's place may be free with nobody left to take it
  if (n_idle == 0 && n_workers - n_blocked < n_threads)
    spawn();
  unlock();
  bump();
}

void mpi_register(MPI_Request req, fn_t fn, void* arg) {
  REL(arg);
  lock();
  if (!is_polling) {
    unlock();
    fatal("mpi-not-polling", "a communication was posted while nobody polls for its completion");
  }
  unsigned h = 0;
  if (mpi_pm && rnd() % 1000 < mpi_pm)
    h = 1 + static_cast<unsigned>(rnd() % mpi_polls);
  mops.push_back({req, fn, arg, h, ++next_mpi});
  ++st.mpi_registered;
  ++progress;
  unlock();
  bump();
}

void block_begin() {
  lock();
  ++st.blocks;
  if (worker_thread) {
    --n_running;
    ++n_blocked;
    if (n_idle == 0 && is_running && n_workers - n_blocked < n_threads)
      spawn();
  }
  else
    main_blocked += 2;
  unlock();
  bump();
}
void block_end() {
  lock();
  if (worker_thread) {
    ++n_running;
    --n_blocked;
  }
  else
    main_blocked -= 2;
  ++progress;
  unlock();
}

void park(const int* flag) {
  while (!__atomic_load_n(flag, __ATOMIC_ACQUIRE))
    futex(const_cast<int*>(flag), FUTEX_WAIT_PRIVATE, 0);
}
void unpark(int* flag) {
  __atomic_store_n(flag, 1, __ATOMIC_RELEASE);
  futex(flag, FUTEX_WAKE_PRIVATE, INT_MAX);
}

void start(int n) {
  ensure_helpers();
  lock();
  if (is_running) {
    unlock();
    fatal("runtime-started-twice", "");
  }
  n_threads = n;
  is_running = true;
  is_suspended = false;
  while (n_workers < n)
    spawn();
  unlock();
  bump();
}

void wait_idle() {
  lock();
  main_blocked += 1;
  for (;;) {
    bool idle = n_running == 0 && n_blocked == 0 && queue.empty() && mops.empty() && poller_busy == 0;
    if (idle)
      break;
    int seen = __atomic_load_n(&sig, __ATOMIC_ACQUIRE);
    unlock();
    wait_sig(seen, 5000000);
    lock();
  }
  main_blocked -= 1;
  unlock();
  ACQ(&quiesce_token);
}

void stop() {
  if (is_running && is_suspended)
    fatal("runtime-stopped-suspended", "");
  wait_idle();
  lock();
  is_running = false;
  unlock();
}
bool running() { return is_running; }
bool suspended() { return is_suspended; }
void suspend() {
  wait_idle();
  lock();
  is_suspended = true;
  unlock();
}
void resume() {
  lock();
  is_suspended = false;
  unlock();
  bump();
}
int num_threads() { return n_threads; }
void start_polling() {
  ensure_helpers();
  lock();
  is_polling = true;
  unlock();
}
void stop_polling() {
  wait_idle();
  lock();
  is_polling = false;
  unlock();
}
bool polling() { return is_polling; }
bool on_worker() { return worker_thread; }

void set_policy(int p, std::uint64_t seed) {
  lock();
  pol = p;
  rng = seed * 0x9e3779b97f4a7c15ull + 1;
  if (!rng)
    rng = 1;
  post_mode = static_cast<int>((seed ^ (seed >> 17)) % 3);
  unlock();
}
bool post_later() {
  if (__atomic_load_n(&post_mode, __ATOMIC_RELAXED) == 0)
    return false;
  lock();
  const bool later = is_running && (post_mode == 1 || rnd() % 2);
  st.mpi_posted_later += later;
  unlock();
  return later;
}
void set_delay(unsigned pm, unsigned us) {
  lock();
  delay_pm = us ? pm : 0;
  delay_us = us;
  unlock();
}
void set_mpi_delay(unsigned pm, unsigned polls) {
  lock();
  mpi_pm = polls ? pm : 0;
  mpi_polls = polls;
  unlock();
}
stats get_stats() {
  lock();
  stats s = st;
  unlock();
  return s;
}
void reset_order() {
  lock();
  st.order_hash = 1469598103934665603ull;
  base_id = next_id;
  unlock();
}
}

namespace vks {
namespace {
struct acc_key {
  const char* p;
  bool operator<(const acc_key& o) const { return p < o.p; }
};
struct acc_val {
  std::size_t n;
};
struct acc {
  int word = 0;
  std::map<acc_key, acc_val> live;
  std::uint64_t allocations = 0, releases = 0, bytes = 0;
  void lock() {
    while (__atomic_exchange_n(&word, 1, __ATOMIC_ACQUIRE))
      sched_yield();
  }
  void unlock() { __atomic_store_n(&word, 0, __ATOMIC_RELEASE); }
};
}
void* account_make() { return new acc(); }
void account_add(void* v, void* p, std::size_t n) {
  acc* a = static_cast<acc*>(v);
  a->lock();
  a->live[acc_key{static_cast<const char*>(p)}] = acc_val{n};
  ++a->allocations;
  a->bytes += n;
  a->unlock();
}
bool account_remove(void* v, void* p, std::size_t* n) {
  acc* a = static_cast<acc*>(v);
  a->lock();
  auto i = a->live.find(acc_key{static_cast<const char*>(p)});
  const bool ok = i != a->live.end();
  if (ok) {
    *n = i->second.n;
    a->bytes -= *n;
    a->live.erase(i);
    ++a->releases;
  }
  a->unlock();
  return ok;
}
bool account_find(void* v, const void* p, void** base, std::size_t* n) {
  acc* a = static_cast<acc*>(v);
  a->lock();
  auto i = a->live.upper_bound(acc_key{static_cast<const char*>(p)});
  bool ok = i != a->live.begin();
  if (ok) {
    --i;
    ok = static_cast<const char*>(p) < i->first.p + i->second.n;
    *base = const_cast<char*>(i->first.p);
    *n = i->second.n;
  }
  a->unlock();
  return ok;
}
std::uint64_t account_count(void* v, int what) {
  acc* a = static_cast<acc*>(v);
  a->lock();
  const std::uint64_t r = what == 0 ? a->allocations : what == 1 ? a->releases : what == 2 ? a->live.size() : a->bytes;
  a->unlock();
  return r;
}
}
