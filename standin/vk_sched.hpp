// Scheduler and MPI poller behind the pika stand-in. The implementation (vk_sched.cpp) is compiled without sanitizers
// and synchronises with raw atomics and futexes only, so that it adds no happens-before edge of its own to what the race
// detector sees: only a task's submission is ordered before its execution, as in the real runtime.
#pragma once
#include <cstddef>
#include <cstdint>
#include <mpi.h>

namespace vks {
using fn_t = void (*)(void*);

enum policy : int { RANDOM = 0, LIFO = 1, FIFO = 2, STARVE = 3, REVERSE_PRIO = 4, PRIO = 5, n_policies = 6 };

void submit(fn_t fn, void* arg, int prio);
void mpi_register(MPI_Request req, fn_t fn, void* arg);
// around anything that blocks the calling thread: another worker takes its place meanwhile
void block_begin();
void block_end();
// one waiting slot per blocked thread
void park(const int* flag);       // returns when *flag != 0
void unpark(int* flag);           // sets *flag and wakes

void start(int nthreads);         // starts the workers
void stop();
bool running();
bool suspended();
void wait_idle();                 // no task queued or executing, no MPI request in flight
void suspend();
void resume();
int num_threads();
void start_polling();
void stop_polling();
bool polling();
bool on_worker();

// injected behaviour
void set_policy(int policy, std::uint64_t seed);
void set_delay(unsigned per_mille, unsigned max_us);  // delay before a task with this probability
void set_mpi_delay(unsigned per_mille, unsigned max_polls);
bool post_later();  // whether the next communication is to be posted by a task of its own (chosen with the policy)

struct stats {
  std::uint64_t submitted, executed, mpi_registered, mpi_completed, max_queue, max_running, blocks, mpi_out_of_order, mpi_posted_later;
  std::uint64_t order_hash;  // of the order in which submitted tasks were executed
  std::uint64_t reordered;   // tasks that overtook an earlier submitted one
};
stats get_stats();
void reset_order();

// accounts of the memory stand-in
void* account_make();
void account_add(void*, void* p, std::size_t n);
bool account_remove(void*, void* p, std::size_t* n);
bool account_find(void*, const void* p, void** base, std::size_t* n);
std::uint64_t account_count(void*, int what);  // 0 allocations, 1 releases, 2 live allocations, 3 live bytes
void fatal(const char* kind, const char* msg);
}
