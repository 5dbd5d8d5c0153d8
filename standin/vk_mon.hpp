// Monitors below the library: footprints of the BLAS/LAPACK calls and MPI transfers it makes, and conservation of messages,
// datatypes and communicators. Implemented in an uninstrumented unit (vk_mon.cpp) that orders nothing.
#pragma once
#include <cstdint>
namespace vkm {
enum what { SENDS, RECVS, COLLECTIVES, LIVE_TYPES, LIVE_COMMS, BLAS_CALLS, RANGES, N_WHAT };
std::int64_t get(int what);
}
