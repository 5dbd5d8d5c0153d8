// PMPI interposition: conservation of MPI datatypes and communicators, validity of what is used.
// Include in exactly one translation unit of a harness.
#pragma once
#include <mpi.h>

#include <map>
#include <mutex>
#include <set>
#include <string>

#include <vk.hpp>

namespace mpimon {
struct TypeInfo {
  bool committed = false;
  std::string how;
};
struct State {
  std::mutex m;
  std::map<MPI_Datatype, TypeInfo> types;
  std::map<MPI_Comm, std::string> comms;
  long types_made = 0, types_freed = 0, comms_made = 0, comms_freed = 0;
  bool probing_child = false;  // in a forked probe: MPI calls with outside effects end the child
};
inline State& st() {
  static State* s = new State();
  return *s;
}
inline int made_type(int rc, MPI_Datatype* t, const char* how) {
  if (rc == MPI_SUCCESS) {
    std::lock_guard<std::mutex> l(st().m);
    st().types[*t] = TypeInfo{false, how};
    ++st().types_made;
  }
  return rc;
}
inline int made_comm(int rc, MPI_Comm* c, const char* how) {
  if (rc == MPI_SUCCESS && *c != MPI_COMM_NULL) {
    std::lock_guard<std::mutex> l(st().m);
    st().comms[*c] = how;
    ++st().comms_made;
  }
  return rc;
}
inline std::size_t live_types() {
  std::lock_guard<std::mutex> l(st().m);
  return st().types.size();
}
inline std::size_t live_comms() {
  std::lock_guard<std::mutex> l(st().m);
  return st().comms.size();
}
inline bool is_live(MPI_Comm c) {
  std::lock_guard<std::mutex> l(st().m);
  return st().comms.count(c) > 0;
}
// usable in a transfer: predefined, or created here, committed and not freed
inline bool usable(MPI_Datatype t) {
  if (t == MPI_DATATYPE_NULL)
    return false;
  {
    std::lock_guard<std::mutex> l(st().m);
    auto it = st().types.find(t);
    if (it != st().types.end())
      return it->second.committed;
  }
  int ni, na, nd, comb = -1;
  PMPI_Type_get_envelope(t, &ni, &na, &nd, &comb);
  return comb == MPI_COMBINER_NAMED;
}
template <class F>
vk::Outcome probe(F&& f) {
  return vk::run_forked([&]() {
    st().probing_child = true;
    f();
  });
}
}

extern "C" {
int MPI_Type_vector(int a, int b, int c, MPI_Datatype o, MPI_Datatype* n) {
  return mpimon::made_type(PMPI_Type_vector(a, b, c, o, n), n, "vector");
}
int MPI_Type_create_hvector(int a, int b, MPI_Aint c, MPI_Datatype o, MPI_Datatype* n) {
  return mpimon::made_type(PMPI_Type_create_hvector(a, b, c, o, n), n, "hvector");
}
int MPI_Type_contiguous(int a, MPI_Datatype o, MPI_Datatype* n) {
  return mpimon::made_type(PMPI_Type_contiguous(a, o, n), n, "contiguous");
}
int MPI_Type_create_subarray(int nd, const int* s, const int* ss, const int* st, int order, MPI_Datatype o, MPI_Datatype* n) {
  return mpimon::made_type(PMPI_Type_create_subarray(nd, s, ss, st, order, o, n), n, "subarray");
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ex, MPI_Datatype* n) {
  return mpimon::made_type(PMPI_Type_create_resized(o, lb, ex, n), n, "resized");
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* n) {
  return mpimon::made_type(PMPI_Type_dup(o, n), n, "dup");
}
int MPI_Type_commit(MPI_Datatype* t) {
  int rc = PMPI_Type_commit(t);
  std::lock_guard<std::mutex> l(mpimon::st().m);
  auto it = mpimon::st().types.find(*t);
  if (it != mpimon::st().types.end())
    it->second.committed = true;
  return rc;
}
int MPI_Type_free(MPI_Datatype* t) {
  bool known = false;
  {
    std::lock_guard<std::mutex> l(mpimon::st().m);
    known = mpimon::st().types.erase(*t) == 1;
    ++mpimon::st().types_freed;
  }
  if (!known) {
    vk::violation("type-free", "MPI_Type_free of a type which is not alive (freed twice or not owned)");
    *t = MPI_DATATYPE_NULL;
    return MPI_SUCCESS;
  }
  return PMPI_Type_free(t);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
  if (mpimon::st().probing_child)
    _exit(79);
  return mpimon::made_comm(PMPI_Comm_dup(c, n), n, "dup");
}
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* n) {
  if (mpimon::st().probing_child)
    _exit(79);
  return mpimon::made_comm(PMPI_Comm_split(c, col, key, n), n, "split");
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* n) {
  return mpimon::made_comm(PMPI_Comm_create(c, g, n), n, "create");
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm* n) {
  return mpimon::made_comm(PMPI_Comm_create_group(c, g, tag, n), n, "create_group");
}
int MPI_Comm_free(MPI_Comm* c) {
  if (mpimon::st().probing_child)
    _exit(79);
  bool known = false;
  {
    std::lock_guard<std::mutex> l(mpimon::st().m);
    known = mpimon::st().comms.erase(*c) == 1;
    ++mpimon::st().comms_freed;
  }
  if (!known) {
    vk::violation("comm-free", "MPI_Comm_free of a communicator which is not alive (freed twice or not owned)");
    *c = MPI_COMM_NULL;
    return MPI_SUCCESS;
  }
  return PMPI_Comm_free(c);
}
int MPI_Abort(MPI_Comm c, int code) {
  if (mpimon::st().probing_child)
    _exit(80);
  return PMPI_Abort(c, code);
}
}
