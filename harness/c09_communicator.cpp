// C09: communicator handles: shared identity, isolation of clones, conservation of owned MPI communicators.
#include <algorithm>
#include <memory>
#include <vector>

#include <mpi_monitor.hpp>

#include <dlaf/communication/communicator.h>

using dlaf::comm::Communicator;
using dlaf::comm::make_communicator_managed;
using vk::cat;

int world_rank, np;

// The model: every slot refers to an "entity" (an MPI communicator known to the harness).
struct Entity {
  MPI_Comm handle;
  bool owned;  // freed with the last copy
  int rank, size;
  int copies = 0;
  int id;
};
struct Slot {
  std::unique_ptr<Communicator> c;
  std::shared_ptr<Entity> e;
};

void attach(Slot& s, std::shared_ptr<Entity> e) {
  s.e = std::move(e);
  if (s.e)
    ++s.e->copies;
}
// returns true if that was the last copy
void detach(Slot& s) {
  if (s.e)
    --s.e->copies;
  s.e.reset();
}

void check(const Slot& s, const char* what) {
  if (!s.c || !s.e)
    return;
  const Communicator& c = *s.c;
  MPI_Comm raw = c;
  VK_CHECK(raw == s.e->handle, "handle-identity", what, ": a copy denotes another MPI communicator");
  VK_CHECK(*(&*s.c) == s.e->handle && *(&c) == s.e->handle, "handle-pointer", what);
  VK_EQ(c.rank(), s.e->rank, "rank", what);
  VK_EQ(c.size(), s.e->size, "size", what);
  if (s.e->owned) {
    if (!mpimon::is_live(raw)) {
      vk::violation("freed-early", cat(what, ": freed although ", s.e->copies, " handle(s) exist"));
      return;
    }
  }
  // usable
  int r = -1, n = -1;
  PMPI_Comm_rank(raw, &r);
  PMPI_Comm_size(raw, &n);
  VK_EQ(r, s.e->rank, "rank", what);
  VK_EQ(n, s.e->size, "size", what);
  vk::count("handles checked");
}

// A message sent on b is not received on a, in both directions of choice.
void isolation(MPI_Comm a, MPI_Comm b, int rank, int size, vk::Rng& r) {
  int from = r.irange(0, size - 1), to = r.irange(0, size - 1);
  int tag = r.irange(0, 5), salt = r.irange(0, 1 << 20);
  std::vector<MPI_Request> reqs;
  int va = 2 * salt, vb = 2 * salt + 1, ga = -1, gb = -1;
  if (rank == from) {
    reqs.resize(2);
    PMPI_Isend(&vb, 1, MPI_INT, to, tag, b, &reqs[0]);
    PMPI_Isend(&va, 1, MPI_INT, to, tag, a, &reqs[1]);
  }
  if (rank == to) {
    MPI_Status st;
    PMPI_Recv(&ga, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, a, &st);
    VK_EQ(ga, va, "isolation", "received on the original what was sent on the clone, or the reverse");
    PMPI_Recv(&gb, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, b, &st);
    VK_EQ(gb, vb, "isolation", "received on the clone what was sent on the original, or the reverse");
    vk::count("isolation messages", 2);
  }
  if (!reqs.empty())
    PMPI_Waitall(2, reqs.data(), MPI_STATUSES_IGNORE);
}

void histories(vk::Rng& r, int n_hist) {
  int next_id = 0;
  for (int h = 0; h < n_hist; ++h) {
    // the communicator this history lives on: a subset of the ranks, possibly reordered
    std::uint64_t hseed = r.u64();
    vk::Rng q(hseed);
    int s = q.irange(1, np);
    bool rev = q.chance(1, 2);
    bool in = world_rank < s;
    MPI_Comm base;
    PMPI_Comm_split(MPI_COMM_WORLD, in ? 1 : MPI_UNDEFINED, rev ? -world_rank : world_rank, &base);
    if (!in)
      continue;
    int rank, size;
    PMPI_Comm_rank(base, &rank);
    PMPI_Comm_size(base, &size);
    const std::size_t live0 = mpimon::live_comms();
    const int S = 6;
    std::string trace;
    {
      std::vector<Slot> slots(S);
      auto wrapped = std::make_shared<Entity>(Entity{base, false, rank, size, 0, next_id++});
      std::vector<std::shared_ptr<Entity>> owned;
      auto live_owned = [&]() {
        std::size_t k = 0;
        for (auto& e : owned)
          k += e->copies > 0;
        return k;
      };
      int steps = q.irange(5, 30);
      for (int st = 0; st < steps; ++st) {
        int op = q.irange(0, 9);
        int a = q.irange(0, S - 1), b = q.irange(0, S - 1);
        Slot &x = slots[std::size_t(a)], &y = slots[std::size_t(b)];
        trace += cat(" ", op, ":", a, ",", b);
        vk::case_begin(cat("ranks ", size, rev ? " reversed" : "", " history", trace));
        switch (op) {
          case 0: {  // wrap
            detach(x);
            x.c.reset();
            x.c = std::make_unique<Communicator>(base);
            attach(x, wrapped);
            break;
          }
          case 1: {  // take ownership of a communicator made by the caller
            MPI_Comm raw;
            bool reorder = q.chance(1, 2);
            MPI_Comm_split(base, 0, reorder ? -rank : rank, &raw);
            int rr, ss;
            PMPI_Comm_rank(raw, &rr);
            PMPI_Comm_size(raw, &ss);
            auto e = std::make_shared<Entity>(Entity{raw, true, rr, ss, 0, next_id++});
            owned.push_back(e);
            detach(x);
            x.c.reset();
            x.c = std::make_unique<Communicator>(make_communicator_managed(raw));
            attach(x, e);
            break;
          }
          case 2:
          case 3: {  // clone
            if (!x.c || !x.e)
              break;
            auto src = x.e;
            Communicator cl = x.c->clone();
            auto e = std::make_shared<Entity>(Entity{MPI_Comm(cl), true, src->rank, src->size, 0, next_id++});
            owned.push_back(e);
            VK_EQ(cl.rank(), src->rank, "rank", "clone");
            VK_EQ(cl.size(), src->size, "size", "clone");
            VK_CHECK(mpimon::is_live(cl), "clone-owned", "the clone is not a new communicator");
            int cmp = -1;
            PMPI_Comm_compare(src->handle, cl, &cmp);
            VK_CHECK(cmp == MPI_CONGRUENT, "clone-independent", "MPI_Comm_compare gives ", cmp, " expected congruent");
            if (cmp == MPI_CONGRUENT)
              isolation(src->handle, cl, src->rank, src->size, q);
            detach(y);
            if (y.c && q.chance(1, 2))
              *y.c = std::move(cl);
            else {
              y.c.reset();
              y.c = std::make_unique<Communicator>(std::move(cl));
            }
            attach(y, e);
            vk::count("clones");
            break;
          }
          case 4: {  // copy construction
            if (!x.c || !x.e || a == b)
              break;
            auto e = x.e;
            auto n = std::make_unique<Communicator>(*x.c);
            ++e->copies;
            detach(y);
            y.c = std::move(n);
            y.e = e;
            vk::count("copies");
            break;
          }
          case 5: {  // copy assignment (self assignment included)
            if (!x.c || !y.c || !x.e)
              break;
            auto e = x.e;
            ++e->copies;
            detach(y);
            y.e = e;
            *y.c = *x.c;
            vk::count("copy assignments");
            break;
          }
          case 6: {  // move construction
            if (!x.c || !x.e || a == b)
              break;
            detach(y);
            y.c.reset();
            y.c = std::make_unique<Communicator>(std::move(*x.c));
            y.e = std::move(x.e);
            x.c.reset();  // a moved-from handle may only be destroyed or assigned to
            vk::count("moves");
            break;
          }
          case 7: {  // move assignment
            if (!x.c || !x.e || !y.c || a == b)
              break;
            detach(y);
            *y.c = std::move(*x.c);
            y.e = std::move(x.e);
            if (q.chance(1, 2))
              x.c.reset();
            else {
              *x.c = *y.c;  // assign to the moved-from handle
              attach(x, y.e);
            }
            vk::count("move assignments");
            break;
          }
          default: {  // destruction
            detach(x);
            x.c.reset();
          }
        }
        for (auto& z : slots)
          check(z, "after a step");
        VK_EQ(mpimon::live_comms(), live0 + live_owned(), "comm-conservation", "owned communicators alive");
        vk::count("history steps");
        // two handles agree exactly when the model says so
        for (int i = 0; i < S; ++i)
          for (int j = 0; j < i; ++j) {
            auto &u = slots[std::size_t(i)], &v = slots[std::size_t(j)];
            if (u.e && v.e)
              VK_EQ(MPI_Comm(*u.c) == MPI_Comm(*v.c), u.e == v.e, "handle-identity", "");
            if (u.e && v.e) {  // pointers to both handles, held at the same time
              const MPI_Comm *a = &std::as_const(*u.c), *b = &std::as_const(*v.c);
              MPI_Comm *c = &*u.c, *d = &*v.c;
              VK_CHECK(*a == u.e->handle && *b == v.e->handle && *c == u.e->handle && *d == v.e->handle, "handle-pointer", "two pointers at once");
            }
          }
      }
      vk::nontrivial(cat(size, rev, trace));
      for (auto& z : slots)
        detach(z);
    }
    VK_EQ(mpimon::live_comms(), live0, "comm-conservation", "after the last handle is gone");
    // the wrapped communicator survives
    int sum = 0, one = 1;
    PMPI_Allreduce(&one, &sum, 1, MPI_INT, MPI_SUM, base);
    VK_EQ(sum, size, "wrapped-usable", "");
    PMPI_Comm_free(&base);
    vk::count("histories");
  }
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  auto r = vk::rng("c09");
  {
    vk::case_begin("world and self wrapped");
    Communicator w(MPI_COMM_WORLD), s(MPI_COMM_SELF);
    VK_EQ(w.rank(), world_rank, "rank", "world");
    VK_EQ(w.size(), np, "size", "world");
    VK_EQ(s.rank(), 0, "rank", "self");
    VK_EQ(s.size(), 1, "size", "self");
    // a single handle cloned many times
    std::vector<Communicator> v;
    for (int k = 0; k < 20; ++k)
      v.push_back((k ? v.back() : w).clone());
    VK_EQ(mpimon::live_comms(), std::size_t(20), "comm-conservation", "");
    for (int k = 0; k < 20; ++k)
      for (int j = 0; j < k; ++j)
        VK_CHECK(MPI_Comm(v[std::size_t(k)]) != MPI_Comm(v[std::size_t(j)]), "clone-independent", "two clones share a communicator");
    isolation(w, v.back(), world_rank, np, r);
    isolation(v[3], v[17], world_rank, np, r);
    v.clear();
    VK_EQ(mpimon::live_comms(), std::size_t(0), "comm-conservation", "");
  }
  histories(r, vk::scale(400, 6000));
  // fail-stop: forked children without effects on the real MPI job
  struct P {
    const char* name;
    vk::Outcome want;
    void (*f)();
  };
  MPI_Barrier(MPI_COMM_WORLD);
  const P probes[] = {
      {"wrap the null communicator", vk::Outcome::Terminated, []() { Communicator c(MPI_COMM_NULL); }},
      {"own the null communicator", vk::Outcome::Terminated, []() { auto c = make_communicator_managed(MPI_COMM_NULL); }},
      {"own the world communicator", vk::Outcome::Terminated, []() { auto c = make_communicator_managed(MPI_COMM_WORLD); }},
      {"wrap the world communicator", vk::Outcome::Returned, []() { Communicator c(MPI_COMM_WORLD); }},
      {"wrap the self communicator", vk::Outcome::Returned, []() { Communicator c(MPI_COMM_SELF); }},
      {"default handle", vk::Outcome::Returned, []() { Communicator c; if (MPI_Comm(c) != MPI_COMM_NULL) throw 1; }},
  };
  for (auto& p : probes) {
    vk::case_begin(p.name);
    auto o = mpimon::probe(p.f);
    VK_CHECK(o == p.want, "fail-stop", p.name, ": ", vk::outcome_name(o), ", expected ", vk::outcome_name(p.want));
    vk::nontrivial_current();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  int rc = vk::finish();
  MPI_Finalize();
  return rc;
}
