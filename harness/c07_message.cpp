// C07: MPI messages transfer exactly the described elements; MPI types are freed exactly once.
#include <algorithm>
#include <complex>
#include <memory>
#include <optional>
#include <vector>

#include <mpi_monitor.hpp>

#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/message.h>

using namespace dlaf;
using namespace dlaf::common;
using vk::cat;

int me, np;

template <class T>
T stamp(std::uint64_t k) {
  if constexpr (std::is_same_v<T, bool>)
    return (k * 2654435761u >> 7) & 1;
  else if constexpr (std::is_same_v<T, std::complex<float>> || std::is_same_v<T, std::complex<double>>)
    return T(static_cast<typename T::value_type>(k % 4096), -static_cast<typename T::value_type>(k % 1009));
  else
    return static_cast<T>(k * 37 + 11);
}

struct Shape {
  SizeType nb, bs, st;
  bool contig() const { return nb == 1 || st == bs; }
  SizeType count() const { return nb * bs; }
  SizeType span() const { return (nb - 1) * st + bs; }
  SizeType at(SizeType k) const { return nb == 1 ? k : k / bs * st + k % bs; }
  std::string str() const { return cat(nb, "x", bs, "/", st); }
};
Shape gen_shape(vk::Rng& r, SizeType count) {
  std::vector<SizeType> div;
  for (SizeType d = 1; d <= count; ++d)
    if (count % d == 0)
      div.push_back(d);
  SizeType nb = r.pick(div);
  SizeType bs = count / nb;
  return {nb, bs, nb == 1 ? 0 : bs + (r.chance(1, 4) ? 0 : r.range(1, 6))};
}

// std::vector<bool> is no array of bool
template <class T>
struct Mem {
  std::unique_ptr<T[]> p;
  SizeType n;
  std::vector<unsigned char> snap;
  Mem(SizeType k, std::uint64_t base) : p(new T[static_cast<std::size_t>(k)]), n(k) {
    for (SizeType i = 0; i < n; ++i)
      p[static_cast<std::size_t>(i)] = stamp<T>(base + static_cast<std::uint64_t>(i));
  }
};

template <class T>
void transfer(vk::Rng& r, const char* name) {
  SizeType count = r.chance(1, 2) ? r.range(1, 12) : r.range(1, 200);
  if (r.chance(1, 25))
    count = r.range(2000, 6000);  // rendezvous protocol
  Shape ss = gen_shape(r, count), sd = gen_shape(r, count);
  bool to_self = r.chance(1, 3) || np == 1;
  bool cst = r.chance(1, 2);
  vk::case_begin(cat("transfer ", name, " ", ss.str(), " -> ", sd.str(), to_self ? " self" : " other", cst ? " const source" : ""));
  vk::nontrivial_current();
  std::size_t live0 = mpimon::live_types();
  std::uint64_t sender = static_cast<std::uint64_t>(to_self ? me : (me + np - 1) % np);
  std::uint64_t base = 1000 * (vk::seed() + static_cast<std::uint64_t>(count));
  Mem<T> a(ss.span() + 4, base + 7777 * static_cast<std::uint64_t>(me));
  Mem<T> b(sd.span() + 6, 3), ref(sd.span() + 6, 3), exp(ss.span() + 4, base + 7777 * sender);
  {
    DataDescriptor<T> src(a.p.get() + 2, ss.nb, ss.bs, ss.st), dst(b.p.get() + 3, sd.nb, sd.bs, sd.st);
    auto dm = comm::make_message(dst);
    auto check_msg = [&](auto& m, auto* p, const Shape& s, const char* w) {
      VK_CHECK(m.data() == p, "describe", w, " pointer");
      VK_CHECK(mpimon::usable(m.mpi_type()), "type-usable", w, " type not committed or not alive");
      int sz = 0;
      MPI_Type_size(m.mpi_type(), &sz);
      VK_EQ(SizeType(sz) * m.count(), s.count() * SizeType(sizeof(T)), "describe", w, " bytes");
      if (s.contig()) {
        VK_EQ(SizeType(m.count()), s.count(), "describe", w, " count");
        VK_CHECK(m.mpi_type() == comm::mpi_datatype<T>::type, "describe", w, " type of contiguous data");
      }
    };
    check_msg(dm, b.p.get() + 3, sd, "destination");
    int to = to_self ? me : (me + 1) % np, from = static_cast<int>(sender);
    MPI_Request rq;
    MPI_Irecv(dm.data(), dm.count(), dm.mpi_type(), from, 5, MPI_COMM_WORLD, &rq);
    MPI_Status stt;
    if (cst) {
      DataDescriptor<const T> csrc(src);
      auto sm = comm::make_message(csrc);
      check_msg(sm, static_cast<const T*>(a.p.get() + 2), ss, "const source");
      MPI_Send(sm.data(), sm.count(), sm.mpi_type(), to, 5, MPI_COMM_WORLD);
      MPI_Wait(&rq, &stt);
    }
    else {
      auto sm0 = comm::make_message(make_data(a.p.get() + 2, ss.nb, ss.bs, ss.st));
      auto sm = std::move(sm0);
      check_msg(sm, a.p.get() + 2, ss, "source");
      MPI_Send(sm.data(), sm.count(), sm.mpi_type(), to, 5, MPI_COMM_WORLD);
      MPI_Wait(&rq, &stt);
    }
  }
  VK_EQ(mpimon::live_types(), live0, "type-conservation", "after a transfer");
  for (SizeType k = 0; k < count; ++k)
    ref.p[static_cast<std::size_t>(3 + sd.at(k))] = exp.p[static_cast<std::size_t>(2 + ss.at(k))];
  for (SizeType i = 0; i < b.n; ++i)
    if (!(b.p[static_cast<std::size_t>(i)] == ref.p[static_cast<std::size_t>(i)])) {
      bool inside = i >= 3 && i < 3 + sd.span() && (sd.contig() || (i - 3) % sd.st < sd.bs);
      vk::violation(inside ? "transfer-element" : "transfer-outside", cat("position ", i - 3));
      break;
    }
  vk::count("transfers");
}

// random histories of message objects
template <class T>
void history(vk::Rng& r, const char* name) {
  using Msg = comm::Message<DataDescriptor<T>>;
  constexpr int slots = 5;
  Shape shapes[6];
  for (auto& s : shapes)
    s = gen_shape(r, r.range(2, 40));
  shapes[0] = {3, 2, 5};
  shapes[1] = {1, 6, 0};
  std::vector<std::unique_ptr<T[]>> mem;
  for (auto& s : shapes)
    mem.emplace_back(new T[static_cast<std::size_t>(s.span())]);
  std::size_t live0 = mpimon::live_types();
  std::string trace;
  // the messages left at the end go at the end of the scope or while an exception leaves it
  const bool unwind = r.chance(1, 3);
  try {
    std::optional<Msg> m[slots];
    int model[slots];  // shape index, -1 moved-from or empty
    std::fill(model, model + slots, -1);
    int n = r.irange(4, 14);
    vk::case_begin(cat("message history ", name));
    for (int k = 0; k < n; ++k) {
      int a = r.irange(0, slots - 1), b = r.irange(0, slots - 1);
      switch (r.irange(0, 5)) {
        case 0:
        case 1: {
          int s = r.irange(0, 5);
          m[a].reset();
          m[a].emplace(DataDescriptor<T>(mem[static_cast<std::size_t>(s)].get(), shapes[s].nb, shapes[s].bs, shapes[s].st));
          model[a] = s;
          trace += cat(" new", a, "=", shapes[s].str());
          break;
        }
        case 2:
          if (a != b && m[b] && model[b] >= 0) {
            m[a].reset();
            m[a].emplace(std::move(*m[b]));
            model[a] = model[b];
            model[b] = -1;
            trace += cat(" ctor", a, "<-", b);
          }
          break;
        case 3:
        case 4:
          if (a != b && m[a] && m[b] && model[b] >= 0) {
            *m[a] = std::move(*m[b]);
            model[a] = model[b];
            model[b] = -1;
            trace += cat(" assign", a, "<-", b);
          }
          break;
        default:
          m[a].reset();
          model[a] = -1;
          trace += cat(" del", a);
      }
      vk::Ctx::get().current = cat("message history ", name, ":", trace);
      for (int s = 0; s < slots; ++s)
        if (m[s] && model[s] >= 0) {
          const Shape& sh = shapes[model[s]];
          VK_CHECK(m[s]->data() == mem[static_cast<std::size_t>(model[s])].get(), "history-data", "slot ", s);
          VK_CHECK(mpimon::usable(m[s]->mpi_type()), "type-usable", "slot ", s);
          if (mpimon::usable(m[s]->mpi_type())) {
            int sz = 0;
            MPI_Aint lb, ext, tlb, text;
            MPI_Type_size(m[s]->mpi_type(), &sz);
            MPI_Type_get_extent(m[s]->mpi_type(), &lb, &ext);
            MPI_Type_get_true_extent(m[s]->mpi_type(), &tlb, &text);
            VK_EQ(SizeType(sz) * m[s]->count(), sh.count() * SizeType(sizeof(T)), "history-type", "slot ", s);
            if (!sh.contig())
              VK_EQ(SizeType(text), sh.span() * SizeType(sizeof(T)), "history-type", "extent, slot ", s);
          }
        }
      vk::count("history steps");
    }
    vk::nontrivial(cat(name, trace));
    if (unwind)
      throw 1;
  }
  catch (int) {
    trace += " exception";
    vk::count("histories left by an exception");
  }
  VK_EQ(mpimon::live_types(), live0, "type-conservation", "types alive after all messages are gone:", trace);
  // forget what leaked, so that every history is judged on its own
  std::lock_guard<std::mutex> l(mpimon::st().m);
  mpimon::st().types.clear();
}

// the element type behaves as the C++ type under reductions
template <class T>
void element_type(vk::Rng& r, const char* name) {
  vk::case_begin(cat("element type ", name));
  vk::nontrivial_current();
  MPI_Datatype t = comm::mpi_datatype<T>::type;
  VK_CHECK(t == comm::mpi_datatype<const T>::type, "element-type", "const ", name);
  VK_CHECK(t != MPI_DATATYPE_NULL && mpimon::usable(t), "element-type", name, " not a basic type");
  int sz = 0;
  MPI_Type_size(t, &sz);
  VK_EQ(sz, int(sizeof(T)), "element-type", name);
  if constexpr (!std::is_same_v<T, char>) {
    for (int k = 0; k < 30; ++k) {
      T a = stamp<T>(r.u64() >> 3), b = stamp<T>(r.u64() >> 3);
      if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) {
        a = static_cast<T>(r.u64());
        b = static_cast<T>(r.u64());
        T m = b;
        MPI_Reduce_local(&a, &m, 1, t, MPI_MAX);
        VK_CHECK(m == std::max(a, b), "element-type", name, " max of ", a, " ", b, " gave ", m);
        m = b;
        MPI_Reduce_local(&a, &m, 1, t, MPI_MIN);
        VK_CHECK(m == std::min(a, b), "element-type", name, " min");
        m = b;
        MPI_Reduce_local(&a, &m, 1, t, MPI_BXOR);
        VK_CHECK(m == static_cast<T>(a ^ b), "element-type", name, " xor");
      }
      else if constexpr (std::is_same_v<T, bool>) {
        T m = b;
        MPI_Reduce_local(&a, &m, 1, t, MPI_LAND);
        VK_CHECK(m == (a && b), "element-type", name, " and");
        m = b;
        MPI_Reduce_local(&a, &m, 1, t, MPI_LXOR);
        VK_CHECK(m == (a != b), "element-type", name, " xor");
      }
      else {
        T m = b;
        MPI_Reduce_local(&a, &m, 1, t, MPI_SUM);
        VK_CHECK(m == a + b, "element-type", name, " sum");
        if constexpr (std::is_floating_point_v<T>) {
          a = static_cast<T>(r.real() * 1e6);
          b = static_cast<T>(r.real() * 1e6);
          m = b;
          MPI_Reduce_local(&a, &m, 1, t, MPI_MAX);
          VK_CHECK(m == std::max(a, b), "element-type", name, " max");
        }
        else {
          T c(2, 3), d(5, -7), e = d;
          MPI_Reduce_local(&c, &e, 1, t, MPI_PROD);
          VK_CHECK(e == T(31, 1), "element-type", name, " complex product");
        }
      }
      vk::count("local reductions");
    }
  }
}

template <class T>
void all(vk::Rng& r, const char* name, int nt, int nh) {
  element_type<T>(r, name);
  for (int k = 0; k < nt; ++k)
    transfer<T>(r, name);
  for (int k = 0; k < nh; ++k)
    history<T>(r, name);
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &me);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  auto r = vk::rng("c07");  // same choices on every rank
  int nt = vk::scale(60, 1500), nh = vk::scale(25, 600);
  all<char>(r, "char", nt, nh);
  all<short>(r, "short", nt, nh);
  all<int>(r, "int", nt, nh);
  all<long>(r, "long", nt, nh);
  all<long long>(r, "long long", nt, nh);
  all<unsigned char>(r, "unsigned char", nt, nh);
  all<unsigned short>(r, "unsigned short", nt, nh);
  all<unsigned>(r, "unsigned", nt, nh);
  all<unsigned long>(r, "unsigned long", nt, nh);
  all<unsigned long long>(r, "unsigned long long", nt, nh);
  all<float>(r, "float", nt, nh);
  all<double>(r, "double", nt, nh);
  all<bool>(r, "bool", nt, nh);
  all<std::complex<float>>(r, "complex<float>", nt, nh);
  all<std::complex<double>>(r, "complex<double>", nt, nh);

  // sizes beyond MPI's count type
  if (me == 0) {
    const SizeType big = SizeType(1) << 31;
    static char c[64];
    struct S {
      SizeType nb, bs, st;
    };
    for (S s : {S{1, big, 0}, S{1, big + 5, 0}, S{1, (SizeType(1) << 32) + 3, 0}, S{3, big, big + 4}, S{2, (SizeType(1) << 32) + 2, SizeType(1) << 34},
                S{2, 3, big}, S{2, 3, (SizeType(1) << 32) + 7}, S{big, 1, 2}, S{(SizeType(1) << 32) + 2, 1, 2}}) {
      vk::case_begin(cat("oversized message ", s.nb, "x", s.bs, "/", s.st));
      vk::nontrivial_current();
      auto o = mpimon::probe([&]() {
        auto m = comm::make_message(DataDescriptor<char>(c, s.nb, s.bs, s.st));
        volatile int k = m.count();
        (void) k;
      });
      VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", vk::outcome_name(o));
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vk::count("MPI types created", static_cast<std::uint64_t>(mpimon::st().types_made));
  int rc = vk::finish();
  MPI_Finalize();
  return rc;
}
