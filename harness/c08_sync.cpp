// C08: blocking point-to-point transfers and (all-)reductions give exact results and touch nothing else.
#include <algorithm>
#include <complex>
#include <memory>
#include <numeric>
#include <vector>

#include <unistd.h>

#include <mpi_monitor.hpp>

#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/broadcast.h>
#include <dlaf/communication/sync/reduce.h>

using namespace dlaf;
using namespace dlaf::common;
using vk::cat;

struct Shape {
  SizeType nb, bs, st;
  bool contig() const { return nb == 1 || st == bs; }
  SizeType count() const { return nb * bs; }
  SizeType span() const { return (nb - 1) * st + bs; }
  SizeType at(SizeType k) const { return nb == 1 ? k : k / bs * st + k % bs; }
  std::string str() const { return cat(nb, "x", bs, "/", st); }
};
Shape gen_shape(vk::Rng& r, SizeType count) {
  std::vector<SizeType> div;
  for (SizeType d = 1; d <= count; ++d)
    if (count % d == 0)
      div.push_back(d);
  SizeType nb = r.pick(div);
  SizeType bs = count / nb;
  return {nb, bs, nb == 1 ? 0 : bs + (r.chance(1, 4) ? 0 : r.range(1, 6))};
}

// exact small values, so that any summation order gives the same result
template <class T>
T value(std::uint64_t salt, int rank, SizeType k) {
  std::uint64_t s = salt * 1000003u + static_cast<std::uint64_t>(rank) * 7919u + static_cast<std::uint64_t>(k) * 104729u;
  std::uint64_t h = vk::splitmix(s);
  if constexpr (std::is_same_v<T, bool>)
    return h & 1;
  else if constexpr (std::is_same_v<T, std::complex<float>> || std::is_same_v<T, std::complex<double>>)
    return T(static_cast<typename T::value_type>(int(h % 9) - 4), static_cast<typename T::value_type>(int(h / 16 % 9) - 4));
  else if constexpr (std::is_floating_point_v<T>)
    return static_cast<T>(int(h % 9) - 4);
  else if constexpr (std::is_signed_v<T>)
    return static_cast<T>(int(h % 9) - 4);
  else if constexpr (sizeof(T) < 4)  // sums must not overflow: this MPI adds narrow integers with saturation
    return static_cast<T>(h % 41);
  else  // unsigned: half of the values beyond the signed range
    return static_cast<T>(h % 4 + (h & 64 ? (std::numeric_limits<T>::max() / 2 + 3) : 0));
}

template <class T>
struct Mem {
  std::unique_ptr<T[]> p, ref;
  SizeType n, off;
  Mem(const Shape& s, SizeType pre, SizeType post) : n(pre + s.span() + post), off(pre) {
    p.reset(new T[static_cast<std::size_t>(n)]);
    ref.reset(new T[static_cast<std::size_t>(n)]);
    for (SizeType i = 0; i < n; ++i)
      p[u(i)] = ref[u(i)] = value<T>(424242, 99, i);
  }
  static std::size_t u(SizeType i) { return static_cast<std::size_t>(i); }
  T* ptr() { return p.get() + off; }
  void put(const Shape& s, std::uint64_t salt, int rank) {
    for (SizeType k = 0; k < s.count(); ++k)
      p[u(off + s.at(k))] = ref[u(off + s.at(k))] = value<T>(salt, rank, k);
  }
  bool compare(const Shape& s, const char* what, const char* key_in, const char* key_out) {
    for (SizeType i = 0; i < n; ++i)
      if (!(p[u(i)] == ref[u(i)])) {
        SizeType j = i - off;
        bool inside = j >= 0 && j < s.span() && (s.nb == 1 || j % s.st < s.bs);
        vk::violation(inside ? key_in : key_out, cat(what, " position ", j, " : ", p[u(i)], " expected ", ref[u(i)]));
        return false;
      }
    return true;
  }
};

struct OpDesc {
  MPI_Op op;
  const char* name;
};
template <class T>
std::vector<OpDesc> ops() {
  if constexpr (std::is_same_v<T, bool>)
    return {{MPI_LAND, "land"}, {MPI_LOR, "lor"}};
  else if constexpr (std::is_same_v<T, std::complex<float>> || std::is_same_v<T, std::complex<double>>)
    return {{MPI_SUM, "sum"}, {MPI_PROD, "prod"}};
  else if constexpr (std::is_floating_point_v<T>)
    return {{MPI_SUM, "sum"}, {MPI_MAX, "max"}, {MPI_MIN, "min"}, {MPI_PROD, "prod"}};
  else
    return {{MPI_SUM, "sum"}, {MPI_MAX, "max"}, {MPI_MIN, "min"}, {MPI_BXOR, "bxor"}};
}
template <class T>
T apply(const char* op, T a, T b) {
  std::string o(op);
  if constexpr (std::is_same_v<T, bool>)
    return o == "land" ? (a && b) : (a || b);
  else {
    if (o == "sum")
      return static_cast<T>(a + b);
    if (o == "prod")
      return static_cast<T>(a * b);
    if constexpr (std::is_arithmetic_v<T>) {
      if (o == "max")
        return std::max(a, b);
      if (o == "min")
        return std::min(a, b);
    }
    if constexpr (std::is_integral_v<T>)
      return static_cast<T>(a ^ b);
    return a;
  }
}

template <class T>
T reduced(const char* op, std::uint64_t salt, int size, SizeType k) {
  T v = value<T>(salt, 0, k);
  for (int r = 1; r < size; ++r)
    v = apply<T>(op, v, value<T>(salt, r, k));
  return v;
}

int world_rank;

template <class T>
void reductions(vk::Rng& r, comm::Communicator& c, const char* name) {
  const int size = c.size(), rank = c.rank();
  SizeType count = r.chance(1, 12) ? r.range(1000, 3000) : r.range(1, 60);
  // per-rank shapes, drawn identically everywhere
  std::vector<Shape> in, out;
  for (int k = 0; k < size; ++k) {
    in.push_back(gen_shape(r, count));
    out.push_back(gen_shape(r, count));
  }
  SizeType pre = r.range(0, 3), post = r.range(0, 3);
  auto os = ops<T>();
  OpDesc od = r.pick(os);
  int root = r.irange(0, size - 1);
  int kind = r.irange(0, 5);
  std::uint64_t salt = r.u64() % 1000003;
  static const char* kinds[] = {"reduce", "reduceInPlace", "allReduce", "allReduceInPlace", "reduceRecv/Send", "reduceRecvInPlace/Send"};
  bool cst = r.chance(1, 2);
  vk::case_begin(cat(kinds[kind], " ", name, " ", od.name, " ranks ", size, " root ", root, " count ", count, " in ", in[0].str(), " ",
                     in.back().str(), " out ", out[0].str(), " ", out.back().str(), cst ? " const input" : ""));
  vk::nontrivial_current();
  std::size_t live0 = mpimon::live_types();
  const Shape si = in[static_cast<std::size_t>(rank)], so = out[static_cast<std::size_t>(rank)];
  Mem<T> a(si, pre, post), b(so, post, pre);
  a.put(si, salt, rank);
  b.put(so, salt + 17, rank);
  DataDescriptor<T> da(a.ptr(), si.nb, si.bs, si.st), db(b.ptr(), so.nb, so.bs, so.st);
  DataDescriptor<const T> ca(da);
  bool in_place = kind == 1 || kind == 3 || kind == 5;
  bool receives = kind == 2 || kind == 3 || rank == root;
  switch (kind) {
    case 0:
      cst ? comm::sync::reduce(root, c, od.op, ca, db) : comm::sync::reduce(root, c, od.op, da, db);
      break;
    case 1:
      comm::sync::reduceInPlace(root, c, od.op, da);
      break;
    case 2:
      cst ? comm::sync::allReduce(c, od.op, ca, db) : comm::sync::allReduce(c, od.op, da, db);
      break;
    case 3:
      comm::sync::allReduceInPlace(c, od.op, da);
      break;
    case 4:
      if (rank == root)
        comm::sync::reduceRecv(c, od.op, da, db);
      else
        comm::sync::reduceSend(root, c, od.op, ca);
      break;
    default:
      if (rank == root)
        comm::sync::reduceRecvInPlace(c, od.op, da);
      else
        comm::sync::reduceSend(root, c, od.op, da);
  }
  if (receives) {
    Mem<T>& t = in_place ? a : b;
    const Shape& st = in_place ? si : so;
    for (SizeType k = 0; k < count; ++k)
      t.ref[Mem<T>::u(t.off + st.at(k))] = reduced<T>(od.name, salt, size, k);
    vk::count("results checked", static_cast<std::uint64_t>(count));
  }
  a.compare(si, in_place ? "in/out data" : "input data", in_place ? "reduction-value" : "input-changed", "outside-changed");
  b.compare(so, "output data", receives && !in_place ? "reduction-value" : "non-root-output-changed", "outside-changed");
  VK_EQ(mpimon::live_types(), live0, "type-conservation", "");
  vk::count(kinds[kind]);
}

template <class T>
void p2p(vk::Rng& r, comm::Communicator& c, const char* name) {
  const int size = c.size(), rank = c.rank();
  if (size < 2)
    return;
  int from = r.irange(0, size - 1), to = r.irange(0, size - 2);
  if (to >= from)
    ++to;
  int n = r.irange(1, 3);
  vk::case_begin(cat("send/receive ", name, " ", from, "->", to, " of ", size, " messages ", n));
  for (int m = 0; m < n; ++m) {
    SizeType count = r.chance(1, 400) ? r.range(30000, 300000) : r.chance(1, 20) ? r.range(2000, 9000) : r.range(1, 70);
    Shape ss = gen_shape(r, count), sd = gen_shape(r, count);
    std::uint64_t salt = r.u64() % 100003;
    vk::nontrivial(cat(name, from, to, size, ss.str(), sd.str()));
    if (rank == from) {
      Mem<T> a(ss, 2, 1);
      a.put(ss, salt, from);
      DataDescriptor<T> d(a.ptr(), ss.nb, ss.bs, ss.st);
      if (m % 2)
        comm::sync::send_to(to, c, DataDescriptor<const T>(d));
      else
        comm::sync::send_to(to, c, d);
      a.compare(ss, "sent data", "input-changed", "outside-changed");
    }
    else if (rank == to) {
      Mem<T> b(sd, 1, 2);
      DataDescriptor<T> d(b.ptr(), sd.nb, sd.bs, sd.st);
      comm::sync::receive_from(from, c, d);
      for (SizeType k = 0; k < count; ++k)
        b.ref[Mem<T>::u(b.off + sd.at(k))] = value<T>(salt, from, k);
      b.compare(sd, "received data", "transfer-value", "outside-changed");
      vk::count("messages received");
    }
  }
}

// one rank gives its data to all
template <class T>
void broadcast(vk::Rng& r, comm::Communicator& c, const char* name) {
  const int size = c.size(), rank = c.rank();
  const SizeType count = r.chance(1, 200) ? r.range(20000, 100000) : r.chance(1, 12) ? r.range(1000, 3000) : r.range(1, 60);
  std::vector<Shape> sh;
  for (int k = 0; k < size; ++k)
    sh.push_back(gen_shape(r, count));
  const int root = r.irange(0, size - 1);
  const bool cst = r.chance(1, 2);
  const std::uint64_t salt = r.u64() % 1000003;
  const Shape s = sh[std::size_t(rank)];
  vk::case_begin(cat("broadcast ", name, " ranks ", size, " root ", root, " count ", count, " from ", sh[std::size_t(root)].str(), " to ",
                     sh[std::size_t((root + 1) % size)].str()));
  vk::nontrivial_current();
  const std::size_t live0 = mpimon::live_types();
  Mem<T> a(s, 2, 1);
  DataDescriptor<T> d(a.ptr(), s.nb, s.bs, s.st);
  if (rank == root) {
    a.put(s, salt, root);
    if (cst)
      comm::sync::broadcast::send(c, DataDescriptor<const T>(d));
    else
      comm::sync::broadcast::send(c, d);
  }
  else {
    comm::sync::broadcast::receive_from(root, c, d);
    for (SizeType k = 0; k < count; ++k)
      a.ref[Mem<T>::u(a.off + s.at(k))] = value<T>(salt, root, k);
    vk::count("broadcasts received");
  }
  a.compare(s, "broadcast data", rank == root ? "input-changed" : "broadcast-value", "outside-changed");
  VK_EQ(mpimon::live_types(), live0, "type-conservation", "");
}

// two ranks send to a third, which takes the messages in the order it likes
template <class T>
void two_senders(vk::Rng& r, comm::Communicator& c, const char* name) {
  const int size = c.size(), rank = c.rank();
  if (size < 3)
    return;
  std::vector<int> who(static_cast<std::size_t>(size));
  std::iota(who.begin(), who.end(), 0);
  for (std::size_t k = who.size(); k > 1; --k)
    std::swap(who[k - 1], who[std::size_t(r.irange(0, int(k) - 1))]);
  const int first = who[0], second = who[1], to = who[2];
  const SizeType count = r.range(1, 40);
  const Shape s1 = gen_shape(r, count), s2 = gen_shape(r, count), d1 = gen_shape(r, count), d2 = gen_shape(r, count);
  const std::uint64_t salt = r.u64() % 100003;
  vk::case_begin(cat("send ", name, " ", first, " and (earlier) ", second, " -> ", to, " of ", size, " count ", count));
  vk::nontrivial_current();
  if (rank == first || rank == second) {
    const Shape& s = rank == first ? s1 : s2;
    if (rank == first)
      usleep(1500);  // the other message is very probably there before
    Mem<T> a(s, 0, 0);
    a.put(s, salt, rank);
    comm::sync::send_to(to, c, DataDescriptor<const T>(DataDescriptor<T>(a.ptr(), s.nb, s.bs, s.st)));
    a.compare(s, "sent data", "input-changed", "outside-changed");
  }
  else if (rank == to)
    for (int from : {first, second}) {
      const Shape& s = from == first ? d1 : d2;
      Mem<T> b(s, 1, 1);
      comm::sync::receive_from(from, c, DataDescriptor<T>(b.ptr(), s.nb, s.bs, s.st));
      for (SizeType k = 0; k < count; ++k)
        b.ref[Mem<T>::u(b.off + s.at(k))] = value<T>(salt, from, k);
      b.compare(s, "received data", "wrong-sender", "outside-changed");
      vk::count("messages received with another pending");
    }
}

template <class T>
void all(vk::Rng& r, std::vector<comm::Communicator>& cs, const char* name, int n) {
  for (int k = 0; k < n; ++k)
    for (std::size_t s = 0; s < cs.size(); ++s) {
      // the choices are drawn on every rank, members or not
      auto sub = vk::Rng(r.u64());
      if (cs[s].rank() < 0 || !(MPI_COMM_NULL != MPI_Comm(cs[s])))
        continue;
      for (int q = 0; q < 3; ++q)
        reductions<T>(sub, cs[s], name);
      p2p<T>(sub, cs[s], name);
      broadcast<T>(sub, cs[s], name);
      if (k % 4 == 0)
        two_senders<T>(sub, cs[s], name);
    }
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
  int np;
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  auto r = vk::rng("c08");
  {
    // communicators of size 1..np, some with reversed rank order
    std::vector<MPI_Comm> raw;
    std::vector<comm::Communicator> cs;
    for (int s = 1; s <= np; ++s) {
      MPI_Comm c;
      bool in = s % 2 ? world_rank < s : world_rank >= np - s;
      MPI_Comm_split(MPI_COMM_WORLD, in ? 1 : MPI_UNDEFINED, s % 2 ? world_rank : -world_rank, &c);
      raw.push_back(c);
      cs.push_back(in ? comm::Communicator(c) : comm::Communicator());
    }
    int n = vk::scale(40, 250);
    all<int>(r, cs, "int", n);
    all<long>(r, cs, "long", n);
    all<short>(r, cs, "short", n);
    all<unsigned char>(r, cs, "unsigned char", n);
    all<unsigned>(r, cs, "unsigned", n);
    all<unsigned long>(r, cs, "unsigned long", n);
    all<float>(r, cs, "float", n);
    all<double>(r, cs, "double", n);
    all<bool>(r, cs, "bool", n);
    all<std::complex<float>>(r, cs, "complex<float>", n);
    all<std::complex<double>>(r, cs, "complex<double>", n);
    // an invalid root is refused
    for (int bad : {-1, np, np + 5}) {
      vk::case_begin(cat("root ", bad, " of ", np));
      int x = 1, y = 2;
      auto o = mpimon::probe([&]() {
        comm::sync::reduce(bad, cs.back(), MPI_SUM, DataDescriptor<int>(&x, 1), DataDescriptor<int>(&y, 1));
      });
      VK_CHECK(o == vk::Outcome::Terminated, "fail-stop", vk::outcome_name(o));
    }
    MPI_Barrier(MPI_COMM_WORLD);
    cs.clear();
    for (auto& c : raw)
      if (c != MPI_COMM_NULL)
        MPI_Comm_free(&c);
  }
  int rc = vk::finish();
  MPI_Finalize();
  return rc;
}
