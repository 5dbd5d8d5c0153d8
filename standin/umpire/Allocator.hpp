// Stand-in for Umpire: one exact allocation per request, with accounting and content poisoning.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include "../vk_sched.hpp"
namespace umpire {
// Accounting of one allocator; kept by the uninstrumented unit, so that allocating orders nothing.
struct vk_account {
  void* impl = vks::account_make();
  std::string strategy = "plain";
  std::size_t initial = 0, next = 0, alignment = 0;
  vk_account() = default;
  vk_account(const vk_account&) = delete;
  std::uint64_t allocations() const { return vks::account_count(impl, 0); }
  std::uint64_t releases() const { return vks::account_count(impl, 1); }
  std::uint64_t live() const { return vks::account_count(impl, 2); }
  std::uint64_t bytes() const { return vks::account_count(impl, 3); }
  // the live allocation that contains p
  bool find(const void* p, void** base, std::size_t* n) const { return vks::account_find(impl, p, base, n); }
};
class Allocator {
  std::shared_ptr<vk_account> a;
  std::string name;

public:
  Allocator() = default;
  Allocator(std::string n, std::shared_ptr<vk_account> a) : a(std::move(a)), name(std::move(n)) {}
  void* allocate(std::size_t n) {
    if (!a)
      vks::fatal("umpire-uninitialised", "an uninitialised allocator was used");
    void* p = std::aligned_alloc(64, n == 0 ? 64 : n + (64 - n % 64) % 64);
#if defined(__SANITIZE_ADDRESS__)
    // exact size, so that the first byte past the end is not addressable
    std::free(p);
    p = std::malloc(n ? n : 1);
#endif
    if (!p)
      vks::fatal("umpire-no-memory", "");
    std::memset(p, 0xff, n);  // a NaN in every floating-point type
    vks::account_add(a->impl, p, n);
    return p;
  }
  void deallocate(void* p) {
    if (!a)
      vks::fatal("umpire-uninitialised", "an uninitialised allocator was used");
    if (!p)
      return;  // accepted and ignored, as by Umpire
    std::size_t n;
    if (!vks::account_remove(a->impl, p, &n))
      vks::fatal("umpire-bad-free", "memory was released that this allocator had not handed out (or twice)");
    std::memset(p, 0xff, n);
    std::free(p);
  }
  const std::string& getName() const { return name; }
  vk_account& vk() { return *a; }
  bool vk_valid() const { return bool(a); }
};
}
