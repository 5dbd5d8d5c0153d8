#pragma once
#include <umpire/Allocator.hpp>
#include <vector>
namespace umpire {
class ResourceManager {
public:
  std::map<std::string, Allocator> all;
  static ResourceManager& getInstance() {
    static ResourceManager& r = *new ResourceManager;
    return r;
  }
  Allocator getAllocator(const std::string& n) {
    auto i = all.find(n);
    if (i == all.end())
      i = all.emplace(n, Allocator(n, std::make_shared<vk_account>())).first;
    return i->second;
  }
  template <class Strategy, class... A>
  Allocator makeAllocator(const std::string& n, Allocator, A&&...) {
    Allocator a(n, std::make_shared<vk_account>());
    all[n] = a;
    return a;
  }
};
}
