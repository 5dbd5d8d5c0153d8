#pragma once
#include <cstdlib>
#include <pika/vk_core.hpp>
#include <pika/program_options.hpp>
namespace pika {
struct init_params {
  struct {
    std::shared_ptr<program_options::options_description> d = std::make_shared<program_options::options_description>();
    void operator=(const program_options::options_description& o) {
      d = std::make_shared<program_options::options_description>(o);
    }
  } desc_cmdline;
};
inline int vk_default_threads() {
  const char* s = std::getenv("VK_THREADS");
  return s ? std::atoi(s) : 4;
}
inline void start(int, const char* const*, const init_params& = init_params()) { vks::start(vk_default_threads()); }
inline void start(const init_params& = init_params()) { vks::start(vk_default_threads()); }
inline int stop() {
  vks::stop();
  return 0;
}
template <class F>
int init(F&& f, int argc, const char* const* argv, const init_params& p = init_params()) {
  vks::start(vk_default_threads());
  int r = 0;
  if constexpr (std::is_invocable_v<F, int, char**>)
    r = f(argc, const_cast<char**>(argv));
  else {
    program_options::variables_map vm;
    program_options::store(
        program_options::command_line_parser(argc, argv).options(*p.desc_cmdline.d).allow_unregistered().run(), vm);
    r = f(vm);
  }
  vks::stop();
  return r;
}
}
