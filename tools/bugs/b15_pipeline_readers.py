PROPERTY="C15"
EDITS=[('include/dlaf/common/pipeline.h', '      auto s =\n          ex::when_all(pipeline->readwrite(), std::move(nested_sender.value())) |\n          ex::then([](auto sub_wrapper, auto wrapper) { wrapper.get() = std::move(sub_wrapper.get()); });\n      ex::start_detached(std::move(s));\n', '      if constexpr (std::is_copy_assignable_v<T>) {\n        // a copy can be given back as soon as the last change was made\n        ex::start_detached(ex::when_all(pipeline->read(), std::move(nested_sender.value())) |\n                           ex::then([](auto sub_wrapper, auto wrapper) { wrapper.get() = sub_wrapper.get(); }));\n      }\n      else {\n        auto s = ex::when_all(pipeline->readwrite(), std::move(nested_sender.value())) |\n                 ex::then([](auto sub_wrapper, auto wrapper) {\n                   wrapper.get() = std::move(sub_wrapper.get());\n                 });\n        ex::start_detached(std::move(s));\n      }\n')]
NEEDS='a read-only access of a sub-pipeline still held when the sub-pipeline ends, and a value which can be copied'
BREAKS='a later access of the parent starts while the access of the sub-pipeline is still held'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/common/pipeline.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; common::Pipeline<int> p(7); std::atomic<bool> granted{false};
 { auto s=p.sub_pipeline(); { auto r=tt::sync_wait(s.read()); s.reset();
   ex::start_detached(p.readwrite()|ex::then([&](auto w){ w.get()=8; granted=true; })); usleep(300000); bad+=granted; bad+=r.get()!=7; } }
 bad+=!soon([&]{return granted.load();}); return bad; }); }
'''
