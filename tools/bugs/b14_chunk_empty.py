PROPERTY="C14"
EDITS=[('include/dlaf/memory/memory_chunk.h', '    deallocate();\n\n    size_ = rhs.size_;', '    if (rhs.size_ > 0)\n      deallocate();\n\n    size_ = rhs.size_;')]
NEEDS='an owning chunk overwritten by an empty one'
BREAKS='the memory of the overwritten chunk is never returned to the allocator'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/memory/memory_chunk.h>
#include <umpire/ResourceManager.hpp>
int main(int c,char**v){ return demo(c,v,[]{ auto live=[]{ return umpire::ResourceManager::getInstance().getAllocator("HOST").vk().live(); };
 const auto l0=live(); int bad=0;
 { memory::MemoryChunk<double,Device::CPU> a(10), b(0), e(5), f; a=std::move(b); bad+=a.size()!=0; e=std::move(f); }
 bad+= live()!=l0; return bad; }); }
'''
