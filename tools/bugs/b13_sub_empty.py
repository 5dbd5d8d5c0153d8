PROPERTY="C13"
EDITS=[('src/matrix/distribution.cpp', '  offset_ = offset_ + sizeFromOrigin(spec.origin);', '  if (!spec.size.isEmpty())\n    offset_ = offset_ + sizeFromOrigin(spec.origin);')]
NEEDS='a sub-distribution which is empty in one direction only, at an origin other than zero'
BREAKS='the sub-distribution forgets its origin: its tiles start elsewhere and belong to other processes'
RUNTIME='mini'
REPO_SRC=['src/matrix/distribution.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/matrix/distribution.h>
int main(int argc,char**argv){ int bad=0; (void)argc;(void)argv;
 for(int r=0;r<3;++r){ Distribution d(GlobalElementSize(20,12),TileElementSize(3,4),comm::Size2D(3,1),comm::Index2D(r,0),comm::Index2D(1,0));
  Distribution s(d,{GlobalElementIndex(7,2),GlobalElementSize(9,0)});
  for(SizeType e=0;e<9;++e) bad+= s.rank_global_element<Coord::Row>(e)!=d.rank_global_element<Coord::Row>(7+e) || s.tile_element_from_global_element<Coord::Row>(e)!=(e<2?e:(7+e)%3);
 }
 std::printf("%d\n",bad); return bad?1:0; }
'''
