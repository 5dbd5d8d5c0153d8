PROPERTY="C32"
EDITS=[('include/dlaf/auxiliary/norm/mc.h', '    bool is_diag = tile_wrt_global.row() == tile_wrt_global.col();', '    bool is_diag = tile_wrt_local.row() == tile_wrt_local.col();')]
NEEDS='a distributed matrix with a large element in the other triangle of a diagonal tile, or in a tile which is on the diagonal of the local part only'
BREAKS='elements outside the triangle count, or elements inside do not'
RUNTIME='full'
NP=2
ETI=['src/auxiliary/norm/mc.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/auxiliary/norm/api.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; comm::CommunicatorGrid g(MPI_COMM_WORLD,1,2,common::Ordering::RowMajor); int r; MPI_Comm_rank(MPI_COMM_WORLD,&r);
 for(int big=0;big<3;++big){ Distribution d(GlobalElementSize(6,6),TileElementSize(2,2),g.size(),g.rank(),comm::Index2D(0,0)); Mat a(d);
  fill(a,[&](SizeType i,SizeType j){ return big==0&&i==2&&j==3?99.0:big==1&&i==4&&j==5?77.0:big==2&&i==2&&j==2?55.0:1.0; });
  double x=tt::sync_wait(auxiliary::internal::Norm<Backend::MC,Device::CPU,double>::max_L(g,comm::Index2D(0,1),a)); bad+= r==1&&x!=(big==2?55.0:1.0); }
 return bad; }); }
'''
