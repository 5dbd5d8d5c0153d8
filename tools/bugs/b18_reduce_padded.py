PROPERTY="C18"
EDITS=[('include/dlaf/communication/kernels/internal/reduce.h', 'withTemporaryTile<DComm, CopyToDestination::Yes, CopyFromDestination::Yes,', 'withTemporaryTile<DComm, CopyToDestination::Yes, CopyFromDestination::No,')]
NEEDS='the root of a reduction holding its part in a tile which is not contiguous'
BREAKS='the root keeps its own contribution instead of the result'
RUNTIME='full'
NP=2
ETI=['src/communication/kernels/reduce.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/communication/kernels/reduce.h>
#include <dlaf/matrix/create_matrix.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; comm::CommunicatorGrid g(MPI_COMM_WORLD,1,2,common::Ordering::RowMajor); int r; MPI_Comm_rank(MPI_COMM_WORLD,&r);
 for(int ld=4;ld<=6;ld+=2){ std::vector<double> mem(24,1.0+r); { auto p=g.row_communicator_pipeline();
  auto m=matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize(4,3),TileElementSize(4,3),ld,mem.data());
  if(r==0){ auto t=tt::sync_wait(comm::schedule_reduce_recv_in_place(p.exclusive(),MPI_SUM,m.readwrite(LocalTileIndex(0,0)))); for(int j=0;j<3;++j) for(int i=0;i<4;++i) bad+=t({i,j})!=3.0; }
  else tt::sync_wait(comm::schedule_reduce_send(p.exclusive(),0,MPI_SUM,m.read(LocalTileIndex(0,0)))); m.waitLocalTiles(); } }
 return bad; }); }
'''
