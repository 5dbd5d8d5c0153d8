PROPERTY="C27"
EDITS=[('include/dlaf/eigensolver/gen_to_std/impl.h', '    // No next rows update if last row.\n    if (k < nrtile - 1) {\n      broadcast(kk_rank.row(), a_panelT, mpi_col_task_chain);\n', '    // No next rows update if last row.\n    if (k < nrtile - 1) {\n      broadcast(distr.rankGlobalTile<Coord::Row>(k + 1), a_panelT, mpi_col_task_chain);\n')]
NEEDS='several rows of processes and at least three tiles'
BREAKS='rows are updated with tiles of a process which does not have the row'
RUNTIME='full'
NP=2
ETI=['src/eigensolver/gen_to_std/mc.cpp', 'src/communication/kernels/broadcast.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/eigensolver/gen_to_std/api.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; const SizeType n=8; comm::CommunicatorGrid g(MPI_COMM_WORLD,2,1,common::Ordering::RowMajor);
 Distribution d(GlobalElementSize(n,n),TileElementSize(2,2),g.size(),g.rank(),comm::Index2D(0,0)); Mat a(d),l(d);
 auto L=[](SizeType i,SizeType j){ return j>i?0.0:(i==j?2.0+double(i):0.5*val(i,j)); }; auto B=[](SizeType i,SizeType j){ return i<j?val(i,j):val(j,i); };
 fill(l,L); fill(a,[&](SizeType i,SizeType j){ double s=0; for(SizeType p=0;p<n;++p) for(SizeType q=0;q<n;++q) s+=L(i,p)*B(p,q)*L(j,q); return s; });
 eigensolver::internal::GenToStd<Backend::MC,Device::CPU,double>::call_L(g,a,l);
 bad+=wrong(a,[&](SizeType i,SizeType j,double x){ return i<j||std::abs(x-B(i,j))<1e-9; }); return bad; }); }
'''
