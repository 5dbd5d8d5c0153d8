PROPERTY="C23"
EDITS=[('include/dlaf/factorization/cholesky/impl.h', '    broadcast(kk_rank.col(), panel, panelT, mpi_row_task_chain, mpi_col_task_chain);\n\n    // TRAILING MATRIX\n    for (SizeType jt_idx = kt; jt_idx < nrtile; ++jt_idx) {\n      const auto owner = distr.rankGlobalTile({jt_idx, jt_idx});\n\n      if (owner.col() != this_rank.col())', '    const auto root = static_cast<comm::IndexT_MPI>(k % grid.size().cols());\n    broadcast(root, panel, panelT, mpi_row_task_chain, mpi_col_task_chain);\n\n    // TRAILING MATRIX\n    for (SizeType jt_idx = kt; jt_idx < nrtile; ++jt_idx) {\n      const auto owner = distr.rankGlobalTile({jt_idx, jt_idx});\n\n      if (owner.col() != this_rank.col())')]
NEEDS='a matrix whose first tile is not on the first column of processes'
BREAKS='panels are broadcast from a process which does not have them'
RUNTIME='full'
NP=2
ETI=['src/factorization/cholesky/mc.cpp', 'src/communication/kernels/broadcast.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/factorization/cholesky/api.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; comm::CommunicatorGrid g(MPI_COMM_WORLD,1,2,common::Ordering::RowMajor);
 for(int s=0;s<2;++s){ Distribution d(GlobalElementSize(7,7),TileElementSize(2,2),g.size(),g.rank(),comm::Index2D(0,s)); Mat a(d);
  auto L=[](SizeType i,SizeType j){ return j>i?0.0:(i==j?2.0+double(i):0.5*val(i,j)); };
  fill(a,[&](SizeType i,SizeType j){ double x=0; for(SizeType k=0;k<7;++k) x+=L(i,k)*L(j,k); return x; });
  factorization::internal::Cholesky<Backend::MC,Device::CPU,double>::call_L(g,a);
  bad+=wrong(a,[&](SizeType i,SizeType j,double x){ return j>i||std::abs(x-L(i,j))<1e-12; }); }
 return bad; }); }
'''
