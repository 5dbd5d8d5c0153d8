PROPERTY="C25"
EDITS=[('include/dlaf/multiplication/general/impl.h', '  const matrix::Distribution& dist_a = mat_a.distribution();\n  const matrix::Distribution& dist_b = mat_b.distribution();\n  const matrix::Distribution& dist_c = mat_c.distribution();\n  const auto rank = dist_c.rank_index();\n', '  if (alpha == T(0))\n    return;\n\n  const matrix::Distribution& dist_a = mat_a.distribution();\n  const matrix::Distribution& dist_b = mat_b.distribution();\n  const matrix::Distribution& dist_c = mat_c.distribution();\n  const auto rank = dist_c.rank_index();\n')]
NEEDS='a distributed general product with a zero first scalar'
BREAKS='the result is not scaled by the second scalar'
RUNTIME='full'
NP=2
ETI=['src/multiplication/general/mc.cpp', 'src/communication/kernels/broadcast.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/multiplication/general.h>
#include <dlaf/matrix/matrix_ref.h>
int main(int c,char**v){ return demo(c,v,[]{ comm::CommunicatorGrid g(MPI_COMM_WORLD,1,2,common::Ordering::RowMajor);
 Distribution d(GlobalElementSize(6,6),TileElementSize(2,2),g.size(),g.rank(),comm::Index2D(0,0)); Mat a(d),b(d),e(d); fill(a,val); fill(b,val); fill(e,val);
 { auto r=g.row_communicator_pipeline(); auto q=g.col_communicator_pipeline(); 
 matrix::internal::MatrixRef<const double,Device::CPU> ra(a),rb(b); matrix::internal::MatrixRef<double,Device::CPU> re(e);
 multiplication::internal::generalMatrix<Backend::MC,Device::CPU,double>(r,q,0.0,ra,rb,2.0,re); }
 return wrong(e,[](SizeType i,SizeType j,double x){ return std::abs(x-2*val(i,j))<1e-12; }); }); }
'''
