PROPERTY="C24"
EDITS=[('include/dlaf/solver/triangular/impl.h', '      for (SizeType j = k + 1; j < n; ++j) {\n        // Choose queue priority\n        const auto trailing_priority = (j == k + 1) ? thread_priority::high : thread_priority::normal;\n        auto beta = static_cast<T>(-1.0) / alpha;\n        // Update trailing matrix\n        gemmTrailingMatrixTile<backend>(trailing_priority, beta, mat_b.read(ik),\n                                        mat_a.read(LocalTileIndex{k, j}),', '      for (SizeType j = k + 1; j < n; ++j) {\n        // Choose queue priority\n        const auto trailing_priority = (j == k + 1) ? thread_priority::high : thread_priority::normal;\n        auto beta = k + 2 == n ? static_cast<T>(-1.0) : static_cast<T>(-1.0) / alpha;\n        // Update trailing matrix\n        gemmTrailingMatrixTile<backend>(trailing_priority, beta, mat_b.read(ik),\n                                        mat_a.read(LocalTileIndex{k, j}),')]
NEEDS='solving from the right with an upper triangle, on one process, scaled by something else than one'
BREAKS='the last column panel of the solution is wrong'
RUNTIME='full'
ETI=['src/solver/triangular/mc.cpp', 'src/communication/kernels/broadcast.cpp', 'src/communication/kernels/reduce.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/solver/triangular.h>
int main(int c,char**v){ return demo(c,v,[]{ const SizeType n=6,m=4; Mat a(LocalElementSize(n,n),TileElementSize(2,2)), b(LocalElementSize(m,n),TileElementSize(2,2)); 
 auto A=[](SizeType i,SizeType j){ return i==j?4.0+i:val(i,j); }; fill(a,A); fill(b,val);
 triangular_solver<Backend::MC,Device::CPU,double>(blas::Side::Right,blas::Uplo::Upper,blas::Op::NoTrans,blas::Diag::NonUnit,2.5,a,b);
 auto x=gather(b); int bad=0; for(SizeType i=0;i<m;++i) for(SizeType j=0;j<n;++j){ double s=0; for(SizeType k=0;k<=j;++k) s+=x[size_t(i+m*k)]*A(k,j); bad+=!(std::abs(s-2.5*val(i,j))<1e-10); }
 return bad; }); }
'''
