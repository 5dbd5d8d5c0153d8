PROPERTY="C30"
EDITS=[('include/dlaf/eigensolver/tridiag_solver/merge.h', '    if ((c1 == ColType::UpperHalf && c2 == ColType::LowerHalf) ||\n        (c1 == ColType::LowerHalf && c2 == ColType::UpperHalf)) {\n      c1 = ColType::Dense;', '    if (c1 == ColType::UpperHalf && c2 == ColType::LowerHalf) {\n      c1 = ColType::Dense;')]
NEEDS='nearly equal eigenvalues of the two halves, the smaller one in the lower half'
BREAKS='half of an eigenvector is taken for zero'
RUNTIME='full'
ETI=['src/eigensolver/tridiag_solver/mc.cpp', 'src/permutations/general/mc.cpp', 'src/multiplication/general/mc.cpp', 'src/communication/kernels/broadcast.cpp', 'src/communication/kernels/reduce.cpp', 'src/communication/kernels/all_reduce.cpp', 'src/communication/kernels/p2p.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/eigensolver/tridiag_solver/api.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; for(SizeType n=9;n<=33;n+=4) for(SizeType nb=2;nb<=8;nb+=3){ const SizeType h=n/2; auto D=[&](SizeType i){ return double(std::abs(i-h)); };
 Mat t(LocalElementSize(n,2),TileElementSize(nb,2)),e(LocalElementSize(n,1),TileElementSize(nb,1)),q(LocalElementSize(n,n),TileElementSize(nb,nb));
 fill(t,[&](SizeType i,SizeType j){ return j==0?D(i):1.0; }); fill(q,[](SizeType,SizeType){return 0.0;}); fill(e,[](SizeType,SizeType){return 0.0;});
 eigensolver::internal::TridiagSolver<Backend::MC,Device::CPU,double>::call(t,e,q); auto w=gather(e); auto x=gather(q); auto X=[&](SizeType i,SizeType j){ return i<0||i>=n?0.0:x[std::size_t(i+j*n)]; };
 for(SizeType j=0;j<n;++j) for(SizeType i=0;i<n;++i){ double r=X(i-1,j)+D(i)*X(i,j)+X(i+1,j)-w[std::size_t(j)]*X(i,j); bad+=!(std::abs(r)<1e-11*double(n)); double s=0; for(SizeType k=0;k<n;++k) s+=X(k,i)*X(k,j); bad+=!(std::abs(s-(i==j))<1e-12*double(n)); } }
 return bad; }); }
'''
