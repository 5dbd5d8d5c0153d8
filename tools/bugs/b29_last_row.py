PROPERTY="C29"
EDITS=[('include/dlaf/eigensolver/band_to_tridiag/mc.h', '  if (!isComplex_v<T> && (size - 1) % nb == 0) {\n    copy_tridiag(size - 1, dep);', '  if (!isComplex_v<T> && (size - 2) % nb == 0) {\n    copy_tridiag(size - 1, dep);')]
NEEDS='a real matrix whose last block has one row'
BREAKS='the diagonals of the block before it are never written'
RUNTIME='full'
ETI=['src/eigensolver/band_to_tridiag/mc.cpp', 'src/communication/kernels/broadcast.cpp', 'src/communication/kernels/p2p.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/eigensolver/band_to_tridiag/api.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; for(SizeType n=8;n<=10;++n){ Mat a(LocalElementSize(n,n),TileElementSize(4,4)); auto B=[](SizeType i,SizeType j){ return std::abs(i-j)>2?0.0:(i<j?val(i,j):val(j,i)); }; fill(a,B);
 double f0=0,f1=0; for(SizeType j=0;j<n;++j) for(SizeType i=0;i<n;++i) f0+=B(i,j)*B(i,j);
 auto t=eigensolver::internal::BandToTridiag<Backend::MC,Device::CPU,double>::call_L(2,a);
 wrong(t.tridiagonal,[&](SizeType i,SizeType j,double x){ if(j==0||i<n-1) f1+=(j==0?1:2)*x*x; return true; });
 bad+=!(std::abs(f0-f1)<1e-10*f0); } return bad; }); }
'''
