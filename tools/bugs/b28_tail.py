PROPERTY="C28"
EDITS=[('include/dlaf/eigensolver/reduction_to_band/impl.h', '      if (j + 1 < tile_v.size().rows()) {', '      if (j + 2 < tile_v.size().rows()) {')]
NEEDS='a reflector whose tail in its first tile is a single element'
BREAKS='that element is not scaled: the transformation is not the one described by the factors'
RUNTIME='full'
ETI=['src/eigensolver/reduction_to_band/mc.cpp', 'src/factorization/qr/mc.cpp', 'src/communication/kernels/broadcast.cpp', 'src/communication/kernels/reduce.cpp', 'src/communication/kernels/all_reduce.cpp', 'src/communication/kernels/p2p.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/eigensolver/reduction_to_band/api.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; const SizeType n=6,b=2; Mat a(LocalElementSize(n,n),TileElementSize(2,2)); auto B=[](SizeType i,SizeType j){ return i<j?val(i,j):val(j,i); }; fill(a,B);
 double f0=0,f1=0; for(SizeType j=0;j<n;++j) for(SizeType i=0;i<n;++i) f0+=B(i,j)*B(i,j);
 auto t=eigensolver::internal::ReductionToBand<Backend::MC,Device::CPU,double>::call(a,b); auto x=gather(a);
 for(SizeType j=0;j<n;++j) for(SizeType i=j;i<n&&i<=j+b;++i) f1+=(i==j?1:2)*x[std::size_t(i+j*n)]*x[std::size_t(i+j*n)];
 bad+=!(std::abs(f0-f1)<1e-10*f0); return bad; }); }
'''
