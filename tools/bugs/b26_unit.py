PROPERTY="C26"
EDITS=[('include/dlaf/inverse/triangular/impl.h', 'blas::Side::Left, blas::Uplo::Upper, blas::Op::NoTrans, diag,\n                                  ElementType(-1.0),', 'blas::Side::Left, blas::Uplo::Upper, blas::Op::NoTrans,\n                                  blas::Diag::NonUnit, ElementType(-1.0),')]
NEEDS='the inverse of an upper triangular matrix with unit diagonal (whose stored diagonal is something else)'
BREAKS='the stored diagonal is used'
RUNTIME='full'
ETI=['src/inverse/triangular/mc.cpp', 'src/communication/kernels/broadcast.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/inverse/triangular/api.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; const SizeType n=7;
 for(int u=0;u<2;++u){ Mat a(LocalElementSize(n,n),TileElementSize(3,3)); auto U=[&](SizeType i,SizeType j){ return i>j?99.0:(i==j?3.0:0.5*val(i,j)); };
  fill(a,U); inverse::internal::Triangular<Backend::MC,Device::CPU,double>::call_U(u?blas::Diag::Unit:blas::Diag::NonUnit,a); auto x=gather(a);
  for(SizeType j=0;j<n;++j) for(SizeType i=0;i<=j;++i){ double s=0; for(SizeType k=i;k<=j;++k) s+=(u&&i==k?1.0:U(i,k))*(u&&k==j?1.0:x[std::size_t(k+j*n)]); bad+=!(std::abs(s-(i==j))<1e-11); } }
 return bad; }); }
'''
