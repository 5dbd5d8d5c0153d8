PROPERTY="C36"
EDITS=[('include/dlaf/blas/tile.h', '  blas::herk(blas::Layout::ColMajor, uplo, op, s.n, s.k, alpha, a.ptr(), a.ld(), beta, c.ptr(), c.ld());', '  if (s.k == 0)\n    return;\n  blas::herk(blas::Layout::ColMajor, uplo, op, s.n, s.k, alpha, a.ptr(), a.ld(), beta, c.ptr(), c.ld());')]
NEEDS='a rank-k update of a tile by a tile with no columns'
BREAKS='the tile is not scaled'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/blas/enum_output.h>
#include <dlaf/blas/tile.h>
#include <dlaf/memory/memory_view.h>
int main(int c,char**v){ return demo(c,v,[]{ using MV=memory::MemoryView<double,Device::CPU>; MV ma(4),mc(16); for(SizeType i=0;i<16;++i) *mc(i)=double(i+1);
 matrix::Tile<double,Device::CPU> a(TileElementSize(4,0),std::move(ma),4), t(TileElementSize(4,4),std::move(mc),4);
 tile::internal::herk(blas::Uplo::Lower,blas::Op::NoTrans,2.0,a,3.0,t); int bad=0;
 for(SizeType j=0;j<4;++j) for(SizeType i=0;i<4;++i) bad+= t({i,j})!=(i>=j?3.0:1.0)*double(i+4*j+1); return bad; }); }
'''
