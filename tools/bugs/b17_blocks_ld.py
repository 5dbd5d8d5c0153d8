PROPERTY="C17"
EDITS=[('include/dlaf/matrix/matrix.h', 'SizeType offset = i_el_bl + block_ld * j_el_bl;', 'SizeType offset = i_el_bl + mb * j_el_bl;')]
NEEDS='the blocks layout with several tiles per block and a leading dimension larger than the block'
BREAKS='tiles of a block overlap in memory'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
int main(int c,char**v){ return demo(c,v,[]{Distribution e(GlobalElementSize(8,8),GlobalElementSize(4,4),TileElementSize(2,2),comm::Size2D(1,1),comm::Index2D(0,0),comm::Index2D(0,0));
 Mat m(e,matrix::AllocationSpec(matrix::AllocationLayout::Blocks,SizeType(7)));
 fill(m,val); return wrong(m,[](SizeType i,SizeType j,double x){ return x==val(i,j); }); }); }
'''
