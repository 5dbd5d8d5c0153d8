PROPERTY="C20"
EDITS=[('include/dlaf/matrix/copy.h', '    if (idx_source_begin == idx_dest_begin && &source == &dest)\n      return;', '    if (&source == &dest)\n      return;')]
NEEDS='a copy between two different parts of one matrix'
BREAKS='nothing is copied'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/matrix/copy.h>
int main(int c,char**v){ return demo(c,v,[]{ Mat m(LocalElementSize(8,6),TileElementSize(2,3)); fill(m,val);
 matrix::copy(LocalTileSize(2,1),LocalTileIndex(0,0),m,LocalTileIndex(2,1),m);
 return wrong(m,[](SizeType i,SizeType j,double x){ return x==(i>=4&&j>=3?val(i-4,j-3):val(i,j)); }); }); }
'''
