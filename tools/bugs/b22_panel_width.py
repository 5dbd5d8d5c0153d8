PROPERTY="C22"
EDITS=[('include/dlaf/matrix/panel.h', '    internal_.clear();\n    dim_ = -1;', '    if (!internal_.empty())\n      dim_ = -1;\n    internal_.clear();')]
NEEDS='a panel with a reduced width which only held external tiles, reset and used again'
BREAKS='the panel keeps its reduced width in the next round'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
int main(int c,char**v){ return demo(c,v,[]{ Mat m(LocalElementSize(9,9),TileElementSize(3,3)); fill(m,val); int bad=0;
 matrix::Panel<Coord::Col,double,Device::CPU> p(m.distribution());
 p.setWidth(2); for(SizeType i=0;i<3;++i) p.setTile(LocalTileIndex(i,0),matrix::splitTile(m.read(LocalTileIndex(i,0)),matrix::SubTileSpec{{0,0},{3,2}}));
 bad+=tt::sync_wait(p.read(LocalTileIndex(1,0))).get().size()!=TileElementSize(3,2); p.reset();
 bad+=p.getWidth()!=3; bad+=tt::sync_wait(p.readwrite(LocalTileIndex(1,0))).size()!=TileElementSize(3,3); p.reset(); return bad; }); }
'''
