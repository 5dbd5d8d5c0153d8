PROPERTY="C16"
EDITS=[('include/dlaf/matrix/tile.h', '      : Tile<const T, D>(tile_wrapper.get(), spec) {\n    dep_tracker_ = std::move(tile_wrapper);\n  }\n\n  Tile(internal::TileAsyncRwMutexReadWriteWrapper<T, D> tile_wrapper)', '      : Tile<const T, D>(tile_wrapper.get(), spec) {\n    if (!(spec.origin == TileElementIndex(0, 0)))\n      dep_tracker_ = std::move(tile_wrapper);\n  }\n\n  Tile(internal::TileAsyncRwMutexReadWriteWrapper<T, D> tile_wrapper)')]
NEEDS='a read-only sub-tile at the origin of its tile, still in use when the next write access is requested'
BREAKS='the write access of the tile starts while the sub-tile is still being read'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; Mat m(LocalElementSize(4,4),TileElementSize(4,4)); std::atomic<bool> granted{false};
 { auto s=tt::sync_wait(matrix::splitTile(m.read(LocalTileIndex(0,0)),matrix::SubTileSpec{{0,0},{2,3}}));
   ex::start_detached(m.readwrite(LocalTileIndex(0,0))|ex::then([&](auto){ granted=true; })); usleep(300000); bad+=granted; }
 bad+=!soon([&]{return granted.load();}); return bad; }); }
'''
