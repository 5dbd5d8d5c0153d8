PROPERTY="C03"
EDITS=[("include/dlaf/matrix/util_distribution.h","""  if (rank_to_src == owner_to_src)
    return local_block * tiles_per_block + global_tile % tiles_per_block -
           (may_have_partial_first_block ? tile_offset : 0);

  if (rank_to_src < owner_to_src)
    ++local_block;

  return local_block * tiles_per_block - (may_have_partial_first_block ? tile_offset : 0);""","""  SizeType tile_in_block = 0;
  if (rank_to_src == owner_to_src)
    tile_in_block = global_tile % tiles_per_block;
  else if (rank_to_src < owner_to_src)
    ++local_block;

  may_have_partial_first_block = may_have_partial_first_block && (grid_size == 1 || local_block <= 1);

  return local_block * tiles_per_block + tile_in_block - (may_have_partial_first_block ? tile_offset : 0);""")]
NEEDS="several tiles per block, a tile offset, more than one process and a query beyond the source process' second block"
BREAKS="the first local tile after a global tile forgets the shortened first block on the source process"
DEMO='''#include <dlaf/matrix/util_distribution.h>
#include <cstdio>
using namespace dlaf; using namespace dlaf::util::matrix;
int main(){ int bad=0;
 for(SizeType g=0; g<40; ++g) for(int r=0;r<3;++r){ const SizeType tb=4,off=3; SizeType n=0;
   for(SizeType k=0;k<g;++k) if(int(((k+off)/tb+1)%3)==r) ++n;
   if(next_local_tile_from_global_tile(g,tb,3,r,1,off)!=n) ++bad; }
 std::printf("%d\\n",bad); return bad?1:0; }
'''
