PROPERTY="C06"
EDITS=[("include/dlaf/common/data.h","""        auto ptr_block_start = data_pointer(src) + i_block * data_blocksize(dest);
        auto dest_block_start = data_pointer(dest) + i_block * data_stride(dest);
        std::copy(ptr_block_start, ptr_block_start + data_blocksize(dest), dest_block_start);""","""        auto ptr_block_start = data_pointer(src) + i_block * data_blocksize(dest);
        auto dest_block_start = data_pointer(dest) + i_block * data_stride(dest);
        // short gaps are cheaper to run over: the next block overwrites what belongs to it
        const SizeType left = data_blocksize(src) - i_block * data_blocksize(dest);
        const SizeType gap = data_stride(dest) - data_blocksize(dest);
        const SizeType len = i_block + 1 < data_nblocks(dest) && gap <= 2 && left >= data_stride(dest)
                                 ? data_stride(dest)
                                 : data_blocksize(dest);
        std::copy(ptr_block_start, ptr_block_start + len, dest_block_start);""")]
NEEDS="a strided destination with a short gap, and somebody else's data in the gap"
BREAKS="copying contiguous data to a strided destination overwrites the gaps between the blocks"
DEMO='''#include <dlaf/common/data_descriptor.h>
#include <cstdio>
using namespace dlaf::common;
int main(){ int s[12], d[15]; for(int i=0;i<12;++i) s[i]=100+i; for(int i=0;i<15;++i) d[i]=-i;
 copy(DataDescriptor<const int>(DataDescriptor<int>(s,12)), DataDescriptor<int>(d,3,4,5));
 int bad=0; for(int i=0;i<15;++i){ int want = i%5==4 ? -i : 100+i/5*4+i%5; if(d[i]!=want) ++bad; }
 std::printf("%d\\n",bad); return bad?1:0; }
'''
