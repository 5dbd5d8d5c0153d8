PROPERTY="C21"
EDITS=[('include/dlaf/util_matrix.h', '      seed = tile_origin.row() + tile_origin.col() * matrix.size().rows();', '      seed = tile_origin.row() + tile_origin.col() * matrix.distribution().local_size().rows();')]
NEEDS='a random Hermitian matrix on more than one process row'
BREAKS='the random content depends on the number of processes, and mirrored tiles no longer agree'
RUNTIME='full'
NP=2
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/util_matrix.h>
int main(int c,char**v){ return demo(c,v,[]{ comm::CommunicatorGrid g(MPI_COMM_WORLD,2,1,common::Ordering::RowMajor);
 Distribution d(GlobalElementSize(10,10),TileElementSize(3,3),g.size(),g.rank(),comm::Index2D(0,0)); Mat m(d); matrix::util::set_random_hermitian(m); auto a=gather(m);
 Mat l(LocalElementSize(10,10),TileElementSize(3,3)); matrix::util::set_random_hermitian(l);
 int bad=wrong(l,[&](SizeType i,SizeType j,double x){ return x==a[size_t(i+10*j)]; });
 for(int i=0;i<10;++i) for(int j=0;j<10;++j) bad+=a[size_t(i+10*j)]!=a[size_t(j+10*i)]; return bad; }); }
'''
