PROPERTY="C34"
EDITS=[('src/c_api/utils.cpp', "  return order == 'C' or order == 'c' ? dlaf::common::Ordering::ColumnMajor", "  return order == 'C' ? dlaf::common::Ordering::ColumnMajor")]
NEEDS='a grid created with the lower-case letter for column-major order'
BREAKS="the processes get the coordinates of row-major order, so that the caller's local arrays are taken for other parts of the matrix"
RUNTIME='full'
NP=4
REPO_SRC=['src/c_api/grid.cpp', 'src/c_api/utils.cpp']
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf_c/grid.h>
#include "c_api/utils.h"
int main(int c,char**v){ return demo(c,v,[]{ int r; MPI_Comm_rank(MPI_COMM_WORLD,&r); int x=dlaf_create_grid(MPI_COMM_WORLD,2,2,'c'); auto& g=grid_from_context(x);
 int bad= !(g.rank()==comm::Index2D(r%2,r/2)); dlaf_free_grid(x); return bad; }); }
'''
