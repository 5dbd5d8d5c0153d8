PROPERTY="C08"
EDITS=[("include/dlaf/communication/sync/all_reduce.h","""  // if the input buffer has been used, initialize it with input values
  if (buffer_inout)
    common::copy(inout, buffer_inout);
""","""  // if the input buffer has been used, initialize it with input values
  if (buffer_inout && communicator.rank() < 3)
    common::copy(inout, buffer_inout);
""")]
NEEDS="an in-place all-reduce of strided data on at least four ranks"
BREAKS="ranks beyond the third contribute an uninitialised buffer"
NP=4
REPO_SRC=["src/communication/communicator.cpp","src/communication/communicator_impl.cpp","src/communication/datatypes.cpp"]
DEMO='''#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/sync/all_reduce.h>
#include <cstdio>
#include <cstdlib>
using namespace dlaf; using namespace dlaf::common;
int main(int c,char**v){ MPI_Init(&c,&v); int bad=0; { comm::Communicator w(MPI_COMM_WORLD);
 for(int k=0;k<3;++k){ long a[12]; for(int i=0;i<12;++i) a[i]=1000*(w.rank()+1)+i; comm::sync::allReduceInPlace(w,MPI_SUM,DataDescriptor<long>(a,3,2,5));
 for(int i=0;i<12;++i){ bool in=i%5<2; long want= in? 10000+4*i : 1000*(w.rank()+1)+i; if(a[i]!=want) ++bad; } }
 int all=0; MPI_Allreduce(&bad,&all,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); bad=all; }
 MPI_Finalize(); return bad?1:0; }
'''
