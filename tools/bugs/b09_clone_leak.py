PROPERTY="C09"
EDITS=[("include/dlaf/communication/communicator.h","    return Communicator(comm_clone, managed{});","    return Communicator(comm_clone);")]
NEEDS="many clones made and dropped over a long run"
BREAKS="cloned communicators are never freed"
NP=2
REPO_SRC=["src/communication/communicator.cpp","src/communication/communicator_impl.cpp"]
DEMO='''#include <dlaf/communication/communicator.h>
#include <cstdio>
static int freed=0; extern "C" int MPI_Comm_free(MPI_Comm*c){ ++freed; return PMPI_Comm_free(c);}
int main(int c,char**v){ MPI_Init(&c,&v); { dlaf::comm::Communicator w(MPI_COMM_WORLD); for(int i=0;i<5;++i){ auto k=w.clone(); auto l=k; } }
 int bad=freed!=5; MPI_Finalize(); std::printf("%d\\n",freed); return bad; }
'''
