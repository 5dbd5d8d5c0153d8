PROPERTY="C07"
EDITS=[("src/communication/datatypes.cpp","template<> MPI_Datatype mpi_datatype<unsigned long>        ::type = MPI_UNSIGNED_LONG;","template<> MPI_Datatype mpi_datatype<unsigned long>        ::type = MPI_AINT;")]
NEEDS="an order-sensitive reduction (max/min) over unsigned long values beyond the signed range"
BREAKS="unsigned long is mapped to a signed MPI type of the same size: transfers work, comparisons do not"
NP=1
REPO_SRC=["src/communication/datatypes.cpp"]
DEMO='''#include <dlaf/communication/datatypes.h>
#include <cstdio>
int main(int c,char**v){ MPI_Init(&c,&v); unsigned long a=5,b=~0ul-3; MPI_Comm_set_errhandler(MPI_COMM_WORLD,MPI_ERRORS_RETURN);
 MPI_Reduce_local(&a,&b,1,dlaf::comm::mpi_datatype<unsigned long>::type,MPI_MAX); int bad = b!=~0ul-3; std::printf("%lu\\n",b); MPI_Finalize(); return bad; }
'''
