PROPERTY="C39"
EDITS=[("include/dlaf/communication/error.h","  if (err != MPI_SUCCESS) {","  if (err > MPI_SUCCESS && err <= MPI_ERR_LASTCODE) {")]
NEEDS="an MPI error code beyond the predefined ones (added by the application or an I/O or one-sided layer)"
BREAKS="an MPI call that fails with such a code is taken for a success and the program goes on"
NP=1
DEMO='''#include <dlaf/communication/error.h>
#include <cstdlib>
static int aborts=0;
extern "C" int MPI_Abort(MPI_Comm,int){ ++aborts; PMPI_Finalize(); std::_Exit(0); }
int main(int c,char**v){ MPI_Init(&c,&v); int cl=0,code=0; MPI_Add_error_class(&cl); MPI_Add_error_code(cl,&code); MPI_Add_error_string(code,"own error");
 DLAF_MPI_CHECK_ERROR(code);
 MPI_Finalize(); return 1; }
'''
