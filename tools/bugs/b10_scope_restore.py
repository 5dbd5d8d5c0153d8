PROPERTY="C10"
EDITS=[("src/common/single_threaded_blas.cpp","  omp_set_num_threads(omp_num_threads);","  if (omp_get_max_threads() == 1)\n    omp_set_num_threads(omp_num_threads);")]
NEEDS="code which changes the thread limit inside a scope"
BREAKS="the previous limit is not restored when it was changed inside the scope"
REPO_SRC=["src/common/single_threaded_blas.cpp"]
DEMO='''#include <omp.h>
#include <cstdio>
#include <dlaf/common/single_threaded_blas.h>
int main(){ omp_set_num_threads(5); { dlaf::common::internal::SingleThreadedBlasScope s; omp_set_num_threads(2); } int n=omp_get_max_threads(); std::printf("%d\\n",n); return n==5?0:1; }
'''
