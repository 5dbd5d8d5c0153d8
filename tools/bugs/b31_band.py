PROPERTY="C31"
EDITS=[('include/dlaf/eigensolver/internal/get_band_size.h', '  for (SizeType div = nb / b_min; div > 1; --div) {\n    if (nb % div == 0)\n      return nb / div;\n  }\n  return nb;', '  const SizeType div = nb / b_min;\n  return div > 1 ? nb / div : nb;')]
NEEDS='a block size which is not a multiple of the smallest band'
BREAKS='the band does not divide the block size'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/tune.h>
int main(int c,char**v){ return demo(c,v,[]{ int bad=0; for(SizeType m: {2,3,100}){ getTuneParameters().eigensolver_min_band=m; for(SizeType nb=1;nb<600;++nb){ SizeType b=eigensolver::internal::getBandSize(nb); bad+= nb%b!=0||(b<m&&b!=nb)||(nb<=m&&b!=nb); } } return bad; }); }
'''
