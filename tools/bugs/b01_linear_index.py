PROPERTY="C01"
EDITS=[("include/dlaf/common/index2d.h","  SizeType linear_index = sum(mul(index.col(), dims.rows()), index.row());","  SizeType linear_index = sum(index.col() * dims.rows(), index.row());")]
NEEDS="a grid with a narrow index type and more cells than this type can count, in column-major order"
BREAKS="the column-major linear index is computed in the index type and wraps"
DEMO='''#include <dlaf/common/index2d.h>
#include <cstdio>
using namespace dlaf; using namespace dlaf::common;
struct tag;
int main(){ Size2D<int,tag> s(70000,70000); Index2D<int,tag> i(12345,69999);
 auto l=computeLinearIndex<SizeType>(Ordering::ColumnMajor,i,s);
 SizeType want=SizeType(69999)*70000+12345; std::printf("%ld %ld\\n",(long)l,(long)want);
 return l==want?0:1; }
'''
