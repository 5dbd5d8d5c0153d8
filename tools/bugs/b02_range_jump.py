PROPERTY="C02"
EDITS=[("include/dlaf/common/range2d.h","  friend IteratorRange2D operator-(IteratorRange2D i, difference_type n) noexcept {\n    return i -= n;","  friend IteratorRange2D operator-(IteratorRange2D i, difference_type n) noexcept {\n    return i += static_cast<IndexT>(-n);")]
NEEDS="a backward jump longer than the index type can express"
BREAKS="it - n jumps by a truncated distance"
DEMO='''#include <dlaf/common/range2d.h>
#include <cstdio>
using namespace dlaf; using namespace dlaf::common;
struct tag;
int main(){ auto r=iterate_range2d(Size2D<int,tag>(70000,70000));
 auto e=r.end(); auto b=e-(e-r.begin());
 bool ok = b==r.begin() && *b==Index2D<int,tag>(0,0);
 std::printf("%d\\n",ok); return ok?0:1; }
'''
