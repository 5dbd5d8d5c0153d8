PROPERTY="C05"
EDITS=[
("include/dlaf/util_math.h","  SizeType idx = std::lround(size * percent / 100.0);","  SizeType idx = std::lround(size * static_cast<float>(percent) / 100.0f);")]
NEEDS="a size above 2^24 and a percentage, so that single precision cannot represent the product"
BREAKS="the index of a percentage is computed in single precision"
DEMO='''#include <dlaf/util_math.h>
#include <cstdio>
int main(){ auto a=dlaf::util::internal::percent_to_index(dlaf::SizeType(33333334),50.0); std::printf("%ld\\n",(long)a); return a==16666667?0:1; }
'''
