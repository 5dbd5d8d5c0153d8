// assertion levels: see c39_levels.hpp
#undef DLAF_ASSERT_ENABLE
#define DLAF_ASSERT_ENABLE
#undef DLAF_ASSERT_MODERATE_ENABLE
#undef DLAF_ASSERT_HEAVY_ENABLE
#include <dlaf/common/assert.h>
#include "c39_levels.hpp"
C39_FUNCTIONS(only_plain)
