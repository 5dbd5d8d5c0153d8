#pragma once
#include <umpire/strategy/PoolCoalesceHeuristic.hpp>
namespace umpire::strategy {
struct QuickPool {
  static PoolCoalesceHeuristic<QuickPool> percent_releasable_hwm(int p) { return {double(p)}; }
  static PoolCoalesceHeuristic<QuickPool> percent_releasable(int p) { return {double(p)}; }
};
}
