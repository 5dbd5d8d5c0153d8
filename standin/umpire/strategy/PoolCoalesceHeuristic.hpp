#pragma once
namespace umpire::strategy {
template <class T>
struct PoolCoalesceHeuristic {
  double v = 0;
};
}
