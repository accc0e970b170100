#pragma once
#include <pinocchio/stub.hpp>
namespace pinocchio {
template <typename S, int O = 0> struct ModelTpl {
  int nq = 4, nv = 3;
  S c = 0.5; // which group of the family
};
} // namespace pinocchio
