#pragma once
#include <cassert>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include "sx.hpp"
#include <proxsuite-nlp/fwd.hpp>
#include <proxsuite-nlp/context.hpp>
using VX = Eigen::VectorXd;
using MX = Eigen::MatrixXd;
using namespace proxsuite::nlp;
inline MX sym_mat(int r, int c, const std::string &n) { MX m(r, c); sx::fill(m, n); return m; }
inline VX sym_vec(int r, const std::string &n) { VX m(r); sx::fill(m, n); return m; }
inline VX sym_vec(int r, const std::string &n, double lo, double hi) { VX m(r); sx::fill(m, n, lo, hi); return m; }
inline VX poison_vec(int r) { return VX(r); }
inline std::string S(int i) { return std::to_string(i); }
