#pragma once
#include "wignernj.hpp"
inline __float128 gaunt_q(int a, int b, int c, int d, int e, int f) { return wignernj::gaunt<long double>(a, b, c, d, e, f); }
