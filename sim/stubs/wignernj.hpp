// Stand-in for libwignernj (not available offline): the integral of three
// spherical harmonics from the Racah formula in long double. Arguments are
// doubled angular momenta, as in the real library.
#pragma once
#include <algorithm>
#include <cmath>
namespace wignernj {
namespace detail {
inline long double lf(int n) { return std::lgamma((long double)n + 1.0L); }
inline long double w3j(int j1, int j2, int j3, int m1, int m2, int m3) {
  if (m1 + m2 + m3 != 0 || std::abs(m1) > j1 || std::abs(m2) > j2 || std::abs(m3) > j3) return 0;
  if (j3 < std::abs(j1 - j2) || j3 > j1 + j2) return 0;
  long double pre = 0.5L * (lf(j1 + j2 - j3) + lf(j1 - j2 + j3) + lf(-j1 + j2 + j3) - lf(j1 + j2 + j3 + 1) +
                            lf(j1 + m1) + lf(j1 - m1) + lf(j2 + m2) + lf(j2 - m2) + lf(j3 + m3) + lf(j3 - m3));
  int kmin = std::max({0, j2 - j3 - m1, j1 - j3 + m2});
  int kmax = std::min({j1 + j2 - j3, j1 - m1, j2 + m2});
  long double s = 0;
  for (int k = kmin; k <= kmax; k++) {
    long double t = pre - (lf(k) + lf(j1 + j2 - j3 - k) + lf(j1 - m1 - k) + lf(j2 + m2 - k) + lf(j3 - j2 + m1 + k) + lf(j3 - j1 - m2 + k));
    s += ((k & 1) ? -1.0L : 1.0L) * std::exp(t);
  }
  return (((j1 - j2 - m3) & 1) ? -1.0L : 1.0L) * s;
}
}
template <typename T> T gaunt(int tl1, int tm1, int tl2, int tm2, int tl3, int tm3) {
  int l1 = tl1 / 2, l2 = tl2 / 2, l3 = tl3 / 2, m1 = tm1 / 2, m2 = tm2 / 2, m3 = tm3 / 2;
  if ((l1 + l2 + l3) & 1) return T(0);
  long double n = std::sqrt((2.0L * l1 + 1) * (2 * l2 + 1) * (2 * l3 + 1) / (4 * 3.14159265358979323846264338327950288L));
  return (T)(n * detail::w3j(l1, l2, l3, 0, 0, 0) * detail::w3j(l1, l2, l3, m1, m2, m3));
}
}
