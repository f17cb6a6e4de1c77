// Pairs of sequences, dropout bounds and checks used by the distance properties.
#pragma once
#include "common.hpp"

namespace h {

struct Pair { Row a, b; };

// Two sequences that are related (warped copy), unrelated, or equal up to a few points.
inline Pair pairGen(Case& c, int maxLen) {
  int kind = (int)c.below(NKINDS);
  int m = c.size(2, maxLen), n;
  switch (c.below(5)) {
    case 0: case 1: n = m; break;
    case 2: n = std::max(2, m + c.range(0, 6) - 3); break;
    default: n = c.size(2, maxLen);
  }
  Pair p;
  p.a = row(c, m, kind);
  switch (c.below(5)) {
    case 4: { // copy shifted in time by up to half of its length
      int by = c.range(0, std::max(m, n) / 2), sign = c.flip() ? 1 : -1;
      for (int j = 0; j < n; j++) p.b.push_back(p.a[std::min(m - 1, std::max(0, j + sign * by))]);
      break;
    }
    case 0: { // time-warped copy of a
      int i = 0;
      for (int j = 0; j < n; j++) {
        p.b.push_back(p.a[std::min(i, m - 1)]);
        i += (int)c.below(3);
      }
      break;
    }
    case 1: // copy with some points changed
      for (int j = 0; j < n; j++) p.b.push_back(p.a[j % m]);
      for (int k = 0; k < 2; k++) p.b[c.below(n)] = value(c, kind);
      break;
    default: p.b = row(c, n, kind);
  }
  return p;
}

// Two sequences whose distance is exact in floating point whatever the band: equal but for their
// ends (differences u or, at both ends, 3u and 4u), with a power of two as length.
struct ExactPair { Row a, b; double dist; };
inline ExactPair exactPair(Case& c) {
  ExactPair p;
  int L = 1 << c.range(1, 5), how = (int)c.below(3);
  double u = (1 << c.below(5)) / 8.0 * c.range(1, 5) * scaleOf(c);
  p.a = row(c, L, INTS);
  p.b = p.a;
  if (how == 0) p.b[0] += (data_t)u;
  else if (how == 1) p.b[L - 1] -= (data_t)u;
  else { p.b[0] += (data_t)(3 * u); p.b[L - 1] -= (data_t)(4 * u); }
  p.dist = (how == 2 ? 5 * u : u) / (2 * L);
  if (c.flip()) std::swap(p.a, p.b);
  return p;
}

// How close to the value a bound can be before rounding decides between the value and infinity.
inline double margin(double d) { return d < (sizeof(data_t) == 4 ? 1e-12 : 1e-140) ? 1e-6 + 2 * RTOL : 2 * RTOL; }

inline double dtwBound(Case& c, double d) {
  if (std::isinf(d)) return c.flip() ? 1 : std::numeric_limits<double>::infinity();
  switch (c.below(8)) {
    case 6: return d * (1 + 1.5 * margin(d));
    case 7: return d * (1 - 1.5 * margin(d));
    case 0: return d * (1 + 1e-3);
    case 1: return d * (1 - 1e-3);
    case 2: return d * (0.1 + c.unit() * 2);
    case 3: return 0;
    case 4: return d * 100 + 1;
    default: return std::numeric_limits<double>::infinity();
  }
}

inline void checkBounded(double got, double want, double dr, const char* what) {
  bool isInf = got == std::numeric_limits<double>::infinity();
  if (want <= dr && !close(dr, want, margin(want))) CHECK(close(got, want, RTOL, 1e-150), what << " with bound " << num(dr) << " gives " << num(got) << " instead of " << num(want));
  else CHECK(isInf || close(got, want, RTOL, 1e-150), what << " with bound " << num(dr) << " gives " << num(got) << " instead of " << num(want) << " or infinity");
}

} // namespace h
