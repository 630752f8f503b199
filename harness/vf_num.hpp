// Sequences of doubles that stress summation and moments.
#pragma once
#include "vf.hpp"
#include <algorithm>

namespace vf {
/// a finite sequence whose sum of magnitudes does not overflow
inline std::vector<double>
real_sequence(Ctx& c, size_t maxlen, int& style)
{
  size_t n;
  switch (c.below(6)) {
    case 0: n = c.below(5); break;
    case 1: n = maxlen / 2 + c.below(maxlen / 2 + 1); break;
    default: n = c.below(std::min<size_t>(maxlen, 200)) + 1; break;
  }
  std::vector<double> x(n);
  style = static_cast<int>(c.below(14));
  double big = std::ldexp(1.0 + c.unit(), static_cast<int>(c.in(20, 60)));
  double a = c.real(), b = c.real() * 1e-17;
  double scale = c.coin(1, 5) ? std::ldexp(1.0, static_cast<int>(c.in(-900, 900))) : 1.0;
  for (size_t i = 0; i < n; i++) {
    double v;
    switch (style) {
      case 0: v = c.unit(); break;
      case 1: v = c.unit() - 0.5; break;
      case 2: v = c.real(); break;
      case 3: v = c.real(1.0, 300); break;
      case 4: v = i == 0 ? big : c.unit(); break;                       // small ones lost behind a large one
      case 5: v = i % 2 ? -big + c.unit() : big; break;                 // cancellation
      case 6: v = i == 0 ? big : i + 1 == n ? -big : c.unit(); break;   // large value taken away at the end
      case 7: v = 0.1; break;
      case 8: v = i == 0 ? 1.0 : b; break;                              // each addend below half an ulp
      case 9: v = 1.0 / static_cast<double>(i + 1); break;
      case 10: v = (i % 3 == 0 ? 1.0 : i % 3 == 1 ? 1e100 : -1e100) * (i % 3 == 0 ? c.unit() : 1.0); break;
      case 11: v = a + static_cast<double>(c.below(8)); break;
      case 12: v = std::ldexp(1.0, static_cast<int>(i % 100)) * (c.coin() ? 1 : -1); break;
      default: v = c.coin(1, 4) ? 0.0 : c.coin(1, 10) ? -0.0 : static_cast<double>(c.below(1000)); break;
    }
    if (style != 3 && style != 10)
      v *= scale;
    x[i] = v;
  }
  if (c.coin(1, 8)) std::sort(x.begin(), x.end());
  if (c.coin(1, 8)) std::reverse(x.begin(), x.end());
  if (c.coin(1, 8)) std::sort(x.begin(), x.end(), [](double p, double q) { return std::fabs(p) < std::fabs(q); });
  return x;
}
} // namespace vf
