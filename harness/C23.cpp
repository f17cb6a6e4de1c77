#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C23 {
using namespace h;

struct Ref { double dist; int idx, start, len; };
bool before(const Ref& a, const Ref& b) {
  if (a.dist != b.dist) return a.dist < b.dist;
  if (a.idx != b.idx) return a.idx < b.idx;
  if (a.start != b.start) return a.start < b.start;
  return a.len < b.len;
}
std::string show(const Ref& r) { return num(r.dist) + " @" + num(r.idx) + "," + num(r.start) + "+" + num(r.len); }

// Distances closer than the noise: whatever the order, it must be one.
void noise(Case& c) {
  int n = c.range(3, 9);
  double base = c.flip() ? 0 : c.flip() ? c.unit() : c.unit() * 1e-6, step = c.pick(std::vector<double>{1e-13, 3e-13, 5e-13, 6e-13, 9e-13, 1e-12});
  data_t buf[8] = {0, 1, 2, 3, 4, 5, 6, 7};
  std::vector<onex::candidate_time_series_t> v;
  for (int i = 0; i < n; i++) {
    int idx = (int)c.below(4), start = (int)c.below(3), len = 1 + (int)c.below(3);
    v.push_back(onex::candidate_time_series_t(TimeSeries(buf, idx, start, start + len), (data_t)(base + step * c.range(0, 6))));
    DESC(c, num(v.back().dist) << " @" << idx << "," << start << "+" << len << "\n");
  }
  auto eq = [&](int a, int b) { return !(v[a] < v[b]) && !(v[b] < v[a]); };
  for (int a = 0; a < n; a++) {
    CHECK(!(v[a] < v[a]), "candidate " << a << " is ordered before itself");
    for (int b = 0; b < n; b++) {
      CHECK(!(v[a] < v[b] && v[b] < v[a]), "candidates " << a << " and " << b << " are each ordered before the other");
      for (int k = 0; k < n; k++) {
        CHECK(!(v[a] < v[b] && v[b] < v[k]) || v[a] < v[k], "candidate " << a << " is before " << b << " and " << b << " before " << k << ", but " << a << " is not before " << k);
        CHECK(!(eq(a, b) && eq(b, k)) || eq(a, k), "candidates " << a << ", " << b << " and " << b << ", " << k << " are equivalent, but " << a << ", " << k << " are not");
      }
    }
  }
  auto s = v;
  std::sort(s.begin(), s.end());
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) CHECK(!(s[b] < s[a]), "sorted candidates " << a << " and " << b << " are in the wrong order");
  c.label("within the noise");
  c.nontrivial();
}

void run(Case& c) {
  if (c.chance(1, 5)) return noise(c);
  // distances: some base values, separated by more than the noise of 1e-12 (or equal)
  int form = (int)c.below(7), nd = c.range(1, 6);
  std::vector<double> d;
  double base = form == 0 ? 0 : form == 1 ? c.unit() : form == 2 ? c.unit() * 1e-9 : form == 3 ? c.unit() * 1e6 : form == 4 ? c.range(0, 5) : c.unit() * 10;
  for (int i = 0; i < nd; i++) {
    double v = base;
    if (i) switch (c.below(5)) {
      case 0: v = base + i; break;
      case 1: v = base + i * 1e-3; break;
      case 2: v = base + i * 4e-12; break;
      case 3: v = base + i * 1e-7; break;
      case 4: if (c.chance(1, 4)) { v = std::numeric_limits<double>::infinity(); break; } // fall through
      default: v = c.unit() * std::pow(10.0, c.range(-9, 9));
    }
    data_t f = (data_t)v;
    bool okay = true;
    if (std::isinf(f)) c.label("infinite distance");
    for (double o : d) if (o != f && std::fabs(o - f) <= 1.5e-12) okay = false;
    if (okay) d.push_back(f);
  }
  int n = c.size(2, 24), maxIdx = c.range(1, 4), maxStart = c.range(1, 4), maxLen = c.range(1, 4);
  if (c.chance(1, 6)) maxIdx = 100000;
  data_t buf[16];
  for (auto& x : buf) x = value(c, INTS);
  std::vector<Ref> r;
  std::vector<onex::candidate_time_series_t> v;
  for (int i = 0; i < n; i++) {
    Ref x{d[c.below(d.size())], (int)c.below(maxIdx), (int)c.below(maxStart), 1 + (int)c.below(maxLen)};
    r.push_back(x);
    v.push_back(onex::candidate_time_series_t(TimeSeries(buf, x.idx, x.start, x.start + x.len), (data_t)x.dist));
    DESC(c, show(x) << "\n");
  }
  bool tie = false, tiePos = false;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    bool got = v[i] < v[j], want = before(r[i], r[j]);
    CHECK(got == want, show(r[i]) << (got ? " is ordered before " : " is not ordered before ") << show(r[j]));
    if (i != j && r[i].dist == r[j].dist) { tie = true; if (r[i].idx == r[j].idx) tiePos = true; }
  }
  std::vector<onex::candidate_time_series_t> s(v);
  std::sort(s.begin(), s.end());
  std::vector<Ref> q(r);
  std::sort(q.begin(), q.end(), before);
  for (int i = 0; i < n; i++) {
    Ref g{(double)s[i].dist, s[i].data.getIndex(), s[i].data.getStart(), s[i].data.getLength()};
    CHECK(!before(g, q[i]) && !before(q[i], g), "sorting puts " << show(g) << " at position " << i << " instead of " << show(q[i]));
  }
  // the smallest is the same in any order
  std::rotate(v.begin(), v.begin() + c.below(n), v.end());
  auto m = *std::min_element(v.begin(), v.end());
  Ref g{(double)m.dist, m.data.getIndex(), m.data.getStart(), m.data.getLength()};
  CHECK(!before(g, q[0]) && !before(q[0], g), "the minimum is " << show(g) << " instead of " << show(q[0]));
  if (tie) c.label("equal distances");
  if (tiePos) c.label("equal distance and series");
  double gap = 1e300;
  for (double a : d) for (double b : d) if (a != b) gap = std::min(gap, std::fabs(a - b));
  c.label(gap < 1e-11 ? "distances 1e-12 apart" : gap < 1e-2 ? "distances less than 0.01 apart" : gap < 1 ? "distances less than 1 apart" : "other distances");
  c.nontrivial(tie && d.size() > 1);
}
} // namespace C23
PBT_PROPERTY("C23", 100, C23::run, h::resetState,
  "lists of 2-24 candidates with 1-6 distinct distances of any magnitude, equal or at least 1.5e-12 apart, and small ranges of indices, starts and lengths; every pair and the sorted list are compared with a reference order; and lists with distances closer than 1e-12, whose order must be a strict weak order. Non-trivial: two candidates at equal distance and more than one distance")
