#include "dtwgen.hpp"
#include "lib/trillionDTW.h"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C09 {
using namespace h;

void checkEnvelope(const Row& x, int r, const data_t* lo, const data_t* up, const char* what) {
  int n = (int)x.size();
  for (int i = 0; i < n; i++) {
    data_t a = x[i], b = x[i];
    for (long long j = std::max<long long>(0, (long long)i - r); j <= std::min<long long>(n - 1, (long long)i + r); j++) { a = std::min(a, x[j]); b = std::max(b, x[j]); }
    CHECK(lo[i] == a, what << ": lower envelope at " << i << " for band " << r << " is " << num(lo[i]) << " instead of " << num(a));
    CHECK(up[i] == b, what << ": upper envelope at " << i << " for band " << r << " is " << num(up[i]) << " instead of " << num(b));
  }
}

// Envelopes of sequences longer than small counters, against a sorted window.
void huge(Case& c) {
  int n = c.pick(std::vector<int>{20000, 33000, 66000, 70000}) + c.range(0, 500);
  int r = c.chance(1, 3) ? (int)c.below(n) : c.range(0, 2000);
  Row x = bulk(c, n);
  DESC(c, n << " points, band " << r << "\n");
  TimeSeries t = makeTS(x);
  const data_t *lo, *up;
  if (c.flip()) { lo = t.getKeoghLower(r); up = t.getKeoghUpper(r); } else { up = t.getKeoghUpper(r); lo = t.getKeoghLower(r); }
  std::multiset<data_t> w;
  int e = 0;
  for (int i = 0; i < n; i++) {
    while (e < n && e <= (long long)i + r) w.insert(x[e++]);
    if (i - r > 0) w.erase(w.find(x[i - r - 1]));
    CHECK(lo[i] == *w.begin(), "lower envelope at " << i << " for band " << r << " is " << num(lo[i]) << " instead of " << num(*w.begin()));
    CHECK(up[i] == *w.rbegin(), "upper envelope at " << i << " for band " << r << " is " << num(up[i]) << " instead of " << num(*w.rbegin()));
  }
  // a shifted copy has a distance that the bounds must not exceed: at most that of the diagonal
  Row y = x;
  for (auto& v : y) v += (data_t)0.5;
  TimeSeries u = makeTS(y);
  onex::setWarpingBandRatio((double)r / n);
  double diag = std::sqrt(0.25 * n) / (2.0 * n);
  CHECK(onex::keoghLowerBound(t, u, INF) <= diag * (1 + 1e3 * RTOL) && onex::crossKeoghLowerBound(t, u, INF) <= diag * (1 + 1e3 * RTOL), "a Keogh lower bound exceeds " << num(diag));
  c.label("huge");
  c.nontrivial(r > 0);
}

void run(Case& c) {
  if (c.chance(1, 4000)) return huge(c);
  bool big = c.chance(1, 200);
  int k = c.range(1, 4);
  double ratio = 0.1;
  bool nt = false;
  // pool of sequences that keep their envelopes between uses
  std::vector<Row> rows;
  std::vector<std::unique_ptr<TimeSeries>> ts;
  Pair p0 = pairGen(c, big ? 200 : 24);
  rows.push_back(p0.a);
  rows.push_back(p0.b);
  if (c.flip()) { Pair p1 = pairGen(c, big ? 200 : 24); rows.push_back(p1.a); rows.push_back(p1.b); }
  for (auto& r : rows) ts.emplace_back(new TimeSeries(makeTS(r)));
  for (auto& r : rows) DESC(c, "seq " << show(r) << "\n");
  for (int q = 0; q < k; q++) {
    if (c.chance(1, 2)) { // envelopes for an arbitrary width
      size_t i = c.below(rows.size());
      int n = (int)rows[i].size();
      int r = c.chance(1, 8) ? n + c.range(0, 3) : (int)c.below(n);
      DESC(c, "envelope of " << i << " for band " << r << "\n");
      bool lowerFirst = c.flip();
      const data_t *lo, *up;
      if (lowerFirst) { lo = ts[i]->getKeoghLower(r); up = ts[i]->getKeoghUpper(r); }
      else { up = ts[i]->getKeoghUpper(r); lo = ts[i]->getKeoghLower(r); }
      checkEnvelope(rows[i], r, lo, up, "sequence");
      // the library function on exactly sized buffers
      int rr = std::min(r, n - 1);
      std::unique_ptr<data_t[]> x(new data_t[n]), l(new data_t[n]), u(new data_t[n]);
      for (int j = 0; j < n; j++) x[j] = rows[i][j];
      lower_upper_lemire(x.get(), n, rr, l.get(), u.get());
      checkEnvelope(rows[i], rr, l.get(), u.get(), "lower_upper_lemire");
      if (rr > 0 && rr < n - 1) c.label("inner band");
    }
    if (c.chance(2, 3)) { ratio = ratioGen(c); onex::setWarpingBandRatio(ratio); }
    size_t i = c.below(rows.size()), j = c.below(rows.size());
    const TimeSeries &A = *ts[i], &B = *ts[j];
    double want = refDtw(rows[i], rows[j], ratio);
    double dr = dtwBound(c, want);
    DESC(c, "ratio " << num(ratio) << " seq " << i << " with " << j << " bound " << num(dr) << " distance " << num(want) << "\n");
    double lim = want * (1 + 10 * RTOL) + 1e-150;
    double lb = onex::keoghLowerBound(A, B, INF);
    CHECK(lb >= 0 && lb <= lim, "Keogh lower bound " << num(lb) << " exceeds the distance " << num(want));
    double cb = onex::crossKeoghLowerBound(A, B, INF);
    CHECK(cb >= 0 && cb <= lim, "cross Keogh lower bound " << num(cb) << " exceeds the distance " << num(want));
    // with a bound: whenever a lower bound exceeds the bound, so does the distance
    double lbd = onex::keoghLowerBound(A, B, (data_t)dr);
    CHECK(lbd <= lim || want > dr * (1 - 10 * RTOL), "Keogh lower bound with bound " << num(dr) << " is " << num(lbd) << " for the distance " << num(want));
    double cbd = onex::crossKeoghLowerBound(A, B, (data_t)dr);
    CHECK(cbd <= lim || want > dr * (1 - 10 * RTOL), "cross Keogh lower bound with bound " << num(dr) << " is " << num(cbd) << " for the distance " << num(want));
    checkBounded(onex::cascadeDistance(A, B, (data_t)dr), want, dr, "cascaded distance");
    double full = onex::cascadeDistance(B, A, INF);
    CHECK(close(full, want, RTOL, 1e-150), "cascaded distance " << num(full) << " instead of " << num(want));
    if (c.chance(1, 3)) { // a bound that equals the distance
      ExactPair e = exactPair(c);
      TimeSeries EA = makeTS(e.a), EB = makeTS(e.b);
      DESC(c, "a " << show(e.a) << "\nb " << show(e.b) << "\nbound " << num(e.dist) << "\n");
      double at = onex::cascadeDistance(EA, EB, (data_t)e.dist);
      CHECK(at == e.dist, "with a bound of exactly the distance " << num(e.dist) << " the cascaded distance becomes " << num(at));
      c.label("bound equals distance");
    }
    if (std::isfinite(want) && want > 0 && lb > 0) { nt = true; c.label("positive lower bound"); }
    if (rows[i].size() != rows[j].size()) c.label("different lengths");
    if (want > dr) c.label("distance beyond bound");
  }
  if (big) c.label("large");
  c.nontrivial(nt);
}
} // namespace C09
PBT_PROPERTY("C09", 50, C09::run, h::resetState,
  "pool of 2-4 sequences (2-24 points, sometimes up to 200) used repeatedly with changing band ratios: envelopes against a windowed minimum/maximum, lower bounds and the cascade against the reference distance, with and without bounds. Non-trivial: a positive lower bound under a finite distance")
