#include "dtwgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C08 {
using namespace h;

void run(Case& c) {
  bool big = c.chance(1, 150), lng = c.chance(1, 1000);
  const onex::dist_t dist = onex::getDistance("euclidean_dtw");
  int k = lng ? 1 : c.range(1, 4);
  bool nt = false;
  double ratio = 0.1;
  for (int q = 0; q < k; q++) {
    if (c.chance(3, 4)) {
      ratio = ratioGen(c);
      if (c.flip()) onex::setWarpingBandRatio(ratio);
      else { onex::OnexAPI api; api.setWarpingBandRatio(ratio); }
    }
    Pair p = pairGen(c, lng ? 1000 : big ? 250 : 28);
    int m = (int)p.a.size(), n = (int)p.b.size(), mx = std::max(m, n);
    int r = refBand(mx, ratio);
    double want = refDtw(p.a, p.b, ratio);
    TimeSeries A = makeTS(p.a), B = makeTS(p.b);
    double dr = dtwBound(c, want);
    DESC(c, "ratio " << num(ratio) << " band " << r << "\na " << show(p.a) << "\nb " << show(p.b) << "\nbound " << num(dr) << " expected " << num(want) << "\n");
    CHECK(onex::calculateWarpingBandSize(mx) == r, "band of length " << mx << " is " << onex::calculateWarpingBandSize(mx) << " instead of " << r);
    double got = dist(A, B, INF), rev = dist(B, A, INF);
    CHECK(close(got, want, RTOL, 1e-150), "distance " << num(got) << " instead of " << num(want) << " (band " << r << ", lengths " << m << " and " << n << ")");
    CHECK(close(rev, want, RTOL, 1e-150), "reversed distance " << num(rev) << " instead of " << num(want) << " (band " << r << ", lengths " << n << " and " << m << ")");
    CHECK(std::isinf(want) == (std::abs(m - n) > r), "reference inconsistent");
    checkBounded(onex::warpedDistance(A, B, (data_t)dr), want, dr, "distance");
    checkBounded(onex::warpedDistance(B, A, (data_t)dr), want, dr, "reversed distance");
    if (r == 0 && m == n) { // no warping: the plain difference
      double e = refEuclid(p.a, p.b) * std::sqrt((double)m) / (2 * m);
      CHECK(close(got, e, RTOL, 1e-150), "without warping " << num(got) << " instead of " << num(e));
    }
    if (p.a == p.b) CHECK(got == 0, "distance " << num(got) << " between equal sequences");
    // a bound that equals the distance
    if (c.chance(1, 3)) {
      ExactPair e = exactPair(c);
      TimeSeries EA = makeTS(e.a), EB = makeTS(e.b);
      DESC(c, "a " << show(e.a) << "\nb " << show(e.b) << "\nbound " << num(e.dist) << "\n");
      double at = onex::warpedDistance(EA, EB, (data_t)e.dist);
      CHECK(at == e.dist, "with a bound of exactly the distance " << num(e.dist) << " it becomes " << num(at));
      c.label("bound equals distance");
    }
    // as views into a dataset
    if (q == 0 && c.chance(1, 3)) {
      Table t(1, p.a);
      onex::TimeSeriesSet s;
      load(s, c, t);
      double v = s.distanceBetween(0, 0, m, B, "euclidean_dtw");
      CHECK(close(v, want, RTOL, 1e-150), "distanceBetween gives " << num(v) << " instead of " << num(want));
    }
    // both sides of a ratio at which the band changes, one computation after the other
    if (c.chance(1, 3)) {
      bool edge = c.flip();
      for (int side = 0; side < (edge ? 2 : 3); side++) {
        ratio = edge ? ratioEdge(c, mx) : ratioGen(c);
        onex::setWarpingBandRatio(ratio);
        double w = refDtw(p.a, p.b, ratio);
        DESC(c, "ratio " << num(ratio) << " band " << refBand(mx, ratio) << " expected " << num(w) << "\n");
        double g = side ? dist(A, B, INF) : onex::cascadeDistance(A, B, INF);
        CHECK(close(g, w, RTOL, 1e-150), "distance " << num(g) << " instead of " << num(w) << " after setting the ratio to " << num(ratio));
      }
      c.label(edge ? "ratios at a band edge" : "ratios in a row");
    }
    c.label(m == n ? "equal lengths" : std::isinf(want) ? "no alignment" : "different lengths");
    if (std::isfinite(want)) {
      c.label(std::isinf(dr) ? "no bound" : want <= dr ? "bound above value" : "bound below value");
      double none = std::numeric_limits<double>::infinity();
      if (m == n) none = refDtw(p.a, p.b, 0);
      if (want > 0 && r > 0 && want < none * (1 - 1e-6)) { nt = true; c.label("warping pays"); }
    }
  }
  if (big) c.label("large");
  if (lng) c.label("long");
  c.nontrivial(nt);
}
} // namespace C08
PBT_PROPERTY("C08", 50, C08::run, h::resetState,
  "pairs of sequences (2-28 points, sometimes up to 250, rarely up to 1000; unrelated, warped, shifted and edited copies), band ratio changed between computations, dropout bounds below, near and above; compared with a full-matrix banded reference. Non-trivial: finite non-zero distance that is smaller than without warping (or lengths differ)")
