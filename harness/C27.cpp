#include "matchgen.hpp"
#include "GlobalGroupSpace.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C27 {
using namespace h;

double boundaryRatio(Case& c, int q) { // ratios where the band of some length changes
  int l = std::max(2, q + c.range(-3, 12)), k = c.range(0, std::min(l, 12));
  double r = (double)k / l;
  switch (c.below(3)) { case 0: r = std::nextafter(r, 0); break; case 1: r = std::nextafter(r, 1); break; default:; }
  return std::max(0.0, std::min(1.0, r));
}

bool checkOrder(int q, int n, double ratio) {
  std::vector<int> o = onex::generateTraverseOrder(q, n);
  std::set<int> seen;
  int lastLow = q, lastHigh = q;
  auto text = [&] { std::string s; for (size_t i = 0; i < o.size() && i < 60; i++) s += (i ? " " : "") + num(o[i]); return "query length " + num(q) + ", series length " + num(n) + ", ratio " + num(ratio) + ": order " + s; };
  for (int l : o) {
    CHECK(l >= 2 && l <= n, text() << ": length " << l << " does not exist");
    CHECK(eligible(q, l, ratio), text() << ": length " << l << " is not allowed by the band");
    CHECK(seen.insert(l).second, text() << ": length " << l << " twice");
    if (l < q) { CHECK(l < lastLow, text() << ": " << l << " after " << lastLow); lastLow = l; }
    if (l > q) { CHECK(l > lastHigh, text() << ": " << l << " after " << lastHigh); lastHigh = l; }
  }
  for (int l = 2; l <= n; l++) CHECK(!eligible(q, l, ratio) || seen.count(l), text() << ": length " << l << " is missing");
  if (q <= n) CHECK(!o.empty() && o[0] == q, text() << ": does not start with the query's own length");
  return o.size() > 2 && (int)o.size() < n - 1;
}

void run(Case& c) {
  int form = (int)c.below(3);
  bool some = false;
  if (form == 0) { // all small lengths
    double ratio = c.flip() ? ratioGen(c) : boundaryRatio(c, c.range(2, 30));
    int n = c.range(1, 30);
    DESC(c, "all query lengths up to " << n + 12 << ", series length " << n << ", ratio " << num(ratio) << "\n");
    onex::setWarpingBandRatio(ratio);
    for (int q = 2; q <= n + 12; q++) some |= checkOrder(q, n, ratio);
    c.label("all query lengths");
  } else if (form == 1) {
    int k = c.range(1, 6);
    for (int i = 0; i < k; i++) {
      int q = c.size(2, 1500), n = c.size(1, 1500);
      if (c.chance(1, 3)) n = std::max(1, q + c.range(-3, 3));
      double ratio = c.flip() ? ratioGen(c) : boundaryRatio(c, q);
      DESC(c, "query length " << q << ", series length " << n << ", ratio " << num(ratio) << "\n");
      onex::setWarpingBandRatio(ratio);
      some |= checkOrder(q, n, ratio);
      c.label(q > n ? "query longer than the series" : "query fits");
    }
  } else { // the match can have any allowed length
    int rows = c.range(1, 2), len = c.range(3, 16), kind = c.flip() ? (int)DYADIC : (int)UNIFORM;
    Table t = table(c, rows, len, kind);
    onex::GroupableTimeSeriesSet s;
    load(s, c, t);
    s.groupAllLengths("euclidean", 0);
    double ratio = c.flip() ? ratioGen(c) : boundaryRatio(c, c.range(2, len));
    onex::setWarpingBandRatio(ratio);
    // a subsequence, stretched or compressed to another length
    int l = c.range(2, len), st = (int)c.below(len - l + 1), r = (int)c.below(rows);
    Row x = slice(t[r], st, st + l), q;
    for (int i = 0; i < l; i++) { int rep = c.chance(1, 4) ? 2 : c.chance(1, 5) ? 0 : 1; while (rep--) q.push_back(x[i]); }
    while (q.size() < 2) q.push_back(x[0]);
    DESC(c, show(t) << "\nratio " << num(ratio) << " query " << show(q) << "\n");
    double best = std::numeric_limits<double>::infinity();
    int at = 0, lens = 0;
    for (int k = 2; k <= len; k++) {
      if (!eligible((int)q.size(), k, ratio)) continue;
      lens++;
      for (int i = 0; i < rows; i++) for (int a = 0; a + k <= len; a++) {
        double d = refDtw(q, slice(t[i], a, a + k), ratio);
        if (d < best) { best = d; at = k; }
      }
    }
    try {
      onex::candidate_time_series_t m = s.getBestMatch(makeTS(q));
      checkGenuine(t, q, ratio, m);
      CHECK(close(m.dist, best, TIE, 1e-150), "the match is at " << num(m.dist) << " but a subsequence of length " << at << " is at " << num(best));
    } catch (OnexException& e) {
      CHECK(std::isinf(best), "no match (" << e.what() << ") but a subsequence of length " << at << " is at " << num(best));
    }
    some = lens > 1 && lens < len - 1;
    c.label(at == (int)q.size() ? "match of the same length" : at < (int)q.size() ? "shorter match" : "longer match");
  }
  c.nontrivial(some);
}
} // namespace C27
PBT_PROPERTY("C27", 60, C27::run, h::resetState,
  "query and series lengths up to 1500 (every query length for series up to 30), ratios in [0,1] including those where a band changes; the traversal order is compared with the set of allowed lengths, and matches of stretched and compressed subsequences in datasets with one group per subsequence are compared with an exhaustive search. Non-trivial: more than one but not all lengths are allowed")
