#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C07 {
using namespace h;

// A dropout bound around the true value, never closer to it than rounding can matter.
double margin(double d, int l) {
  bool tiny = d < (sizeof(data_t) == 4 ? 1e-12 : 1e-140);
  return tiny ? 1e-6 + 2 * RTOL : 8.0 * (l + 16) * std::numeric_limits<data_t>::epsilon();
}

double bound(Case& c, double d, int l) {
  switch (c.below(9)) {
    case 7: return d * (1 + 1.5 * margin(d, l));
    case 8: return d * (1 - 1.5 * margin(d, l));
    case 0: return d * (1 + 1e-3);
    case 1: return d * (1 - 1e-3);
    case 2: return d * (0.1 + c.unit() * 2);
    case 3: return 0;
    case 4: return d * 100 + 1;
    case 5: return std::numeric_limits<data_t>::max() / 4;
    default: return std::numeric_limits<double>::infinity();
  }
}

void run(Case& c) {
  bool big = c.chance(1, 50);
  int kind = (int)c.below(NKINDS);
  bool huge = c.chance(1, 2000);
  int rows = c.range(1, 4), len = huge ? 1 : big ? c.range(200, 3000) : c.size(1, 40);
  Table t = huge ? hugeTable(c, false) : table(c, rows, len, kind);
  if (huge) { big = true; rows = (int)t.size(); len = (int)t[0].size(); }
  onex::TimeSeriesSet s;
  load(s, c, t);
  const onex::dist_t dist = onex::getDistance("euclidean");
  int k = c.range(1, 6);
  bool interesting = false;
  for (int q = 0; q < k; q++) {
    int l = huge && c.flip() ? len - c.range(0, 5) : c.range(1, len);
    int i = (int)c.below(rows), j = (int)c.below(rows);
    int a = (int)c.below(len - l + 1), b = (int)c.below(len - l + 1);
    Row x = slice(t[i], a, a + l), y = slice(t[j], b, b + l);
    bool own = c.flip();
    if (own && c.flip()) y = row(c, l, kind);
    double want = refEuclid(x, y);
    TimeSeries X = s.getTimeSeries(i, a, a + l);
    TimeSeries Y = own ? makeTS(y) : s.getTimeSeries(j, b, b + l);
    double dr = bound(c, want, l);
    DESC(c, "x " << show(x) << "\ny " << show(y) << "\nbound " << num(dr) << " expected " << num(want) << "\n");
    double got = dist(X, Y, INF);
    CHECK(close(got, want, RTOL * (big ? 10 : 1)), "distance " << num(got) << " instead of " << num(want));
    double sym = dist(Y, X, INF);
    CHECK(close(sym, want, RTOL * (big ? 10 : 1)), "reversed distance " << num(sym) << " instead of " << num(want));
    if (x == y) CHECK(got == 0, "distance " << num(got) << " between equal sequences");
    double viaSet = s.distanceBetween(i, a, l, Y, "euclidean");
    CHECK(close(viaSet, want, RTOL * (big ? 10 : 1)), "distanceBetween gives " << num(viaSet) << " instead of " << num(want));
    double pd = onex::pairwiseDistance(X, Y, (data_t)dr);
    bool near = close(dr, want, margin(want, l));
    if (want <= dr && !near) CHECK(close(pd, want, RTOL * (big ? 10 : 1)), "with bound " << num(dr) << " the distance " << num(want) << " becomes " << num(pd));
    else CHECK(close(pd, want, RTOL * (big ? 10 : 1)) || pd == std::numeric_limits<double>::infinity(), "with bound " << num(dr) << " the distance " << num(want) << " becomes " << num(pd));
    c.label(near ? "bound near value" : want <= dr ? "bound above value" : "bound below value");
    if (want > 0 && l > 1) interesting = true;
    // a bound that equals the distance: differences of one size make every quantity exact
    if (c.chance(1, 3)) {
      int el = c.size(1, 40);
      data_t step = (data_t)((1 << c.below(8)) / 16.0 * c.range(1, 7) * scaleOf(c));
      Row ex = row(c, el, INTS), ey = ex;
      for (auto& v : ey) v += c.flip() ? step : -step;
      TimeSeries EX = makeTS(ex), EY = makeTS(ey);
      double at = onex::pairwiseDistance(EX, EY, step);
      DESC(c, "x " << show(ex) << "\ny " << show(ey) << "\nbound " << num(step) << "\n");
      CHECK(at == step, "with a bound of exactly the distance " << num(step) << " it becomes " << num(at));
      c.label("bound equals distance");
    }
    // different lengths are rejected
    int l2 = l == 1 || c.flip() ? l + c.range(1, 3) : c.range(1, l - 1);
    TimeSeries Z(l2);
    CHECK(throwsOnex([&] { dist(X, Z, INF); }), "lengths " << l << " and " << l2 << " are compared");
    CHECK(throwsOnex([&] { dist(Z, X, (data_t)dr); }), "lengths " << l2 << " and " << l << " are compared");
    // unknown names
    static const char* names[] = {"", "euclid", "Euclidean", "euclidean ", "dtw", "euclidean_dtw2", "manhattan", "euclidean\n"};
    std::string nm = names[c.below(8)];
    CHECK(throwsOnex([&] { onex::getDistance(nm); }), "distance '" << nm << "' exists");
    CHECK(throwsOnex([&] { s.distanceBetween(i, a, l, Y, nm); }), "distance '" << nm << "' exists");
  }
  if (big) c.label(huge ? "huge" : "large");
  c.nontrivial(interesting);
}
} // namespace C07
PBT_PROPERTY("C07", 50, C07::run, h::resetState,
  "pairs of equally long subsequences (1-40 points, sometimes up to 3000; views and owned; seven value kinds), dropout bounds below, near and above the value, unequal lengths and unknown names; compared with an extended-precision sum. Non-trivial: a non-zero distance over at least two points")
