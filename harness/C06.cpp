#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C06 {
using namespace h;

int anyInt(Case& c, int n) {
  switch (c.below(8)) {
    case 0: return -c.range(1, 4);
    case 1: return n;
    case 2: return n + c.range(1, 4);
    case 3: return c.flip() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
    default: return c.range(0, n - 1);
  }
}

void run(Case& c) {
  bool huge = c.chance(1, 1000);
  Table t = huge ? hugeTable(c, c.flip()) : Table();
  if (!huge) { int rows = c.size(1, 10), len = c.size(1, 40); t = table(c, rows, len, (int)c.below(NKINDS)); }
  int rows = (int)t.size(), len = (int)t[0].size();
  onex::GroupableTimeSeriesSet s;
  CHECK(throwsOnex([&] { s.getTimeSeries(0); }), "an empty set has a series 0");
  CHECK(throwsOnex([&] { s.getTimeSeries(0, 0, 1); }), "an empty set has a subsequence");
  load(s, c, t);
  DESC(c, rows << "x" << len << "\n");
  int queries = c.range(4, 30), good = 0, bad = 0;
  for (int k = 0; k < queries; k++) {
    int i = c.chance(1, 4) ? anyInt(c, rows) : (int)c.below(rows);
    int a, b;
    bool dflt = c.chance(1, 8);
    if (c.chance(1, 3)) { a = anyInt(c, len); b = anyInt(c, len + 1); }
    else { a = (int)c.below(len); b = a + 1 + (int)c.below(len - a); }
    if (c.chance(1, 8)) { a = -c.range(1, 3); b = -c.range(1, 3); }
    if (dflt) a = b = -1;
    bool inIdx = i >= 0 && i < rows;
    bool whole = a < 0 && b < 0;
    bool valid = inIdx && (whole || (a >= 0 && a < b && b <= len));
    DESC(c, "get " << i << " [" << a << "," << b << ")\n");
    bool threw = false;
    try {
      const TimeSeries ts = dflt ? s.getTimeSeries(i) : s.getTimeSeries(i, a, b);
      int S = whole ? 0 : a, E = whole ? len : b;
      CHECK(valid, "series " << i << " [" << a << "," << b << ") of a " << rows << "x" << len << " set is accepted");
      CHECK(ts.getLength() == E - S && ts.getIndex() == i && ts.getStart() == S && ts.getEnd() == E,
            "series " << i << " [" << a << "," << b << ") reports index " << ts.getIndex() << " start " << ts.getStart() << " end " << ts.getEnd() << " length " << ts.getLength());
      for (int j = 0; j < E - S; j++) CHECK(ts[j] == t[i][S + j], "series " << i << " [" << a << "," << b << ") point " << j << " is " << num(ts[j]) << " instead of " << num(t[i][S + j]));
      for (int q = 0; q < 3; q++) {
        int j = anyInt(c, E - S);
        bool in = j >= 0 && j < E - S;
        TimeSeries mut = ts;
        CHECK(throwsOnex([&] { volatile data_t x = ts[j]; (void)x; }) == !in, "point " << j << " of " << E - S << (in ? " is rejected" : " is accepted"));
        CHECK(throwsOnex([&] { volatile data_t x = mut[j]; (void)x; }) == !in, "point " << j << " of " << E - S << (in ? " is rejected" : " is accepted") << " through a non-const sequence");
      }
      std::ostringstream id, pr;
      id << i << " [" << S << ", " << E << "]";
      CHECK(ts.getIdentifierString() == id.str(), "identifier " << ts.getIdentifierString() << " instead of " << id.str());
      ts.printData(pr);
      Table back = parseTable(pr.str());
      CHECK(back.size() == 1 && back[0] == slice(t[i], S, E), "printData gives " << pr.str() << " for " << show(slice(t[i], S, E)));
      // through a copy, and as an argument
      TimeSeries cp(ts), as(1);
      as = ts;
      for (int j = 0; j < E - S; j++) CHECK(((const TimeSeries&)cp)[j] == ts[j] && ((const TimeSeries&)as)[j] == ts[j], "copy differs at point " << j);
      good++;
    } catch (OnexException&) { threw = true; }
    CHECK(threw == !valid, "series " << i << " [" << a << "," << b << ") of a " << rows << "x" << len << " set is rejected");
    bad += threw;
    // the same request through distanceBetween
    if (!whole && b > a && (long long)b - a < 100000) {
      bool th = throwsOnex([&] { TimeSeries z(std::max(1, std::min(b - a, 200000))); s.distanceBetween(i, a, b - a, z, "euclidean"); });
      if (!valid) CHECK(th, "distanceBetween accepts series " << i << " [" << a << "," << b << ") of a " << rows << "x" << len << " set");
      else CHECK(!th, "distanceBetween rejects series " << i << " [" << a << "," << b << ")");
    }
  }
  if (huge) c.label("huge");
  if (good) c.label("valid requests");
  if (bad) c.label("invalid requests");
  c.nontrivial(good && bad && rows * len > 1);
}
} // namespace C06
PBT_PROPERTY("C06", 40, C06::run, h::resetState,
  "random dataset and 4-30 subsequence requests with indices and ranges inside, at and beyond the limits (including extreme integers), then point indices likewise. Non-trivial: a case with both accepted and rejected requests")
