#include "matchgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C14 {
using namespace h;

void run(Case& c) {
  int kind = (int)c.below(NKINDS);
  bool big = c.chance(1, 60);
  int rows = c.size(1, 6), len = c.size(2, 12);
  if (big) { rows = c.range(1, 3); len = c.range(20, 30); }
  bool tall = c.chance(1, 2000), lng = !tall && c.chance(1, 1200);
  Table t = tall ? tallTable(c) : lng ? longTable(c, kind) : table(c, rows, len, kind), t2 = table(c, 2, c.size(2, 15), c.flip() ? kind : (int)c.below(NKINDS));
  if (lng) { rows = (int)t.size(); len = (int)t[0].size(); c.label("long"); }
  if (tall) { rows = (int)t.size(); len = (int)t[0].size(); kind = FEW; c.label("tall"); }
  onex::GroupableTimeSeriesSet s;
  load(s, c, t);
  double ratio = ratioGen(c);
  onex::setWarpingBandRatio(ratio);
  int how = (int)c.below(4);
  if (lng && how == 1) how = 2;
  DESC(c, rows << "x" << len << " " << kindName(kind) << "\n" << show(t) << "\n");
  bool single = false;
  if (how == 0) { // arbitrary partition with arbitrary representatives
    GroupFile g = randomGroups(c, t, kind);
    writeFile(path(c, "g"), groupText(g));
    s.loadGroups(path(c, "g"));
    DESC(c, "random groups\n" << groupText(g).substr(0, 1500) << "\n");
    c.label("arbitrary groups");
  } else if (how == 1 && !tall) { // every distinct subsequence in its own group
    s.groupAllLengths("euclidean", c.flip() ? 0 : -1);
    single = true;
    DESC(c, "group with zero threshold\n");
    c.label("singleton groups");
  } else {
    data_t thr = thresholdGen(c, t);
    std::string d = c.chance(1, 3) ? "euclidean_dtw" : "euclidean";
    s.groupAllLengths(d, thr);
    DESC(c, "group " << d << " " << num(thr) << "\n");
  }
  GroupFile g = savedGroups(s, c);
  int k = lng ? c.range(1, 3) : c.range(1, 8), found = 0;
  bool pruned = false;
  for (int q = 0; q < k; q++) {
    if (c.chance(1, 3)) { ratio = ratioGen(c); onex::setWarpingBandRatio(ratio); }
    Row qr;
    bool outer = c.chance(1, 4);
    TimeSeries own(1);
    std::unique_ptr<TimeSeries> ts;
    switch (c.below(3)) {
      case 0: { Query x = queryGen(c, t); qr = x.row; ts.reset(new TimeSeries(s.getTimeSeries(x.index, x.start, x.end))); break; }
      case 1: { Query x = queryGen(c, t2); qr = x.row; ts.reset(new TimeSeries(makeTS(qr))); break; }
      default: { // a subsequence with a point changed
        Query x = queryGen(c, t);
        qr = x.row;
        qr[c.below(qr.size())] += value(c, kind);
        ts.reset(new TimeSeries(makeTS(qr)));
      }
    }
    (void)outer;
    DESC(c, "ratio " << num(ratio) << " query " << show(qr) << "\n");
    RefMatch r = refMatch(t, g, qr, ratio);
    try {
      onex::candidate_time_series_t m = s.getBestMatch(*ts);
      DESC(c, "match " << showMatch(m) << "\n");
      checkGenuine(t, qr, ratio, m);
      checkOptimal(t, g, qr, ratio, m);
      found++;
      if (single) {
        double best = std::numeric_limits<double>::infinity();
        for (int l = 2; l <= len; l++) {
          if (!eligible((int)qr.size(), l, ratio)) continue;
          for (int i = 0; i < rows; i++) for (int a = 0; a + l <= len; a++) best = std::min(best, refDtw(qr, slice(t[i], a, a + l), ratio));
        }
        CHECK(close(m.dist, best, TIE, 1e-150), "with every subsequence in its own group the match is at " << num(m.dist) << " but the nearest subsequence at " << num(best));
      }
      // asking again gives the same answer
      if (c.chance(1, 4)) {
        onex::candidate_time_series_t m2 = s.getBestMatch(*ts);
        CHECK(m2.dist == m.dist && m2.data.getIndex() == m.data.getIndex() && m2.data.getStart() == m.data.getStart() && m2.data.getLength() == m.data.getLength(),
              "asking again gives " << showMatch(m2) << " instead of " << showMatch(m));
        c.label("repeated query");
      }
      int elig = 0;
      for (auto& lg : g.groups) if (eligible((int)qr.size(), lg.first, ratio)) elig += (int)lg.second.size();
      pruned |= elig > 2 && m.dist > 0;
    } catch (OnexException& e) {
      CHECK(!r.exists, "no match is reported (" << e.what() << ") although a representative is at distance " << num(r.bestRep));
    }
  }
  if (big) c.label("large");
  c.nontrivial(found > 0 && pruned);
}
} // namespace C14
PBT_PROPERTY("C14", 30, C14::run, h::resetState,
  "random datasets up to 6x12 (sometimes 3x30, rarely thousands of rows or up to 140 points) with generated groups, singleton groups, or arbitrary valid partitions with arbitrary representatives loaded from a file; 1-8 queries with changing band ratios compared with an exhaustive search. Non-trivial: a non-zero match among more than two groups of allowed lengths")
