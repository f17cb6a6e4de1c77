#include "matchgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C13 {
using namespace h;

void run(Case& c) {
  int kind = (int)c.below(NKINDS), kind2 = c.flip() ? kind : (int)c.below(NKINDS);
  int rows = c.size(1, 6), len = c.size(2, 14);
  bool tall = c.chance(1, 2000), lng = !tall && c.chance(1, 600);
  Table t = tall ? tallTable(c) : lng ? longTable(c, kind) : table(c, rows, len, kind), t2 = table(c, c.range(1, 3), c.chance(1, 4) ? c.range(15, 24) : c.size(2, 14), kind2);
  if (lng) { rows = (int)t.size(); len = (int)t[0].size(); c.label("long"); }
  if (tall) { rows = (int)t.size(); len = (int)t[0].size(); kind = FEW; c.label("tall"); }
  onex::OnexAPI api;
  int id = load(api, c, t), id2 = load(api, c, t2, "q.txt");
  bool norm = c.chance(1, 4);
  DESC(c, rows << "x" << len << " " << kindName(kind) << "\n" << show(t) << "\nqueries from " << show(t2) << "\n");
  if (norm) { api.normalizeDataset(id); t = values(api, c, id); DESC(c, "normalize\n"); }
  if (c.chance(1, 6)) { api.PAA(id, c.range(1, 2)); t = values(api, c, id); len = (int)t[0].size(); DESC(c, "paa\n"); }
  if (len < 2) discard();
  data_t thr = thresholdGen(c, t);
  DESC(c, "group " << num(thr) << "\n");
  api.groupDataset(id, thr);
  bool reloaded = c.chance(1, 4);
  if (reloaded) {
    api.saveGroup(id, path(c, "g"), false);
    if (c.flip()) api.groupDataset(id, thresholdGen(c, t));
    api.loadGroup(id, path(c, "g"));
    DESC(c, "groups saved and loaded\n");
  }
  // groups whose representatives are not among the dataset's subsequences: those of another dataset, or any
  bool foreign = c.chance(1, 5);
  if (foreign) {
    if (c.flip()) {
      Table t3 = table(c, (int)t.size(), len, kind);
      int id3 = load(api, c, t3, "r.txt");
      api.groupDataset(id3, thresholdGen(c, t3));
      api.saveGroup(id3, path(c, "g3"), false);
      DESC(c, "groups of " << show(t3) << "\n");
    } else writeFile(path(c, "g3"), groupText(randomGroups(c, t, kind)));
    api.loadGroup(id, path(c, "g3"));
    DESC(c, "foreign groups loaded\n");
    c.label("foreign representatives");
  }
  GroupFile g = savedGroups(api, c, id);
  double ratio = 0.1;
  int found = 0, k = lng ? c.range(1, 3) : c.range(1, 8);
  bool nonzero = false;
  for (int q = 0; q < k; q++) {
    if (c.flip()) { ratio = ratioGen(c); api.setWarpingBandRatio(ratio); }
    bool other = c.flip();
    Query qu = queryGen(c, other ? t2 : t);
    DESC(c, "ratio " << num(ratio) << " query " << (other ? "other " : "same ") << qu.index << " [" << qu.start << "," << qu.end << ")\n");
    RefMatch r = refMatch(t, g, qu.row, ratio);
    try {
      onex::candidate_time_series_t m = qu.start < 0 && c.flip() ? api.getBestMatch(id, other ? id2 : id, qu.index)
                                                                : api.getBestMatch(id, other ? id2 : id, qu.index, qu.start, qu.end);
      DESC(c, "match " << showMatch(m) << "\n");
      checkGenuine(t, qu.row, ratio, m);
      CHECK(r.exists, "a match is reported although no representative is at a finite distance");
      if (!foreign) CHECK(m.dist <= r.bestRep * (1 + TIE) + 1e-150, "the match is farther (" << num(m.dist) << ") than the nearest representative (" << num(r.bestRep) << ")");
      found++;
      nonzero |= m.dist > 0;
    } catch (OnexException& e) {
      CHECK(!r.exists, "no match is reported (" << e.what() << ") although a representative is at distance " << num(r.bestRep));
    }
    c.label(other ? "query from another dataset" : "query from the same dataset");
    if ((int)qu.row.size() > len) c.label("query longer than the series");
  }
  CHECK(same(values(api, c, id), t), "matching changed the dataset");
  if (reloaded) c.label("loaded groups");
  c.nontrivial(found > 0 && nonzero && g.total() > len - 1);
}
} // namespace C13
PBT_PROPERTY("C13", 30, C13::run, h::resetState,
  "random datasets up to 6x14 (rarely thousands of rows, or up to 140 points), optionally normalized or PAA-reduced, grouped (or groups saved and loaded, or another dataset's groups or arbitrary ones loaded), 1-8 queries from the same or another dataset under changing band ratios; each match is checked against the data and the reference distance. Non-trivial: a match at non-zero distance with more than one group for some length")
