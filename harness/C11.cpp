#include "matchgen.hpp"
#include "LocalLengthGroupSpace.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C11 {
using namespace h;

// A long or tall dataset, one length only (all lengths would take too long).
void large(Case& c) {
  bool many = c.chance(1, 4); // many groups
  int total = many ? c.range(1500, 3000) : c.range(5000, 80000);
  int rows = c.flip() ? c.range(1, 3) : c.range(1, 200), len = std::max(4, total / rows);
  if (c.flip()) std::swap(rows, len);
  len = std::max(len, 4);
  int l = c.chance(1, 3) ? c.range(2, 4) : std::max(2, std::min(len - (int)c.below(3), 40));
  int levels = many ? 1000000 : c.range(2, 3);
  std::string text;
  std::vector<int> lv(16);
  unsigned x = (unsigned)c.below(1u << 30) | 1;
  for (int i = 0; i < rows; i++) {
    for (int j = 0; j < len; j++) { x = x * 1664525u + 1013904223u; text += std::to_string((x >> 8) % levels); text += j + 1 < len ? ' ' : '\n'; }
  }
  data_t thr = many ? 0 : (data_t)1.2;
  DESC(c, rows << "x" << len << " of " << levels << " levels, length " << l << " threshold " << num(thr) << "\n");
  if (!many && levels > 2) thr = 3;
  writeFile(path(c, "in.txt"), text);
  onex::GroupableTimeSeriesSet s;
  s.loadData(path(c, "in.txt"), 0, 0, " ");
  CHECK(s.getItemCount() == rows && s.getItemLength() == len, "loaded as " << s.getItemCount() << "x" << s.getItemLength());
  if (l > 4) { thr = 1e7; }
  onex::LocalLengthGroupSpace ls(s, l);
  int k = ls.generateGroups(onex::getDistance("euclidean"), thr);
  CHECK(k == ls.getNumberOfGroups() && k > 0, "generateGroups returns " << k << " for " << ls.getNumberOfGroups() << " groups");
  int w = len - l + 1;
  std::vector<char> seen((size_t)rows * w, 0);
  size_t n = 0;
  for (int i = 0; i < k; i++) {
    const onex::Group* gr = ls.getGroup(i);
    std::vector<TimeSeries> ms = gr->getMembers();
    CHECK(!ms.empty() && gr->getCount() == (int)ms.size(), "group " << i << " counts " << gr->getCount() << " but has " << ms.size() << " members");
    for (auto& m : ms) {
      CHECK(m.getLength() == l && m.getIndex() >= 0 && m.getIndex() < rows && m.getStart() >= 0 && m.getStart() + l <= len, "impossible member " << m.getIdentifierString());
      CHECK(!seen[(size_t)m.getIndex() * w + m.getStart()]++, "member " << m.getIdentifierString() << " twice");
      n++;
    }
  }
  CHECK(n == seen.size(), n << " of " << seen.size() << " subsequences are in a group");
  c.label(many ? "large, many groups" : "large, few groups");
  c.nontrivial(k > 1);
}

void run(Case& c) {
  if (c.chance(1, 400)) return large(c);
  int shapeKind = (int)c.below(8), rows, len;
  if (shapeKind == 0) { rows = c.range(1, 3); len = c.range(1, 3); }         // a handful of subsequences
  else if (shapeKind == 1) { rows = c.range(1, 40); len = c.range(1, 4); }
  else if (shapeKind == 2) { rows = c.range(1, 2); len = c.range(10, 40); }
  else { rows = c.size(1, 8); len = c.size(1, 12); }
  int kind = (int)c.below(NKINDS);
  Table t = table(c, rows, len, kind);
  bool odd = c.chance(1, 8); // values whose differences overflow or are not a number
  std::string text;
  if (odd) {
    static const char* v[] = {"nan", "inf", "-inf", "1e200", "-1e200"};
    for (int i = 0; i < rows; i++) { for (int j = 0; j < len; j++) text += (c.chance(1, 4) ? std::string(v[c.below(5)]) : num(t[i][j])) + " "; text += "\n"; }
    c.label("non-finite values");
  } else text = tableText(t);
  data_t thr = thresholdGen(c, t);
  if (odd && c.flip()) thr = std::numeric_limits<data_t>::infinity();
  DESC(c, rows << "x" << len << " " << kindName(kind) << " threshold " << num(thr) << "\n" << text.substr(0, 1000) << "\n");
  writeFile(path(c, "in.txt"), text);
  onex::GroupableTimeSeriesSet s;
  CHECK(throwsOnex([&] { s.groupAllLengths("euclidean", thr); }), "a set without data is grouped");
  s.loadData(path(c, "in.txt"), 0, 0, " ");
  std::string dist = c.chance(1, 3) ? "euclidean_dtw" : "euclidean";
  int n = s.groupAllLengths(dist, thr);
  CHECK(s.isGrouped(), "not reported as grouped");
  GroupFile g = savedGroups(s, c);
  checkPartition(g, rows, len);
  CHECK(g.total() == n, n << " groups reported but " << g.total() << " exist");
  CHECK(g.distance == dist, "grouped by " << g.distance << " instead of " << dist);
  CHECK(close(g.threshold, thr, 1e-6, 1e-300), "threshold " << num(g.threshold) << " instead of " << num(thr));
  if (c.chance(1, 2)) { // again, with another threshold
    data_t thr2 = c.chance(1, 3) ? thr : thresholdGen(c, t);
    DESC(c, "again with " << num(thr2) << "\n");
    std::string dist2 = c.chance(1, 3) ? "euclidean_dtw" : "euclidean";
    n = s.groupAllLengths(dist2, thr2);
    GroupFile g2 = savedGroups(s, c);
    checkPartition(g2, rows, len);
    CHECK(g2.distance == dist2, "grouped again by " << g2.distance << " instead of " << dist2);
    CHECK(g2.total() == n, n << " groups reported but " << g2.total() << " exist after grouping again");
    CHECK(close(g2.threshold, thr2, 1e-6, 1e-300), "threshold " << num(g2.threshold) << " instead of " << num(thr2) << " after grouping again");
    c.label("grouped again");
  }
  // through the API
  onex::OnexAPI api;
  int id = api.loadDataset(path(c, "in.txt"), 0, 0, " ").id;
  int na = api.groupDataset(id, thr);
  CHECK(api.getDatasetInfo(id).isGrouped, "not reported as grouped by the API");
  GroupFile ga = savedGroups(api, c, id);
  checkPartition(ga, rows, len);
  CHECK(ga.total() == na, na << " groups reported by the API but " << ga.total() << " exist");
  CHECK(ga.distance == "euclidean", "the API groups by " << ga.distance);
  // one length at a time
  if (len >= 2 && c.chance(1, 2)) {
    int l = c.range(2, len);
    onex::LocalLengthGroupSpace ls(s, l);
    int k = ls.generateGroups(onex::getDistance("euclidean"), thr);
    CHECK(k == ls.getNumberOfGroups(), "generateGroups returns " << k << " for " << ls.getNumberOfGroups() << " groups");
    CHECK(k == (int)ga.groups[l].size(), k << " groups of length " << l << " alone but " << ga.groups[l].size() << " among all lengths");
    std::vector<int> seen(rows * (len - l + 1), 0);
    for (int i = 0; i < k; i++) {
      const onex::Group* gr = ls.getGroup(i);
      std::vector<TimeSeries> ms = gr->getMembers();
      CHECK(!ms.empty() && gr->getCount() == (int)ms.size() && gr->getMemberLength() == l, "group " << i << " counts " << gr->getCount() << " of length " << gr->getMemberLength() << " but has " << ms.size() << " members");
      for (auto& m : ms) {
        CHECK(m.getLength() == l && m.getIndex() >= 0 && m.getIndex() < rows && m.getStart() >= 0 && m.getStart() + l <= len, "impossible member " << m.getIdentifierString());
        CHECK(!seen[m.getIndex() * (len - l + 1) + m.getStart()]++, "member " << m.getIdentifierString() << " twice");
      }
    }
    for (int x : seen) CHECK(x == 1, "a subsequence of length " << l << " is in no group");
    CHECK(throwsOnex([&] { ls.getGroup(k); }) && throwsOnex([&] { ls.getGroup(-1); }), "a group index out of range is accepted");
  }
  if (len == 1) c.label("series of one point");
  if (rows * (len - 1) < 5) c.label("fewer than 5 subsequences per length");
  if (n > len - 1) c.label("several groups of a length");
  c.nontrivial(len >= 3 && rows * len >= 6 && ga.total() > len - 1);
}
} // namespace C11
PBT_PROPERTY("C11", 8, C11::run, h::resetState,
  "random datasets from 1x1 to 40x4 or 2x40 (all value kinds, some with nan, inf or overflowing values), thresholds zero, negative, huge or around pair distances, both grouping distances, regrouping; the saved groups are parsed and checked to be a partition. Non-trivial: at least three points per series, six in all, and more than one group for some length")
