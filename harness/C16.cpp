#include "matchgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C16 {
using namespace h;

std::string slurp(const std::string& p) {
  std::string s;
  if (!readFile(p, s)) fail("no file " + p);
  return s;
}

void checkSizes2(const std::string& text, const GroupFile& g) {
  GroupFile z = parseGroups(text, true);
  for (auto& lg : g.groups) {
    auto& v = z.sizes[lg.first];
    CHECK(v.size() == lg.second.size(), "size-only file lists " << v.size() << " instead of " << lg.second.size() << " groups of length " << lg.first);
    for (size_t k = 0; k < v.size(); k++) CHECK(v[k] == (int)lg.second[k].members.size(), "size-only file says group " << k << " of length " << lg.first << " has " << v[k] << " instead of " << lg.second[k].members.size() << " members");
  }
}
void checkSizes(const std::string& text, const GroupFile& g) {
  GroupFile z = parseGroups(text, true);
  CHECK(z.version == g.version && z.threshold == g.threshold && z.items == g.items && z.length == g.length && z.from == g.from && z.to == g.to && z.distance == g.distance,
        "the size-only file has another header than the full file");
  for (auto& lg : g.groups) {
    auto& v = z.sizes[lg.first];
    CHECK(v.size() == lg.second.size(), "size-only file lists " << v.size() << " instead of " << lg.second.size() << " groups of length " << lg.first);
    for (size_t k = 0; k < v.size(); k++) CHECK(v[k] == (int)lg.second[k].members.size(), "size-only file says group " << k << " of length " << lg.first << " has " << v[k] << " instead of " << lg.second[k].members.size() << " members");
  }
}

// Values at the ends of the range, and what transformations make of them: infinite, subnormal, not a number.
void extremes(Case& c) {
  int rows = c.range(1, 4), len = c.range(2, 6);
  Table t = extremeTable(c, rows, len);
  onex::GroupableTimeSeriesSet s, twin;
  load(s, c, t);
  load(twin, c, t);
  DESC(c, "extremes " << show(t) << "\n");
  for (int k = (int)c.below(3); k > 0; k--) {
    int b = (int)c.below(4);
    if (b == 0) { s.normalize(); twin.normalize(); } else { s.PAA(b); twin.PAA(b); }
    DESC(c, (b ? "paa " + num(b) : std::string("normalize")) << "\n");
  }
  t = values(s);
  if (!same(t, values(twin))) fail("the same operations give different values");
  typedef std::numeric_limits<data_t> L;
  data_t thr = c.chance(1, 2) ? extreme(c) : c.pick(std::vector<data_t>{L::infinity(), 0, 1, L::quiet_NaN(), -L::infinity()});
  const char* dist = c.flip() ? "euclidean" : "euclidean_dtw";
  DESC(c, dist << " groups with " << num(thr) << " of " << show(t) << "\n");
  int count = s.groupAllLengths(dist, thr);
  GroupFile g = savedGroups(s, c), g2;
  checkPartition(g, rows, (int)t[0].size());
  CHECK(g.total() == count, g.total() << " groups saved instead of " << count);
  CHECK(sameValue((data_t)g.threshold, thr), "threshold " << num(g.threshold) << " saved instead of " << num(thr));
  if (c.flip()) twin.groupAllLengths("euclidean", 1);
  int k = twin.loadGroups(path(c, "groups.peek"));
  CHECK(k == count, k << " groups loaded instead of " << count);
  s.saveGroups(path(c, "sizes"), true);
  checkSizes2(slurp(path(c, "sizes")), g);
  g2 = savedGroups(twin, c);
  CHECK(sameValue((data_t)g2.threshold, thr) && g2.distance == dist, "saving loaded groups writes another header");
  bool odd = !std::isfinite(thr);
  for (auto& lg : g.groups) {
    auto& v = g2.groups[lg.first];
    CHECK(v.size() == lg.second.size(), v.size() << " groups of length " << lg.first << " instead of " << lg.second.size());
    for (size_t j = 0; j < v.size(); j++) {
      auto m1 = lg.second[j].members, m2 = v[j].members;
      std::sort(m1.begin(), m1.end());
      std::sort(m2.begin(), m2.end());
      CHECK(m1 == m2, "group " << j << " of length " << lg.first << " has other members after loading");
      CHECK(same(Table{lg.second[j].rep}, Table{v[j].rep}), "group " << j << " of length " << lg.first << " is represented by " << show(v[j].rep) << " after loading instead of " << show(lg.second[j].rep));
      for (auto x : v[j].rep) if (x != 0 && !std::isnormal(x)) odd = true;
    }
  }
  for (int i = 0; i < rows; i++) {
    double d1 = -1, d2 = -1;
    try { d1 = s.getBestMatch(s.getTimeSeries(i)).dist; } catch (OnexException&) {}
    try { d2 = twin.getBestMatch(twin.getTimeSeries(i)).dist; } catch (OnexException&) {}
    CHECK(close(d1, d2, TIE, 1e-150), "the best distance of series " << i << " is " << num(d2) << " after loading instead of " << num(d1));
  }
  c.label("extremes");
  c.nontrivial(odd);
}

void run(Case& c) {
  if (c.chance(1, 12)) return extremes(c);
  int kind = (int)c.below(NKINDS);
  bool big = c.chance(1, 80);
  int rows = c.size(1, 6), len = c.size(1, 12);
  if (big) { rows = c.range(5, 30); len = c.range(12, 20); }
  bool tall = c.chance(1, 600);
  Table t = tall ? tallTable(c) : table(c, rows, len, kind), t2 = table(c, 2, c.size(2, 14), c.flip() ? kind : (int)c.below(NKINDS));
  if (tall) { big = true; rows = (int)t.size(); len = (int)t[0].size(); c.label("tall"); }
  writeFile(path(c, "in.txt"), tableText(t));
  onex::OnexAPI api;
  api.loadDataset(path(c, "in.txt"), 0, 0, " ");
  load(api, c, t2, "q.txt");
  api.loadDataset(path(c, "in.txt"), 0, 0, " ");
  int how = (int)c.below(4);
  DESC(c, rows << "x" << len << " " << kindName(kind) << "\n" << show(t) << "\n");
  std::string f1 = oddPath(c, "groups"), dist = "euclidean";
  data_t thr = thresholdGen(c, t);
  int count;
  GroupFile want;
  bool haveWant = false;
  if (how <= 1) {
    count = api.groupDataset(0, thr);
    DESC(c, "grouped by the API with " << num(thr) << "\n");
  } else if (how == 2) {
    // grouped by the warped distance and brought in through a file
    onex::GroupableTimeSeriesSet s;
    s.loadData(path(c, "in.txt"), 0, 0, " ");
    dist = "euclidean_dtw";
    count = s.groupAllLengths(dist, thr);
    s.saveGroups(f1, false);
    want = parseGroups(slurp(f1), false);
    haveWant = true;
    int k = api.loadGroup(0, f1);
    CHECK(k == count, k << " groups loaded instead of " << count);
    DESC(c, "grouped by euclidean_dtw with " << num(thr) << "\n");
    c.label("euclidean_dtw");
  } else {
    want = randomGroups(c, t, kind);
    haveWant = true;
    dist = want.distance;
    thr = (data_t)want.threshold;
    writeFile(f1, groupText(want));
    count = api.loadGroup(0, f1);
    CHECK(count == want.total(), count << " groups loaded instead of " << want.total());
    DESC(c, "arbitrary groups\n" << groupText(want).substr(0, 1500) << "\n");
    c.label("arbitrary groups");
  }
  CHECK(api.getDatasetInfo(0).isGrouped, "not reported as grouped");
  std::string why;
  // save, check the format
  if (c.chance(1, 3)) writeFile(f1, std::string(5000, 'x')); // an existing file is replaced
  api.saveGroup(0, f1, false);
  std::string text1 = slurp(f1);
  GroupFile g = parseGroups(text1, false);
  CHECK(g.version == 1, "version " << g.version);
  CHECK((data_t)g.threshold == thr, "threshold " << num(g.threshold) << " saved instead of " << num(thr));
  CHECK(g.from == 2 && g.to == len + 1, "length range " << g.from << " " << g.to << " for series of " << len << " points");
  CHECK(g.distance == dist, "distance " << g.distance << " saved instead of " << dist);
  checkPartition(g, rows, len);
  CHECK(g.total() == count, g.total() << " groups saved instead of " << count);
  if (haveWant) CHECK(sameGroups(want, g, why), "saved groups differ from the loaded ones: " << why);
  api.saveGroup(0, path(c, "sizes"), true);
  checkSizes(slurp(path(c, "sizes")), g);

  // load into another dataset with the same content, which may have had groups of its own
  bool had = c.flip();
  if (had) { api.groupDataset(2, thresholdGen(c, t)); c.label("replaces groups"); }
  int k = api.loadGroup(2, f1);
  CHECK(k == count, k << " groups loaded instead of " << count);
  CHECK(api.getDatasetInfo(2).isGrouped, "not reported as grouped after loading groups");
  int again = c.range(1, 3);
  std::string from = f1;
  for (int i = 0; i < again; i++) {
    std::string f2 = oddPath(c, i % 2 ? "again1" : "again0");
    api.saveGroup(2, f2, false);
    GroupFile g2 = parseGroups(slurp(f2), false);
    CHECK(g2.version == 1 && g2.threshold == g.threshold && g2.items == g.items && g2.length == g.length && g2.from == g.from && g2.to == g.to && g2.distance == g.distance,
          "saving loaded groups writes another header (threshold " << num(g2.threshold) << ", distance " << g2.distance << ")");
    CHECK(sameGroups(g, g2, why), "saving loaded groups writes other groups: " << why);
    api.saveGroup(2, path(c, "sizes"), true);
    checkSizes(slurp(path(c, "sizes")), g2);
    if (i + 1 < again) {
      int kk = api.loadGroup(2, f2);
      CHECK(kk == count, kk << " groups loaded the second time instead of " << count);
    }
  }
  // the same answers
  int nq = big ? 2 : c.range(1, 5), found = 0;
  for (int q = 0; q < nq; q++) {
    double ratio = ratioGen(c);
    api.setWarpingBandRatio(ratio);
    bool other = c.chance(1, 3);
    Query x = queryGen(c, other ? t2 : t);
    if (x.row.size() < 2) continue;
    DESC(c, "ratio " << num(ratio) << " query " << show(x.row) << "\n");
    bool a1 = false, a2 = false;
    onex::candidate_time_series_t m1, m2;
    try { m1 = api.getBestMatch(0, other ? 1 : 0, x.index, x.start, x.end); a1 = true; } catch (OnexException&) {}
    try { m2 = api.getBestMatch(2, other ? 1 : 0, x.index, x.start, x.end); a2 = true; } catch (OnexException&) {}
    CHECK(a1 == a2, "the original groups " << (a1 ? "answer" : "do not answer") << " but the loaded ones " << (a2 ? "do" : "do not"));
    if (!a1) continue;
    found++;
    // equal up to ties between groups, which are decided by rounding
    if (!close(m1.dist, m2.dist, TIE, 1e-150)) {
      checkOptimal(t, g, x.row, ratio, m1);
      checkOptimal(t, g, x.row, ratio, m2);
      c.label("tie");
    } else {
      checkGenuine(t, x.row, ratio, m2);
    }
  }
  // saving changed nothing, and the first dataset still has its own groups
  std::string f3 = path(c, "third");
  api.saveGroup(0, f3, false);
  CHECK(slurp(f3) == text1, "saving the same groups again writes something else");
  CHECK(slurp(f1) == text1, "loading groups changed the file");
  CHECK(same(values(api, c, 2), t) && same(values(api, c, 0), t), "values changed by saving or loading groups");
  if (big) c.label("large");
  if (len == 1) c.label("series of one point");
  if (rows == 1) c.label("single series");
  c.nontrivial(len >= 3 && rows * len >= 6 && count > len - 1 && count < rows * len * (len - 1) / 2 && found > 0);
}
} // namespace C16
PBT_PROPERTY("C16", 20, C16::run, h::resetState,
  "datasets up to 6x12 (sometimes 30x20) grouped by either distance or given arbitrary valid groups; saved (format and size-only file parsed strictly), loaded into a twin dataset 1-3 times, compared as sets of (representative, members) and by queries under random bands; and datasets of values at the ends of the range (also infinite, subnormal, not a number after transformations). Non-trivial: more than one group for some length, groups of more than one member, and an answered query")
