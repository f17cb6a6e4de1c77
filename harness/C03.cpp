#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C03 {
using namespace h;

void huge(Case& c) {
  Table t = hugeTable(c, c.flip());
  onex::GroupableTimeSeriesSet s, s2;
  load(s, c, t);
  bool norm = c.flip();
  if (norm) s.normalize();
  Table mem = values(s);
  if (!norm) CHECK(same(mem, t), "not loaded as it is");
  DESC(c, t.size() << "x" << t[0].size() << (norm ? " normalized" : "") << "\n");
  s.saveData(path(c, "huge.csv"), ',');
  CHECK(same(values(s), mem), "saving changed the values in memory");
  s2.loadData(path(c, "huge.csv"), 0, 0, ",");
  CHECK(s2.getItemCount() == (int)t.size() && s2.getItemLength() == (int)t[0].size(), "loads back as " << s2.getItemCount() << "x" << s2.getItemLength());
  CHECK(same(values(s2), mem), "loads back with other values");
  c.label("huge");
  c.nontrivial(norm);
}

void run(Case& c) {
  if (c.chance(1, 1000)) return huge(c);
  static const char SEPS[] = {' ', ',', '\t', ';', '|', ':', '/', '#', '~', '\x01', '\x80', '\xff', '\r', '\v', '"', '=', '@'};
  bool big = c.chance(1, 80);
  int rows = big ? c.range(1, 3) : c.size(1, 10), len = big ? c.range(300, 1500) : c.size(1, 14);
  int kind = (int)c.below(NKINDS + 2);
  Table t;
  if (kind == NKINDS) { // the whole normal range
    t.assign(rows, Row(len));
    for (auto& r : t) for (auto& x : r) {
#ifdef SINGLE_PRECISION
      x = (data_t)((1 + c.unit()) * std::pow(2.0, c.range(0, 250) - 125)) * (c.flip() ? -1 : 1);
#else
      x = (1 + c.unit()) * std::pow(2.0, c.range(0, 2040) - 1020) * (c.flip() ? -1 : 1);
#endif
    }
  } else if (kind > NKINDS) t = extremeTable(c, rows, len);
  else t = table(c, rows, len, kind);
  onex::OnexAPI api;
  int id = load(api, c, t);
  std::string ops;
  int n = kind == NKINDS ? 0 : (int)c.below(4);
  for (int i = 0; i < n; i++) {
    switch (c.below(3)) {
      case 0: api.normalizeDataset(id); ops += " normalize"; break;
      case 1: { int b = c.range(1, 5); api.PAA(id, b); ops += " paa" + num(b); break; }
      default: if (rows * len <= 60) { api.groupDataset(id, (data_t)(c.unit() * 2)); ops += " group"; }
    }
  }
  char sep = SEPS[c.below(sizeof SEPS)];
  std::string sepStr(1, sep);
  DESC(c, rows << "x" << len << " " << (kind > NKINDS ? "extremes" : kind == NKINDS ? "whole range" : kindName(kind)) << " ops:" << ops << " separator " << (int)(unsigned char)sep << "\n" << show(t) << "\n");
  onex::dataset_info_t d = api.getDatasetInfo(id);
  std::string before = listing(api);
  std::string g0, g1;
  if (d.isGrouped) { api.saveGroup(id, path(c, "g0"), false); readFile(path(c, "g0"), g0); }
  std::string p = oddPath(c, "saved.txt");
  if (c.chance(1, 3)) writeFile(p, std::string(5000, '9')); // an older, longer file
  api.saveDataset(id, p, sep);
  CHECK(listing(api) == before, "saving changed the listing from " << before << " to " << listing(api));
  if (d.isGrouped) {
    api.saveGroup(id, path(c, "g1"), false);
    readFile(path(c, "g1"), g1);
    CHECK(g0 == g1, "saving the dataset changed its groups");
  }
  int id2 = api.loadDataset(p, 0, 0, sepStr).id;
  onex::dataset_info_t e = api.getDatasetInfo(id2);
  CHECK(e.itemCount == d.itemCount && e.itemLength == d.itemLength, "loads back as " << info(e) << " instead of " << info(d));
  // Compare values of the two datasets through the library's own view of them
  onex::TimeSeriesSet s2;
  s2.loadData(p, 0, 0, sepStr);
  Table got = values(s2);
  if (n == 0 || ops.empty()) CHECK(same(got, t), "saved and loaded values " << show(got) << " differ from " << show(t));
  // what is in memory (grouped queries, a second file) must agree as well
  api.saveDataset(id, path(c, "saved2.txt"), '\t');
  onex::TimeSeriesSet s3;
  s3.loadData(path(c, "saved2.txt"), 0, 0, "\t");
  CHECK(same(values(s3), got), "two saves with different separators load back differently");
  // reference for transformed data: the same operations on a set read directly
  onex::GroupableTimeSeriesSet m;
  load(m, c, t, "again.txt");
  for (auto& w : words(ops)) {
    if (w == "normalize") m.normalize();
    else if (w.substr(0, 3) == "paa") m.PAA(atoi(w.c_str() + 3));
  }
  Table mem = values(m);
  for (auto& r : mem) for (auto x : r) if (x != 0 && !std::isnormal(x)) { c.label(std::isfinite(x) ? "subnormal" : "not finite"); break; }
  CHECK(same(got, mem), "loaded back " << show(got) << " but the dataset holds " << show(mem));
  m.saveData(path(c, "direct.txt"), sep);
  CHECK(same(values(m), mem), "saving changed the values in memory");
  onex::TimeSeriesSet s4;
  s4.loadData(path(c, "direct.txt"), 0, 0, sepStr);
  CHECK(same(values(s4), mem), "loaded back " << show(values(s4)) << " but the set holds " << show(mem));
  c.label(kind > NKINDS ? "extremes" : kind == NKINDS ? "whole range" : kindName(kind));
  if (ops.find("norm") != std::string::npos) c.label("normalized");
  if (ops.find("paa") != std::string::npos) c.label("paa");
  if (ops.find("group") != std::string::npos) c.label("grouped");
  if (big) c.label("large");
  bool frac = false;
  for (auto& r : got) for (auto x : r) if (std::fabs(x * 8) != std::floor(std::fabs(x * 8))) frac = true;
  if (frac) c.label("needs full precision");
  c.nontrivial(frac && d.itemCount * d.itemLength >= 2);
}
} // namespace C03
PBT_PROPERTY("C03", 40, C03::run, h::resetState,
  "random dataset (seven value kinds, the whole normal range, or values at the ends of the range), 0-3 of normalize/PAA/group, saved with one of 17 separators and loaded back; values compared exactly with the set in memory. Non-trivial: at least two points and some value needs more than three decimals")
