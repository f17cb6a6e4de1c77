#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C04 {
using namespace h;

void huge(Case& c) {
  Table t = hugeTable(c, c.flip());
  size_t rows = t.size(), len = t[0].size();
  data_t lo = t[0][0], hi = lo;
  for (auto& r : t) for (auto x : r) { lo = std::min(lo, x); hi = std::max(hi, x); }
  auto at = [&]() -> data_t& { size_t k = c.flip() ? c.below(rows * len) : rows * len - 1 - c.below(3); return t[k / len][k % len]; };
  at() = hi += 1;
  data_t& low = at();
  if (low != hi) low = lo -= 1;
  lo = hi = t[0][0];
  for (auto& r : t) for (auto x : r) { lo = std::min(lo, x); hi = std::max(hi, x); }
  DESC(c, rows << "x" << len << " from " << num(lo) << " to " << num(hi) << "\n");
  onex::GroupableTimeSeriesSet s;
  load(s, c, t);
  std::pair<data_t, data_t> mm = s.normalize();
  CHECK(mm.first == lo && mm.second == hi, "returns (" << num(mm.first) << ", " << num(mm.second) << ") instead of (" << num(lo) << ", " << num(hi) << ")");
  Table g = values(s);
  CHECK(g.size() == rows && g[0].size() == len, "the shape changed");
  for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < len; j++) {
    double w = ((double)t[i][j] - lo) / ((double)hi - lo);
    CHECK(std::fabs(g[i][j] - w) <= RTOL, "point " << i << "," << j << " is " << num(g[i][j]) << " instead of " << num(w));
  }
  c.label("huge");
  c.nontrivial();
}

void run(Case& c) {
  if (c.chance(1, 1000)) return huge(c);
  bool big = c.chance(1, 60);
  int rows = big ? c.range(1, 40) : c.size(1, 8), len = big ? c.range(100, 900) : c.size(1, 12);
  int kind = (int)c.below(NKINDS);
  Table t;
  if (c.chance(1, 10)) t.assign(rows, Row(len, value(c, kind))); // constant
  else t = table(c, rows, len, kind);
  // put the extremes where they are easiest to miss
  std::string ext;
  if (rows * len > 1 && c.chance(2, 3)) {
    auto place = [&](data_t v, const char* name) {
      int r = c.flip() ? (int)c.below(rows) : c.flip() ? rows - 1 : 0;
      int k = c.chance(1, 3) ? (int)c.below(len) : c.flip() ? len - 1 : 0;
      t[r][k] = v;
      ext += std::string(" ") + name + "@" + num(r) + "," + num(k);
    };
    data_t lo = t[0][0], hi = t[0][0];
    for (auto& r : t) for (auto x : r) { lo = std::min(lo, x); hi = std::max(hi, x); }
    if (c.chance(3, 4)) place(hi + 1 + (data_t)c.below(5), "max");
    if (c.chance(3, 4)) place(lo - 1 - (data_t)c.below(5), "min");
  }
  // values far from the usual magnitude, or all close together
  if (c.chance(1, 4)) {
    int how = (int)c.below(3);
    const bool sp = sizeof(data_t) == 4;
    double f = std::pow(10.0, how == 0 ? -c.range(1, sp ? 25 : 250) : how == 1 ? c.range(1, sp ? 25 : 250) : -c.range(3, sp ? 3 : 9));
    double off = how == 2 ? 1 + (double)c.below(100) : 0;
    for (auto& r : t) for (auto& x : r) x = (data_t)(off + x * f);
    static const char* hn[] = {" scaled down", " scaled up", " close together"};
    ext += hn[how];
    c.label(hn[how] + 1);
  }
  data_t lo = t[0][0], hi = t[0][0];
  for (auto& r : t) for (auto x : r) { lo = std::min(lo, x); hi = std::max(hi, x); }
  DESC(c, rows << "x" << len << " " << kindName(kind) << ext << "\n" << show(t) << "\n");

  auto check = [&](const Table& g, const char* what) {
    CHECK((int)g.size() == rows && (int)g[0].size() == len, what << ": the shape changed to " << g.size() << "x" << (g.empty() ? 0 : g[0].size()));
    bool zero = false, one = false;
    for (int i = 0; i < rows; i++) for (int j = 0; j < len; j++) {
      double w = lo == hi ? 0 : ((double)t[i][j] - (double)lo) / ((double)hi - (double)lo);
      CHECK(std::fabs(g[i][j] - w) <= RTOL, what << ": point " << i << "," << j << " is " << num(g[i][j]) << " instead of " << num(w));
      CHECK(g[i][j] >= -RTOL && g[i][j] <= 1 + RTOL, what << ": " << num(g[i][j]) << " outside [0,1]");
      zero |= std::fabs(g[i][j]) <= RTOL;
      one |= std::fabs(g[i][j] - 1) <= RTOL;
    }
    CHECK(zero && (one || lo == hi), what << ": an end of [0,1] is not attained");
  };

  onex::GroupableTimeSeriesSet s;
  CHECK(throwsOnex([&] { s.normalize(); }), "an empty set is normalized");
  CHECK(!s.isNormalized(), "a rejected normalization marks the set");
  load(s, c, t);
  CHECK(!s.isNormalized(), "reported as normalized after loading");
  std::pair<data_t, data_t> mm = s.normalize();
  CHECK(mm.first == lo && mm.second == hi, "returns (" << num(mm.first) << ", " << num(mm.second) << ") instead of (" << num(lo) << ", " << num(hi) << ")");
  CHECK(s.isNormalized(), "not reported as normalized");
  check(values(s), "normalized");
  s.normalize();
  check(values(s), "normalized twice");
  CHECK(s.isNormalized(), "not reported as normalized after the second time");
  // normalized, reduced, normalized: the formula on the values there are each time
  if (len > 1 && c.chance(1, 2)) {
    int n = c.range(1, len);
    DESC(c, "PAA " << n << " and again\n");
    if (c.flip()) load(s, c, t, "again.txt");
    s.PAA(n);
    Table was = values(s);
    data_t l2 = was[0][0], h2 = l2;
    for (auto& r : was) for (auto x : r) { l2 = std::min(l2, x); h2 = std::max(h2, x); }
    std::pair<data_t, data_t> m2 = s.normalize();
    CHECK(m2.first == l2 && m2.second == h2, "after PAA, returns (" << num(m2.first) << ", " << num(m2.second) << ") instead of (" << num(l2) << ", " << num(h2) << ")");
    CHECK(s.isNormalized(), "not reported as normalized after PAA");
    Table now = values(s);
    CHECK(now.size() == was.size() && now[0].size() == was[0].size(), "normalizing after PAA changed the shape");
    for (size_t i = 0; i < was.size(); i++) for (size_t j = 0; j < was[i].size(); j++) {
      double w = l2 == h2 ? 0 : ((double)was[i][j] - (double)l2) / ((double)h2 - (double)l2);
      CHECK(std::fabs(now[i][j] - w) <= RTOL, "normalizing " << show(was) << " after PAA: point " << i << "," << j << " is " << num(now[i][j]) << " instead of " << num(w));
    }
    c.label("normalized after PAA");
  }

  onex::OnexAPI api;
  int other = load(api, c, t, "other.txt");
  int id = load(api, c, t);
  mm = api.normalizeDataset(id);
  CHECK(mm.first == lo && mm.second == hi, "the API returns (" << num(mm.first) << ", " << num(mm.second) << ") instead of (" << num(lo) << ", " << num(hi) << ")");
  check(values(api, c, id), "API");
  CHECK(api.getDatasetInfo(id).isNormalized && !api.getDatasetInfo(other).isNormalized, "wrong marks: " << listing(api));
  CHECK(same(values(api, c, other), t), "another dataset changed");
  if (lo == hi) c.label("constant");
  c.label(len % 2 ? "odd length" : "even length");
  c.label(rows % 2 ? "odd count" : "even count");
  if (ext.find('@') != std::string::npos) c.label("extreme placed");
  if (len == 1) c.label("single column");
  if (rows == 1) c.label("single row");
  if (big) c.label("large");
  c.nontrivial(lo < hi);
}
} // namespace C04
PBT_PROPERTY("C04", 40, C04::run, h::resetState,
  "random dataset of 1-8 x 1-12 points (sometimes up to 40x900) of seven value kinds or constant, extremes placed in first/last/random cells; normalized directly (twice) and through the API, compared with the formula. Non-trivial: not all values equal")
