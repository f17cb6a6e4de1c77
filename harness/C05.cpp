#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C05 {
using namespace h;

Table refPaa(const Table& t, int n) {
  Table r;
  for (auto& x : t) {
    Row y;
    for (size_t s = 0; s < x.size(); s += n) {
      size_t e = (size_t)n < x.size() - s ? s + n : x.size();
      ld sum = 0;
      for (size_t i = s; i < e; i++) sum += x[i];
      y.push_back((data_t)(sum / (ld)(e - s)));
      if (e == x.size()) break;
    }
    r.push_back(y);
  }
  return r;
}

void huge(Case& c) {
  Table t = hugeTable(c, c.chance(1, 4));
  int L = (int)t[0].size();
  int n = c.flip() ? c.range(1, 9) : c.flip() ? c.range(1, L) : L - c.range(0, std::min(L - 1, 3));
  DESC(c, t.size() << "x" << L << " PAA " << n << "\n");
  onex::GroupableTimeSeriesSet s;
  load(s, c, t);
  s.PAA(n);
  Table want = refPaa(t, n), got = values(s);
  CHECK(got.size() == want.size() && got[0].size() == want[0].size(), "PAA gives " << got.size() << "x" << got[0].size() << " instead of " << want.size() << "x" << want[0].size());
  for (size_t i = 0; i < got.size(); i++) for (size_t j = 0; j < got[i].size(); j++)
    CHECK(std::fabs(got[i][j] - want[i][j]) <= RTOL * 1e4, "point " << i << "," << j << " is " << num(got[i][j]) << " instead of " << num(want[i][j]));
  c.label("huge");
  c.nontrivial(n > 1 && L > 1);
}

void run(Case& c) {
  if (c.chance(1, 1000)) return huge(c);
  bool big = c.chance(1, 60);
  int rows = big ? c.range(1, 10) : c.size(1, 8), len = big ? c.range(200, 2000) : c.size(1, 24);
  int kind = (int)c.below(NKINDS);
  Table t = table(c, rows, len, kind), want = t;
  onex::GroupableTimeSeriesSet s;
  CHECK(throwsOnex([&] { s.PAA(c.range(0, 6) - 1); }), "PAA is done on a set without data");
  CHECK(s.getItemCount() == 0 && s.getItemLength() == 0 && !s.isLoaded(), "a rejected PAA changed an empty set");
  load(s, c, t);
  onex::OnexAPI api;
  int other = load(api, c, t, "other.txt");
  int id = load(api, c, t);
  int times = c.range(1, 3);
  DESC(c, rows << "x" << len << " " << kindName(kind) << "\n" << show(t) << "\n");
  double scale = 0;
  for (auto& r : t) for (auto x : r) scale = std::max(scale, (double)std::fabs(x));
  bool partial = false, real = false;
  for (int k = 0; k < times; k++) {
    int L = (int)want[0].size();
    int n;
    switch (c.below(6)) {
      case 0: n = 1; break;
      case 1: n = L; break;
      case 2: n = L + c.range(1, 4); break;
      case 3: n = c.chance(1, 4) ? std::numeric_limits<int>::max() : L * 2; break;
      default: n = c.range(1, std::max(1, L));
    }
    DESC(c, "PAA " << n << "\n");
    if (c.chance(1, 4)) {
      int bad = c.flip() ? 0 : c.flip() ? -c.range(1, 5) : std::numeric_limits<int>::min();
      CHECK(throwsOnex([&] { s.PAA(bad); }), "block size " << bad << " is accepted");
      CHECK(throwsOnex([&] { api.PAA(id, bad); }), "the API accepts block size " << bad);
      CHECK(same(values(s), want) && s.getItemLength() == L, "a rejected PAA changed the set");
      c.label("rejected block size");
    }
    Table before = values(s);
    s.PAA(n);
    onex::dataset_info_t d = api.PAA(id, n);
    want = refPaa(want, n);
    int W = (int)want[0].size();
    CHECK(s.getItemCount() == rows && s.getItemLength() == W, "PAA " << n << " gives " << s.getItemCount() << "x" << s.getItemLength() << " instead of " << rows << "x" << W);
    CHECK(d.id == id && d.itemCount == rows && d.itemLength == W && !d.isGrouped, "the API reports " << info(d));
    Table got = values(s), ga = values(api, c, id);
    CHECK(ga.size() == got.size() && (int)ga[0].size() == W, "the dataset behind the API has another shape");
    for (int i = 0; i < rows; i++) for (int j = 0; j < W; j++) {
      double tol = RTOL * scale * (big ? 10 : 1);
      CHECK(std::fabs(got[i][j] - want[i][j]) <= tol, "PAA " << n << ": point " << i << "," << j << " is " << num(got[i][j]) << " instead of " << num(want[i][j]));
      CHECK(std::fabs(ga[i][j] - want[i][j]) <= tol, "PAA " << n << " through the API: point " << i << "," << j << " is " << num(ga[i][j]) << " instead of " << num(want[i][j]));
    }
    if (n == 1) CHECK(same(got, before), "block size 1 changed a value");
    want = got; // later blocks are means of what is there now
    partial |= L % n != 0 && n < L;
    real |= n > 1 && L > 1;
    c.label(n == 1 ? "n=1" : n > L ? "n>L" : n == L ? "n=L" : L % n ? "last block shorter" : "n divides L");
  }
  CHECK(same(values(api, c, other), t), "another dataset changed");
  if (times > 1) c.label("repeated");
  if (big) c.label("large");
  c.nontrivial(real && (partial || times > 1 || rows > 1));
}
} // namespace C05
PBT_PROPERTY("C05", 40, C05::run, h::resetState,
  "random dataset of 1-8 x 1-24 points (sometimes up to 2000), 1-3 successive PAA calls with dividing, non-dividing, unit, over-long and invalid block sizes; compared with block means computed in extended precision. Non-trivial: a block of at least two points and a shorter last block, repetition or several series")
