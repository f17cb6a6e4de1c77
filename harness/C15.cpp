#include "matchgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C15 {
using namespace h;

// Reference distance for non-finite and overflowing values.
double oddDtw(const Row& a, const Row& b, double ratio) {
  for (auto x : a) if (!std::isfinite(x)) return std::numeric_limits<double>::infinity();
  for (auto x : b) if (!std::isfinite(x)) return std::numeric_limits<double>::infinity();
  int mx = (int)std::max(a.size(), b.size());
  ld cst = refDtwCost(a, b, refBand(mx, ratio));
  if (cst > (ld)std::numeric_limits<data_t>::max()) return std::numeric_limits<double>::infinity();
  return (double)(sqrtl(cst) / (2 * (ld)mx));
}

int anyInt(Case& c, int n) {
  switch (c.below(6)) {
    case 0: return -c.range(1, 3);
    case 1: return n;
    case 2: return n + c.range(1, 3);
    case 3: return c.flip() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
    default: return c.range(0, std::max(0, n - 1));
  }
}

std::string oddText(Case& c, const Table& t, int den) {
#ifdef SINGLE_PRECISION
  static const char* v[] = {"nan", "inf", "-inf", "1e30", "-1e30"};
#else
  static const char* v[] = {"nan", "inf", "-inf", "1e200", "-1e200"};
#endif
  std::string s;
  for (auto& r : t) {
    for (auto x : r) s += (den && c.chance(1, den) ? std::string(v[c.below(5)]) : num(x)) + " ";
    s += "\n";
  }
  return s;
}

void run(Case& c) {
  onex::OnexAPI api;
  bool lng = c.chance(1, 600);
  int n = lng ? 1 : c.range(1, 3);
  std::vector<Table> ts;
  std::vector<bool> grouped;
  bool odd = false;
  for (int k = 0; k < n; k++) {
    int rows = c.size(1, 4), len = c.size(1, 10);
    int kind = (int)c.below(NKINDS);
    Table t = lng ? longTable(c, kind) : table(c, rows, len, kind);
    if (lng) { rows = (int)t.size(); len = (int)t[0].size(); c.label("long"); }
    int den = c.chance(1, 3) ? c.range(2, 12) : 0;
    std::string text = oddText(c, t, den);
    writeFile(path(c, "in.txt"), text);
    api.loadDataset(path(c, "in.txt"), 0, 0, " ");
    odd |= den > 0;
    DESC(c, "dataset " << k << " " << rows << "x" << len << "\n" << text.substr(0, 700));
    ts.push_back(parseTable(text));
    bool g = c.chance(4, 5);
    if (g) {
      data_t thr = thresholdGen(c, t);
      if (c.chance(1, 10)) thr = std::numeric_limits<data_t>::infinity();
      DESC(c, "grouped with " << num(thr) << "\n");
      api.groupDataset(k, thr);
    }
    grouped.push_back(g);
  }
  std::vector<GroupFile> gf(n);
  for (int k = 0; k < n; k++) if (grouped[k]) gf[k] = savedGroups(api, c, k);
  std::string before = listing(api);
  double ratio = 0.1;
  int q = lng ? c.range(2, 4) : c.range(2, 10), answers = 0, errors = 0;
  for (int i = 0; i < q; i++) {
    if (c.chance(1, 3)) { ratio = ratioGen(c); api.setWarpingBandRatio(ratio); }
    int rd = c.chance(1, 8) ? anyInt(c, n) : (int)c.below(n), qd = c.chance(1, 8) ? anyInt(c, n) : (int)c.below(n);
    int rows = qd >= 0 && qd < n ? (int)ts[qd].size() : 2, len = qd >= 0 && qd < n ? (int)ts[qd][0].size() : 5;
    int idx = c.chance(1, 6) ? anyInt(c, rows) : (int)c.below(rows);
    int s, e;
    switch (c.below(5)) {
      case 0: s = anyInt(c, len); e = anyInt(c, len + 1); break;
      case 1: s = e = -1; break;
      default: s = (int)c.below(len); e = s + 1 + (int)c.below(len - s);
    }
    std::string why;
    Row row;
    RefMatch r;
    double best = std::numeric_limits<double>::infinity();
    bool close_call = false;
    if (rd < 0 || rd >= n || qd < 0 || qd >= n) why = "no such dataset";
    else if (idx < 0 || idx >= rows) why = "no such series";
    else if (!(s < 0 && e < 0) && (s < 0 || s >= e || e > len)) why = "no such range";
    else if (!grouped[rd]) why = "not grouped";
    else {
      row = s < 0 ? ts[qd][idx] : slice(ts[qd][idx], s, e);
      if (row.size() < 2) why = "query shorter than two points";
      else {
        for (auto& lg : gf[rd].groups) {
          if (!eligible((int)row.size(), lg.first, ratio)) continue;
          for (auto& gr : lg.second) best = std::min(best, oddDtw(gr.rep, row, ratio));
        }
        if (std::isinf(best)) why = "no representative at a finite distance";
      }
    }
    DESC(c, "ratio " << num(ratio) << " match " << rd << " with " << qd << " series " << idx << " [" << s << "," << e << "): " << (why.empty() ? "expected to answer" : why) << "\n");
    (void)close_call;
    try {
      onex::candidate_time_series_t m = api.getBestMatch(rd, qd, idx, s, e);
      CHECK(why.empty(), "a match (" << showMatch(m) << ") although: " << why);
      answers++;
      int mi = m.data.getIndex(), ms = m.data.getStart(), ml = m.data.getLength();
      const Table& t = ts[rd];
      CHECK(mi >= 0 && mi < (int)t.size() && ms >= 0 && ml >= 2 && ms + ml <= (int)t[0].size(), "match is not a subsequence: " << showMatch(m));
      CHECK(eligible((int)row.size(), ml, ratio), "length " << ml << " is not allowed for a query of " << row.size() << " points");
      double d = oddDtw(row, slice(t[mi], ms, ms + ml), ratio);
      CHECK(close(d, m.dist, RTOL, 1e-150), "reported distance " << num(m.dist) << " but the true one is " << num(d));
      CHECK(m.dist <= best * (1 + TIE) + 1e-150, "the match is farther (" << num(m.dist) << ") than the nearest representative (" << num(best) << ")");
    } catch (OnexException& ex) {
      CHECK(!why.empty(), "rejected (" << ex.what() << ") although a representative is at distance " << num(best));
      errors++;
    }
    c.label(why.empty() ? "answered" : why);
  }
  CHECK(listing(api) == before, "matching changed the session from " << before << " to " << listing(api));
  if (odd) c.label("non-finite or overflowing values");
  c.nontrivial(answers > 0 && errors > 0);
}
} // namespace C15
PBT_PROPERTY("C15", 6, C15::run, h::resetState,
  "sessions of 1-3 datasets from 1x1 to 4x10, rarely up to 140 points (some with nan, inf, overflowing values), most grouped (also with an infinite threshold), 2-10 match requests with valid and invalid datasets, series and ranges; the expected outcome is decided from the data. Non-trivial: a case with both an answer and a rejection")
