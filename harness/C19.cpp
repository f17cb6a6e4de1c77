#include "matchgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C19 {
using namespace h;

// Groups as the documented procedure produces them for the given values.
GroupFile refGroups(const Table& t, data_t thr, bool& sure) {
  GroupFile g;
  int n = (int)t.size(), L = (int)t[0].size();
  for (int l = 2; l <= L; l++) {
    auto& v = g.groups[l];
    for (int s = 0; s + l <= L; s++) for (int i = 0; i < n; i++) {
      Row x = slice(t[i], s, s + l);
      double best = std::numeric_limits<double>::infinity(), second = best;
      int at = -1;
      for (size_t k = 0; k < v.size(); k++) {
        double d = refEuclid(v[k].rep, x);
        if (d < best) { second = best; best = d; at = (int)k; } else second = std::min(second, d);
      }
      // values are eighths: distances differ clearly or are equal up to rounding of sqrt
      if (at >= 0 && close(best, (double)thr / 2, 1e-12) && best != thr / 2) sure = false;
      if (at >= 0 && second != best && close(best, second, 1e-12)) sure = false;
      if (at < 0 || best > (double)thr / 2) { Grp gr; gr.rep = x; v.push_back(gr); at = (int)v.size() - 1; }
      v[at].members.push_back(Member{i, s});
    }
  }
  return g;
}

void run(Case& c) {
  onex::GroupableTimeSeriesSet s;
  Table t; // empty: nothing loaded
  bool grouped = false, maybeEmpty = false;
  GroupFile g; // expected groups, when grouped
  struct Saved { std::string text; int rows, len; };
  std::vector<Saved> saved;
  int steps = c.size(4, 40);
  bool changedWhileGrouped = false, regrouped = false;
  std::string p = path(c, "file");
  auto dims = [&] { return std::make_pair((int)t.size(), t.empty() ? 0 : (int)t[0].size()); };
  auto reread = [&] { t = values(s); };
  auto dropped = [&](const char* by) {
    if (grouped) { changedWhileGrouped = true; c.label(std::string("groups dropped by ") + by); }
    grouped = false;
  };
  auto current = [&]() {
    std::string x;
    s.saveGroups(path(c, "cur"), false);
    if (!readFile(path(c, "cur"), x)) fail("saveGroups wrote no file");
    return x;
  };
  for (int k = 0; k < steps; k++) {
    int op = (int)c.below(16);
    if (t.empty() && op > 2 && !c.chance(1, 6)) op = (int)c.below(3);
    switch (op) {
      case 0: case 1: { // (re)load
        Table n;
        if (!t.empty() && c.flip()) { n = table(c, (int)t.size(), (int)t[0].size(), DYADIC); } // same dimensions
        else n = table(c, c.range(1, 3), c.range(1, 6), DYADIC);
        DESC(c, "load " << show(n) << "\n");
        load(s, c, n);
        t = n;
        dropped("loading");
        break;
      }
      case 2: { // failing load: the old data are gone or still there, never mixed with groups
        DESC(c, "load an unusable file\n");
        std::string f = p;
        int how = (int)c.below(4);
        if (how == 0) f = path(c, "missing");
        else if (how == 1) writeFile(p, "1 2 3\n4 5\n");
        else if (how == 2) writeFile(p, "1 2 3\n4 x 5\n");
        else writeFile(p, "");
        CHECK(throwsOnex([&] { s.loadData(f, 0, 0, " "); }), "an unusable file is loaded");
        Table now = values(s);
        if (now.empty()) { dropped("a failed load"); t.clear(); }
        else {
          CHECK(same(now, t), "a failed load left other values " << show(now));
          if (!s.isGrouped()) grouped = false;
        }
        break;
      }
      case 3: case 4: {
        data_t thr = (data_t)(c.range(-1, 16) / 4.0);
        bool dtw = c.chance(1, 4);
        DESC(c, "group " << (dtw ? "euclidean_dtw " : "euclidean ") << num(thr) << "\n");
        int n = 0;
        bool threw = throwsOnex([&] { n = s.groupAllLengths(dtw ? "euclidean_dtw" : "euclidean", thr); });
        CHECK(threw == t.empty(), "grouping " << (threw ? "is rejected" : "succeeds without data"));
        if (threw) break;
        CHECK(s.isGrouped(), "not grouped after grouping");
        g = parseGroups(current(), false);
        auto d = dims();
        checkPartition(g, d.first, d.second);
        CHECK(g.total() == n, n << " groups reported but " << g.total() << " exist");
        for (auto& lg : g.groups) for (auto& x : lg.second) {
          bool real = false;
          for (auto& m : x.members) { bool eq = true; for (int q = 0; q < lg.first; q++) eq &= sameValue(x.rep[q], t[m.idx][m.start + q]); real |= eq; }
          CHECK(real, "the representative " << show(x.rep) << " is no member's current values");
        }
        if (!dtw) {
          bool sure = true;
          GroupFile r = refGroups(t, thr, sure);
          std::string why;
          if (sure) CHECK(sameGroups(r, g, why), "groups do not describe the current values: " << why);
        }
        grouped = true;
        if (changedWhileGrouped) regrouped = true;
        break;
      }
      case 5: { // failing group
        DESC(c, "group with an unknown distance\n");
        CHECK(throwsOnex([&] { s.groupAllLengths(c.flip() ? "manhattan" : "", 1); }), "an unknown distance is accepted");
        CHECK(!s.isGrouped(), "grouped after grouping failed");
        grouped = false;
        c.label("failed grouping");
        break;
      }
      case 6: { // load groups
        if (t.empty()) break;
        if (!saved.empty() && c.chance(3, 4)) {
          Saved& x = saved[c.below(saved.size())];
          writeFile(p, x.text);
          bool ok = std::make_pair(x.rows, x.len) == dims();
          DESC(c, "load " << (ok ? "compatible" : "incompatible") << " saved groups\n");
          CHECK(throwsOnex([&] { s.loadGroups(p); }) == !ok, (ok ? "compatible groups are rejected" : "incompatible groups are accepted"));
          if (ok) { g = parseGroups(x.text, false); grouped = true; c.label("earlier groups loaded"); }
          break;
        }
        GroupFile r = randomGroups(c, t, DYADIC);
        DESC(c, "load groups\n" << groupText(r));
        writeFile(p, groupText(r));
        s.loadGroups(p);
        g = r;
        grouped = true;
        if (changedWhileGrouped) regrouped = true;
        break;
      }
      case 7: { // failing load of groups keeps what was there
        DESC(c, "load unusable groups\n");
        std::string text = "1 0.5 1 1\n2 3\n";
        if (!t.empty() && t[0].size() >= 2 && c.chance(3, 4)) {
          text = groupText(randomGroups(c, t, DYADIC));
          text.resize(c.below(text.size() - 4)); // ends before the last member
          while (!text.empty() && text.back() != ' ' && text.back() != '\n') text.pop_back();
        }
        writeFile(p, text);
        if (!t.empty()) CHECK(throwsOnex([&] { s.loadGroups(p); }), "truncated groups are accepted");
        c.label("failed loading of groups");
        break;
      }
      case 8: case 9: {
        DESC(c, "normalize\n");
        bool threw = throwsOnex([&] { s.normalize(); });
        CHECK(threw == t.empty(), "normalizing " << (threw ? "is rejected" : "succeeds without data"));
        if (!threw) { reread(); dropped("normalizing"); }
        break;
      }
      case 10: case 11: {
        int n = c.chance(1, 4) ? -c.range(0, 1) : c.range(1, 4);
        DESC(c, "PAA " << n << "\n");
        bool threw = throwsOnex([&] { s.PAA(n); });
        CHECK(threw == (t.empty() || n <= 0), "PAA with blocks of " << n << (threw ? " is rejected" : " succeeds"));
        if (!threw) { reread(); dropped("PAA"); }
        break;
      }
      case 12: {
        if (!c.chance(1, 2)) break;
        DESC(c, c.flip() ? "clear\n" : "clear \n");
        s.clearData();
        t.clear();
        dropped("clearing");
        break;
      }
      case 13: {
        DESC(c, "reset groups\n");
        s.reset();
        grouped = false;
        break;
      }
      default: { // save groups for later
        if (!grouped) break;
        DESC(c, "save groups\n");
        Saved x{current(), dims().first, dims().second};
        saved.push_back(x);
      }
    }
    (void)maybeEmpty;
    // what is reported now
    CHECK(s.isGrouped() == grouped, "reports " << (grouped ? "ungrouped" : "grouped") << " although it is " << (grouped ? "grouped" : "not"));
    CHECK(s.isLoaded() == !t.empty() && s.getItemCount() == (int)t.size(), "reports " << s.getItemCount() << " series instead of " << t.size());
    if (!grouped) {
      CHECK(throwsOnex([&] { s.saveGroups(path(c, "x"), c.flip()); }), "an ungrouped dataset saves groups");
      CHECK(throwsOnex([&] { s.getBestMatch(makeTS(Row(2, 1))); }), "an ungrouped dataset matches");
      continue;
    }
    std::string why;
    CHECK(sameGroups(g, parseGroups(current(), false), why), "the groups are not the ones last made: " << why);
    if (c.chance(1, 2) && t[0].size() >= 2) {
      double ratio = ratioGen(c);
      onex::setWarpingBandRatio(ratio);
      Query q = queryGen(c, t);
      if (q.row.size() < 2) continue;
      RefMatch r = refMatch(t, g, q.row, ratio);
      onex::candidate_time_series_t m;
      try { m = s.getBestMatch(s.getTimeSeries(q.index, q.start, q.end)); } catch (OnexException& e) { CHECK(!r.exists, "no match (" << e.what() << ")"); continue; }
      checkGenuine(t, q.row, ratio, m);
      checkOptimal(t, g, q.row, ratio, m);
      c.label("match on current groups");
    }
  }
  c.nontrivial(changedWhileGrouped && regrouped);
}
} // namespace C19
PBT_PROPERTY("C19", 25, C19::run, h::resetState,
  "4-40 operations on one set: load (also of the same dimensions), failing load, group by either distance, failing group, load valid, earlier and truncated groups, normalize, PAA, clear, reset; after each the grouped state is checked, the groups are compared with those last made (recomputed by a reference for euclidean), and queries are compared with an exhaustive search on current values. Non-trivial: groups were dropped by a change and made again")
