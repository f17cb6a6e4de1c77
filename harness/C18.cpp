#include "matchgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C18 {
using namespace h;

struct Entry { std::string name; Table t; bool normalized = false, grouped = false; std::string groups; };
struct GF { std::string path, text; int rows, len; };
struct Session {
  onex::OnexAPI api;
  std::map<int, Entry> m;
  int smallestFree() const { int i = 0; while (m.count(i)) i++; return i; }
};

std::string slurp(const std::string& p) {
  std::string s;
  if (!readFile(p, s)) fail("no file " + p);
  return s;
}

void checkInfo(const onex::dataset_info_t& i, int id, const Entry& e, const char* what) {
  CHECK(i.id == id && i.name == e.name && i.itemCount == (int)e.t.size() && i.itemLength == (int)e.t[0].size() && i.isNormalized == e.normalized && i.isGrouped == e.grouped,
        what << " reports " << info(i) << " instead of {id " << id << " " << e.name << " " << e.t.size() << "x" << e.t[0].size() << (e.normalized ? " N" : "") << (e.grouped ? " G" : "") << "}");
}

void checkListing(Session& s) {
  CHECK(s.api.getDatasetCount() == (int)s.m.size(), "dataset count " << s.api.getDatasetCount() << " instead of " << s.m.size());
  auto all = s.api.getAllDatasetInfo();
  CHECK(all.size() == s.m.size(), "listing of " << all.size() << " instead of " << s.m.size() << " datasets");
  size_t k = 0;
  for (auto& e : s.m) {
    checkInfo(all[k++], e.first, e.second, "the listing");
    checkInfo(s.api.getDatasetInfo(e.first), e.first, e.second, "the dataset info");
  }
}

void checkContents(Session& s, Case& c) {
  for (auto& e : s.m) {
    CHECK(same(values(s.api, c, e.first), e.second.t), "values of dataset " << e.first << " are " << show(values(s.api, c, e.first)) << " instead of " << show(e.second.t));
    std::string p = path(c, "peek.groups");
    if (e.second.grouped) {
      s.api.saveGroup(e.first, p, false);
      CHECK(slurp(p) == e.second.groups, "groups of dataset " << e.first << " changed");
    } else CHECK(throwsOnex([&] { s.api.saveGroup(e.first, p, false); }), "ungrouped dataset " << e.first << " saves groups");
  }
}

Table refPAA(const Table& t, int n) {
  Table r;
  for (auto& x : t) {
    Row y;
    for (size_t i = 0; i < x.size(); i += n) {
      ld s = 0;
      size_t k = std::min(x.size(), i + n);
      for (size_t j = i; j < k; j++) s += x[j];
      y.push_back((data_t)(s / (ld)(k - i)));
      if (k == x.size()) break;
    }
    r.push_back(y);
  }
  return r;
}
Table refNormal(const Table& t) {
  data_t lo = t[0][0], hi = lo;
  for (auto& r : t) for (auto v : r) { lo = std::min(lo, v); hi = std::max(hi, v); }
  Table o = t;
  for (auto& r : o) for (auto& v : r) v = hi == lo ? 0 : (data_t)(((ld)v - lo) / ((ld)hi - lo));
  return o;
}
bool near(const Table& a, const Table& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].size() != b[i].size()) return false;
    for (size_t j = 0; j < a[i].size(); j++) if (!close(a[i][j], b[i][j], 1e-6, 1e-6)) return false;
  }
  return true;
}

// Hundreds of datasets at once.
void many(Case& c) {
  onex::OnexAPI api;
  std::map<int, int> m; // id -> series length
  int target = c.pick(std::vector<int>{40, 140, 300, 1100}) + c.range(0, 30), steps = target * 2;
  for (int l = 1; l <= 5; l++) writeFile(path(c, "m" + num(l)), tableText(Table(1, Row(l, (data_t)l))));
  bool reused = false;
  DESC(c, "up to " << target << " datasets\n");
  for (int k = 0; k < steps; k++) {
    if (k < target || c.flip()) {
      int l = c.range(1, 5), id = 0;
      while (m.count(id)) id++;
      if (!m.empty() && id < m.rbegin()->first) reused = true;
      onex::dataset_info_t i = api.loadDataset(path(c, "m" + num(l)), 0, 0, " ");
      CHECK(i.id == id && i.itemLength == l, "load gives " << info(i) << " but " << id << " is the smallest free id");
      m[id] = l;
    } else if (!m.empty()) {
      int id = c.chance(1, 4) ? m.rbegin()->first : std::next(m.begin(), c.below(m.size()))->first;
      api.unloadDataset(id);
      m.erase(id);
      CHECK(throwsOnex([&] { api.getDatasetInfo(id); }), "unloaded dataset " << id << " answers");
    }
    CHECK(api.getDatasetCount() == (int)m.size(), "dataset count " << api.getDatasetCount() << " instead of " << m.size());
    if (k % 64 && k + 1 < steps) continue;
    auto all = api.getAllDatasetInfo();
    CHECK(all.size() == m.size(), "listing of " << all.size() << " instead of " << m.size());
    size_t q = 0;
    for (auto& e : m) {
      CHECK(all[q].id == e.first && all[q].itemLength == e.second && all[q].name == path(c, "m" + num(e.second)), "the listing has " << info(all[q]) << " instead of dataset " << e.first << " of length " << e.second);
      q++;
    }
  }
  c.label("hundreds of datasets");
  c.nontrivial(reused);
}

void run(Case& c) {
  if (c.chance(1, 300)) return many(c);
  Session ses[2];
  int files = c.range(2, 5);
  std::vector<Table> ft;
  std::vector<std::string> fn;
  for (int i = 0; i < files; i++) {
    int rows = c.range(1, 3), len = c.range(1, 6);
    if (i && c.flip()) { rows = (int)ft[0].size(); len = (int)ft[0][0].size(); } // same dimensions: groups are interchangeable
    ft.push_back(table(c, rows, len, DYADIC));
    fn.push_back(oddPath(c, "d" + num(i)));
    writeFile(fn[i], tableText(ft[i]));
    DESC(c, "file " << i << ": " << show(ft[i]) << "\n");
  }
  std::string bad = path(c, "bad");
  writeFile(bad, "x x\n3 4\n");
  
  std::vector<GF> gf; // saved group files
  int steps = c.size(8, 90), sessions = c.chance(1, 3) ? 2 : 1;
  bool rejectedAny = false, reused = false, several = false;
  for (int k = 0; k < steps; k++) {
    Session& s = ses[sessions == 2 ? c.below(2) : 0];
    int span = s.m.empty() ? 1 : s.m.rbegin()->first + 1;
    int id;
    if (!s.m.empty() && !c.chance(1, 5)) { auto it = s.m.begin(); std::advance(it, c.below(s.m.size())); id = it->first; }
    else { int q = c.range(0, span + 3); id = q < span + 2 ? q : q == span + 2 ? -1 : c.flip() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min(); }
    int op = (int)c.below(14);
    if (s.m.size() < 2 && c.chance(3, 4)) op = 0;
    if (s.m.size() > 6 && (op < 3 || op == 4)) op = 3;
    if ((op == 10 || op == 12) && c.chance(3, 4)) // mostly on a dataset with groups
      for (auto& e : s.m) if (e.second.grouped) { id = e.first; if (c.flip()) break; }
    if (op == 11 && c.chance(3, 4)) // mostly on a dataset some file fits
      for (auto& e : s.m) for (auto& x : gf) if (x.rows == (int)e.second.t.size() && x.len == (int)e.second.t[0].size()) id = e.first;
    bool known = s.m.count(id) > 0;
    bool threw = false;
    std::string what;
    auto expect = [&](bool ok, const char* name) {
      CHECK(threw == !ok, name << " of dataset " << id << (threw ? " is rejected" : " is accepted"));
      if (threw) rejectedAny = true;
      c.label(std::string(name) + (threw ? " (rejected)" : ""));
    };
    DESC(c, (int)(&s - ses) << ": ");
    switch (op) {
      case 0: case 1: case 2: case 4: {
        int f = c.range(0, files + 1);
        onex::dataset_info_t i;
        int id2 = s.smallestFree(), limit = c.chance(1, 4) ? c.range(0, 3) : 0, sc = c.chance(1, 5) ? 1 : 0;
        bool ok = f < files && sc < (int)ft[f < files ? f : 0][0].size();
        DESC(c, "load " << (f < files ? "d" + num(f) : "bad") << " limit " << limit << " start column " << sc << "\n");
        try { i = s.api.loadDataset(f < files ? fn[f] : f == files ? bad : path(c, "missing"), limit, sc, " "); } catch (OnexException&) { threw = true; }
        id = id2;
        expect(ok, "load");
        if (ok) {
          Entry e;
          e.name = fn[f];
          for (auto& r : ft[f]) { if (limit && (int)e.t.size() == limit) break; e.t.push_back(Row(r.begin() + sc, r.end())); }
          if (!s.m.empty() && id2 < s.m.rbegin()->first) { reused = true; c.label("smallest id reused"); }
          s.m[id2] = e;
          CHECK(i.id == id2, "load gives id " << i.id << " but " << id2 << " is the smallest free one");
          checkInfo(i, id2, e, "load");
        }
        break;
      }
      case 3:
        DESC(c, "unload " << id << "\n");
        threw = throwsOnex([&] { s.api.unloadDataset(id); });
        expect(known, "unload");
        s.m.erase(id);
        break;
      case 5:
        if (!c.chance(1, 6)) { DESC(c, "nothing\n"); break; }
        DESC(c, "unload all\n");
        s.api.unloadAllDataset();
        s.m.clear();
        c.label("unload all");
        break;
      case 6: {
        DESC(c, "normalize " << id << "\n");
        threw = throwsOnex([&] { s.api.normalizeDataset(id); });
        expect(known, "normalize");
        if (!known) break;
        Table now = values(s.api, c, id), want = refNormal(s.m[id].t);
        CHECK(near(now, want), "normalizing " << show(s.m[id].t) << " gives " << show(now));
        Entry& e = s.m[id];
        e.t = now; e.normalized = true; e.grouped = false; e.groups.clear();
        break;
      }
      case 7: {
        int n = c.chance(1, 4) ? -c.range(0, 2) : c.range(1, 5);
        DESC(c, "PAA " << id << " " << n << "\n");
        onex::dataset_info_t i;
        try { i = s.api.PAA(id, n); } catch (OnexException&) { threw = true; }
        expect(known && n > 0, "PAA");
        if (!known || n <= 0) break;
        Table now = values(s.api, c, id), want = refPAA(s.m[id].t, n);
        CHECK(near(now, want), "PAA of " << show(s.m[id].t) << " with blocks of " << n << " gives " << show(now));
        Entry& e = s.m[id];
        e.t = now; e.grouped = false; e.groups.clear();
        checkInfo(i, id, e, "PAA");
        break;
      }
      case 8: case 9: {
        data_t thr = (data_t)(c.range(0, 16) / 4.0);
        DESC(c, "group " << id << " " << num(thr) << "\n");
        int n = -1;
        threw = throwsOnex([&] { n = s.api.groupDataset(id, thr); });
        expect(known, "group");
        if (!known) break;
        Entry& e = s.m[id];
        s.api.saveGroup(id, path(c, "peek.groups"), false);
        e.grouped = true;
        e.groups = slurp(path(c, "peek.groups"));
        GroupFile g = parseGroups(e.groups, false);
        checkPartition(g, (int)e.t.size(), (int)e.t[0].size());
        CHECK(g.total() == n, n << " groups reported but " << g.total() << " exist");
        break;
      }
      case 10: { // save groups
        bool so = c.chance(1, 4), badPath = c.chance(1, 6);
        std::string p = badPath ? path(c, "no/such/dir/g") : oddPath(c, "g" + num(gf.size()));
        DESC(c, "save groups of " << id << (so ? " (sizes)" : "") << (badPath ? " to an unusable path" : "") << "\n");
        threw = throwsOnex([&] { s.api.saveGroup(id, p, so); });
        bool ok = known && s.m[id].grouped && !badPath;
        if (!known) s.m.erase(id);
        expect(ok, "save groups");
        if (ok && !so) { gf.push_back(GF{p, slurp(p), (int)s.m[id].t.size(), (int)s.m[id].t[0].size()}); CHECK(gf.back().text == s.m[id].groups, "groups of dataset " << id << " were saved differently before"); }
        break;
      }
      case 11: { // load groups
        std::string p = bad;
        bool ok = false;
        int rows = known ? (int)s.m[id].t.size() : 0, len = known ? (int)s.m[id].t[0].size() : 0;
        if (!gf.empty() && !c.chance(1, 4)) {
          size_t at = c.below(gf.size());
          for (size_t q = 0; q < gf.size() && c.chance(7, 8) && !(gf[at].rows == rows && gf[at].len == len); q++) at = (at + 1) % gf.size();
          GF& x = gf[at];
          p = x.path;
          ok = known && x.rows == rows && x.len == len;
          writeFile(p, x.text);
        }
        DESC(c, "load groups of " << id << (ok ? " from a compatible file" : " from an unusable file") << "\n");
        threw = throwsOnex([&] { s.api.loadGroup(id, p); });
        expect(ok, "load groups");
        if (!ok) break;
        Entry& e = s.m[id];
        s.api.saveGroup(id, path(c, "peek.groups"), false);
        e.grouped = true;
        e.groups = slurp(path(c, "peek.groups"));
        checkPartition(parseGroups(e.groups, false), rows, len);
        break;
      }
      case 12: { // match
        int q = s.m.empty() || c.chance(1, 5) ? c.range(0, span + 1) - 1 : std::next(s.m.begin(), c.below(s.m.size()))->first;
        bool kq = s.m.count(q) > 0;
        int idx = kq ? c.range(0, (int)s.m[q].t.size()) : 0;
        DESC(c, "match " << id << " with " << q << " series " << idx << "\n");
        onex::candidate_time_series_t m;
        try { m = s.api.getBestMatch(id, q, idx); } catch (OnexException&) { threw = true; }
        if (!known || !kq || !s.m[id].grouped || idx >= (int)s.m[q].t.size()) expect(false, "match");
        else if (!threw) { checkGenuine(s.m[id].t, s.m[q].t[idx], 0.1, m); c.label("match"); }
        break;
      }
      default: { // save dataset
        bool badPath = c.chance(1, 4);
        std::string p = badPath ? path(c, "no/such/dir/d") : path(c, "out");
        DESC(c, "save " << id << (badPath ? " to an unusable path" : "") << "\n");
        threw = throwsOnex([&] { s.api.saveDataset(id, p, ','); });
        expect(known && !badPath, "save");
        if (known && !badPath) CHECK(same(parseTable(slurp(p), ','), s.m[id].t), "saved file differs from dataset " << id);
      }
    }
    for (int q : {-1, s.smallestFree(), s.m.empty() ? 0 : s.m.rbegin()->first + 1})
      if (!s.m.count(q)) CHECK(throwsOnex([&] { s.api.getDatasetInfo(q); }), "info of dataset " << q << ", which is not loaded");
    for (int q = 0; q < sessions; q++) checkListing(ses[q]);
    if (k % 3 == 2 || k + 1 == steps) for (int q = 0; q < sessions; q++) checkContents(ses[q], c);
    several |= s.m.size() >= 3;
  }
  if (sessions == 2) c.label("two sessions");
  if (several) c.label("three or more datasets at once");
  c.nontrivial(several && rejectedAny && reused);
}
} // namespace C18
PBT_PROPERTY("C18", 20, C18::run, h::resetState,
  "8-90 operations (load, unload, unload-all, normalize, PAA, group, save, save/load groups, match; valid and invalid ids, arguments and paths) over one or two sessions and 2-5 files, with the full listing checked after every step and all values and groups every third step against a model. Non-trivial: three datasets at once, a rejected operation and a reused smaller id")
