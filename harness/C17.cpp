#include "matchgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C17 {
using namespace h;

// What the documented format says about a file for a rows x len dataset. EITHER: text the format
// does not settle (extra text at the end, unusual spellings of numbers, empty groups).
struct Verdict { enum { REJECT, ACCEPT, EITHER } v; std::string why; int groups = 0; GroupFile g; };

bool plainInt(const std::string& s) {
  size_t i = s[0] == '-' ? 1 : 0;
  if (i == s.size() || s.size() - i > 9) return false;
  for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false;
  return true;
}
bool plainNum(const std::string& s) {
  size_t i = s[0] == '-' ? 1 : 0, d = 0;
  while (i < s.size() && isdigit((unsigned char)s[i])) { i++; d++; }
  if (!d) return false;
  if (i < s.size() && s[i] == '.') { i++; size_t e = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; e++; } if (!e) return false; }
  if (i < s.size() && s[i] == 'e') {
    i++;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
    size_t e = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) { i++; e++; }
    if (!e || e > 3) return false;
  }
  if (i != s.size()) return false;
  double v = strtod(s.c_str(), nullptr);
#ifdef SINGLE_PRECISION
  if (std::fabs(v) > 3e38 || (v != 0 && std::fabs(v) < 1.2e-38)) return false;
#else
  if (std::isinf(v) || (v != 0 && std::fabs(v) < 2.3e-308)) return false;
#endif
  return true;
}

Verdict judge(const std::string& text, int rows, int len) {
  auto w = words(text);
  for (char ch : text) if (!ch || (unsigned char)ch > 126) return Verdict{Verdict::EITHER, "bytes outside the format", 0, GroupFile()};
  size_t p = 0;
  Verdict r{Verdict::ACCEPT, "", 0, GroupFile()};
  bool either = false;
  auto reject = [&](const std::string& why) { r.v = either ? Verdict::EITHER : Verdict::REJECT; r.why = why; return r; };
  // 1: ok, 0: ends, -1: unusual spelling
  auto getInt = [&](long long& v) {
    if (p >= w.size()) return 0;
    if (!plainInt(w[p])) { either = true; return -1; }
    v = atoll(w[p++].c_str());
    return 1;
  };
  auto getNum = [&]() {
    if (p >= w.size()) return 0;
    if (!plainNum(w[p])) { either = true; return -1; }
    p++;
    return 1;
  };
#define NEED(x) { int _k = x; if (_k == 0) return reject("truncated"); if (_k < 0) return reject("unusual number"); }
  long long ver, items, l, from, to;
  NEED(getInt(ver));
  NEED(getNum());
  NEED(getInt(items));
  NEED(getInt(l));
  if (ver != 1) return reject("other version");
  if (items != rows || l != len) return reject("other dimensions");
  NEED(getInt(from));
  NEED(getInt(to));
  if (p >= w.size()) return reject("truncated");
  if (from != 2 || to != len + 1) return reject("other length range");
  if (w[p] != "euclidean" && w[p] != "euclidean_dtw") return reject("unknown distance");
  p++;
  for (int k = 2; k <= len; k++) {
    long long n;
    NEED(getInt(n));
    if (n < 0) return reject("negative group count");
    std::set<std::pair<long long, long long>> seen;
    for (long long i = 0; i < n; i++) {
      Grp gr;
      for (int j = 0; j < k; j++) { NEED(getNum()); gr.rep.push_back((data_t)strtod(w[p - 1].c_str(), nullptr)); }
      long long cnt;
      NEED(getInt(cnt));
      if (cnt < 0) return reject("negative member count");
      if (cnt == 0) either = true;
      for (long long j = 0; j < cnt; j++) {
        long long a, b;
        NEED(getInt(a));
        NEED(getInt(b));
        if (a < 0 || a >= rows || b < 0 || b + k > len) return reject("member out of range");
        if (!seen.insert({a, b}).second) return reject("repeated member");
        gr.members.push_back(Member{(int)a, (int)b});
      }
      r.g.groups[k].push_back(gr);
    }
    if ((long long)seen.size() != (long long)rows * (len - k + 1)) return reject("missing member");
    r.groups += (int)n;
  }
  if (p != w.size()) { either = true; r.why = "text after the groups"; }
  if (either) r.v = Verdict::EITHER;
  return r;
}

std::string sizeOnlyText(const GroupFile& g) {
  std::ostringstream o;
  o.precision(17);
  o << g.version << " " << g.threshold << " " << g.items << " " << g.length << "\n" << g.from << " " << g.to << "\n" << g.distance << "\n";
  for (auto& lg : g.groups) { o << lg.second.size() << "\n"; for (auto& x : lg.second) o << x.members.size() << " "; o << "\n"; }
  return o.str();
}

std::string joinWords(const std::vector<std::string>& w) {
  std::string s;
  for (auto& x : w) { s += x; s += ' '; }
  return s;
}

// A change to the groups that keeps the text well-formed.
std::string mutateGroups(Case& c, GroupFile& g) {
  switch (c.below(9)) {
    case 0: g.version = c.pick(std::vector<int>{0, 2, -1, 11, 10}); return "version";
    case 1: { int d = c.range(1, 3); if (c.flip()) g.items += c.flip() ? d : -d; else g.length += c.flip() ? d : -d; return "dimensions"; }
    case 2: if (c.flip()) g.from = c.pick(std::vector<int>{1, 3, 0, -5}); else g.to = c.pick(std::vector<int>{g.to - 1, g.to + 1, 2, 1000000000}); return "length range";
    case 3: g.distance = c.pick(std::vector<std::string>{"manhattan", "euclidea", "euclidean_", "Euclidean", "euclidean_dtw2", "0"}); return "distance";
    default: {
      if (g.groups.empty()) return "";
      auto it = g.groups.begin();
      std::advance(it, c.below(g.groups.size()));
      auto& v = it->second;
      if (v.empty()) return "";
      auto& gr = v[c.below(v.size())];
      if (gr.members.empty()) return "";
      size_t k = c.below(gr.members.size());
      switch (c.below(8)) {
        case 0: gr.members.erase(gr.members.begin() + k); return "member removed";
        case 1: gr.members.push_back(gr.members[k]); return "member repeated in its group";
        case 2: { auto m = gr.members[k]; v[c.below(v.size())].members.push_back(m); return "member repeated somewhere"; }
        case 3: gr.members[k].idx = c.pick(std::vector<int>{-1, g.items, g.items + 1, 1000000000, -1000000000}); return "member index";
        case 4: { int l = it->first; gr.members[k].start = c.pick(std::vector<int>{-1, g.length - l + 1, g.length, 1000000000, -1000000000}); return "member start"; }
        case 5: { // one member replaced by a copy of another
          auto& g2 = v[c.below(v.size())];
          if (!g2.members.empty()) gr.members[k] = g2.members[c.below(g2.members.size())];
          return "member replaced by another";
        }
        case 6: v.erase(v.begin() + (&gr - &v[0])); return "group removed";
        default: { // index beyond the row that still falls inside the table of members
          gr.members[k].start += g.length - it->first + 1;
          gr.members[k].idx -= 1;
          return "equivalent but impossible member";
        }
      }
    }
  }
}

struct World {
  std::unique_ptr<onex::GroupableTimeSeriesSet> s;
  Table t;
  int rows, len;
  bool grouped = false;
  std::string text;  // saved text of the current groups
  int accepted = 0, rejected = 0;
};

std::string saved(Case& c, World& w) {
  std::string s;
  w.s->saveGroups(path(c, "cur"), false);
  if (!readFile(path(c, "cur"), s)) fail("saveGroups wrote no file");
  return s;
}

// Loads the text and checks the outcome against the verdict.
void attempt(Case& c, World& w, const std::string& text, const Verdict& v, bool checkAll, const std::string& p) {
  int n = 0;
  bool ok = false;
  try { n = w.s->loadGroups(p); ok = true; } catch (OnexException&) {}
  if (ok) {
    CHECK(v.v != Verdict::REJECT, "groups are accepted although: " << v.why << "\nfile:\n" << text);
    CHECK(w.s->isGrouped(), "not grouped after groups were loaded");
    w.text = saved(c, w);
    w.grouped = true;
    GroupFile g = parseGroups(w.text, false);
    checkPartition(g, w.rows, w.len);
    CHECK(g.total() == n, n << " groups reported but " << g.total() << " exist");
    if (v.v == Verdict::ACCEPT) {
      CHECK(n == v.groups, n << " groups loaded instead of " << v.groups);
      std::string why;
      CHECK(sameGroups(v.g, g, why), "loaded groups differ from the file: " << why);
    }
    w.accepted++;
  } else {
    CHECK(v.v != Verdict::ACCEPT, "usable groups are rejected\nfile:\n" << text);
    CHECK(w.s->isGrouped() == w.grouped, "a rejected group file makes the dataset " << (w.grouped ? "ungrouped" : "grouped") << "\nfile:\n" << text);
    if (checkAll) {
      if (w.grouped) {
        CHECK(saved(c, w) == w.text, "a rejected group file changed the groups");
        if (w.len >= 2) {
          // the kept groups still answer
          Row q = w.t[0];
          try {
            onex::candidate_time_series_t m = w.s->getBestMatch(makeTS(q));
            checkGenuine(w.t, q, 0.1, m);
          } catch (OnexException&) {}
        }
      } else {
        CHECK(throwsOnex([&] { w.s->saveGroups(path(c, "none"), false); }), "an ungrouped dataset saves groups after a rejected file");
        CHECK(throwsOnex([&] { w.s->getBestMatch(makeTS(Row(2, 0))); }), "an ungrouped dataset matches after a rejected file");
      }
    }
    w.rejected++;
  }
  c.label(v.v == Verdict::ACCEPT ? "accept" : v.v == Verdict::EITHER ? "either" : "reject: " + v.why);
}

void run(Case& c) {
  World w;
  w.rows = c.size(1, 5);
  w.len = c.size(1, 7);
  int kind = c.flip() ? (int)INTS : (int)c.below(NKINDS);
  w.t = table(c, w.rows, w.len, kind);
  w.s.reset(new onex::GroupableTimeSeriesSet());
  load(*w.s, c, w.t);
  DESC(c, "dataset " << w.rows << "x" << w.len << ": " << show(w.t) << "\n");
  if (c.chance(2, 3)) {
    if (c.flip()) w.s->groupAllLengths("euclidean", thresholdGen(c, w.t));
    else { writeFile(path(c, "g0"), groupText(randomGroups(c, w.t, kind))); w.s->loadGroups(path(c, "g0")); }
    w.grouped = true;
    w.text = saved(c, w);
    DESC(c, "it has groups\n");
  }
  GroupFile g = randomGroups(c, w.t, kind);
  std::string base = groupText(g);
  if (c.flip()) { // a file the library itself wrote
    onex::GroupableTimeSeriesSet o;
    load(o, c, w.t);
    o.groupAllLengths(c.flip() ? "euclidean" : "euclidean_dtw", thresholdGen(c, w.t));
    o.saveGroups(path(c, "own"), false);
    readFile(path(c, "own"), base);
    g = parseGroups(base, false);
  }
  std::string p = path(c, "groups");
  int form = (int)c.below(10);
  if (form <= 1) { // every truncation
    if (base.size() > 1500) base.resize(1500);
    DESC(c, "all truncations of\n" << base << "\n");
    bool keep = w.grouped;
    for (size_t k = 0; k <= base.size(); k++) {
      std::string text = base.substr(0, k);
      writeFile(p, text);
      attempt(c, w, text, judge(text, w.rows, w.len), k % 7 == 0 || k + 40 > base.size(), p);
      if (!keep && w.grouped) { w.s->reset(); w.grouped = false; }
    }
    c.label("all truncations");
  } else {
    int tries = c.range(1, 6);
    for (int i = 0; i < tries; i++) {
      std::string text = base, how;
      switch (form) {
        case 2: case 3: { // changes of meaning
          GroupFile m = g;
          int k = c.range(1, 2);
          for (int j = 0; j < k; j++) how += mutateGroups(c, m) + " ";
          int to = m.to;
          if (m.to > 1000) m.to = g.to;
          text = groupText(m);
          if (to != m.to) { size_t a = text.find('\n') + 1, e = text.find('\n', a); text.replace(a, e - a, num(m.from) + " " + num(to)); }
          break;
        }
        case 4: case 5: { // token edits
          auto ws = words(base);
          int k = c.range(1, 2);
          for (int j = 0; j < k && !ws.empty(); j++) {
            size_t q = c.below(ws.size());
            switch (c.below(5)) {
              case 0: ws.erase(ws.begin() + q); how += "token removed "; break;
              case 1: ws.insert(ws.begin() + q, ws[c.below(ws.size())]); how += "token inserted "; break;
              case 2: std::swap(ws[q], ws[c.below(ws.size())]); how += "tokens swapped "; break;
              default: {
                static const char* T[] = {"-1", "0", "1", "2", "3", "99999999", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "x", "nan", "inf", "1e999", "1.5", "0x2", "euclidean", "-", "+1", "1e5", "007"};
                ws[q] = T[c.below(sizeof T / sizeof *T)];
                how += "token replaced ";
              }
            }
          }
          text = joinWords(ws);
          break;
        }
        case 6: { // byte edits
          int k = c.range(1, 3);
          for (int j = 0; j < k && !text.empty(); j++) {
            size_t q = c.below(text.size());
            if (c.flip()) text[q] = c.flip() ? (char)c.below(256) : "0123456789- \n.e"[c.below(15)];
            else if (c.flip()) text.erase(q, c.range(1, 5));
            else text.insert(q, 1, "0123456789- \n.e"[c.below(15)]);
          }
          how = "bytes";
          break;
        }
        case 7: text = sizeOnlyText(g); how = "size-only"; break;
        case 8: { // groups of another dataset
          int r2 = c.range(1, 5), l2 = c.range(1, 7);
          Table t2 = table(c, r2, l2, kind);
          text = groupText(randomGroups(c, t2, kind));
          how = "groups of a " + num(r2) + "x" + num(l2) + " dataset";
          break;
        }
        default: { // arbitrary text
          text.clear();
          int n = c.size(0, 200);
          for (int j = 0; j < n; j++) text += c.chance(1, 12) ? (char)c.below(256) : "0123456789 \n-.euclidn"[c.below(21)];
          if (c.flip()) text = base.substr(0, c.below(base.size() + 1)) + text;
          how = "arbitrary text";
        }
      }
      std::string q = p;
      Verdict v = judge(text, w.rows, w.len);
      writeFile(p, text);
      if (c.chance(1, 25)) {
        q = c.flip() ? path(c, "does-not-exist") : c.flip() ? c.dir : "";
        v.v = Verdict::REJECT;
        v.why = "unreadable path";
      }
      DESC(c, how << " (" << (v.v == Verdict::ACCEPT ? "accept" : v.v == Verdict::EITHER ? "either" : "reject: " + v.why) << ")\n" << text << "\n");
      attempt(c, w, text, v, true, q);
      c.label(std::string("by: ") + (form <= 3 ? "meaning" : form <= 5 ? "tokens" : form == 6 ? "bytes" : form == 7 ? "size-only" : form == 8 ? "other dataset" : "arbitrary"));
    }
  }
  // afterwards a valid file is still accepted
  writeFile(p, groupText(g));
  Verdict ok = judge(groupText(g), w.rows, w.len);
  CHECK(ok.v == Verdict::ACCEPT && ok.groups == g.total(), "the harness misjudges its own valid file: " << ok.why);
  attempt(c, w, groupText(g), ok, true, p);
  CHECK(same(values(*w.s), w.t), "loading groups changed the values");
  if (w.len == 1) c.label("series of one point");
  c.nontrivial(w.len >= 3 && w.rejected > 0);
}
} // namespace C17
PBT_PROPERTY("C17", 20, C17::run, h::resetState,
  "datasets up to 5x7, with or without groups; valid group files (written by the library or generated) truncated at every byte, or changed in meaning (version, dimensions, members removed, repeated, replaced, out of range), in tokens or bytes, size-only files, files of other datasets, arbitrary text; an independent parser decides accept, reject or unspecified, and accepted groups must be a partition. Non-trivial: series of at least three points and a rejected file")
