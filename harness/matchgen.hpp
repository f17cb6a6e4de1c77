// Generators for grouping and matching: thresholds related to the data, queries, random valid
// group files.
#pragma once
#include "common.hpp"

namespace h {

// A threshold: zero, negative, tiny, huge, or around the distance of two random subsequences.
inline data_t thresholdGen(Case& c, const Table& t) {
  if (t.size() > 250) return (data_t)(c.range(0, 12) / 4.0); // see tallTable: few groups
  if (t[0].size() >= 60) return (data_t)((c.chance(3, 4) ? 1e6 : c.range(8, 40) / 8.0) * scaleOf(c)); // see longTable: mostly one group for each length
  switch (c.below(9)) {
    case 0: return 0;
    case 1: return -1;
    case 2: return (data_t)(1e6 * scaleOf(c));
    case 3: return (data_t)(c.unit() * 0.2 * scaleOf(c));
    case 4: return (data_t)(c.range(1, 40) / 8.0 * scaleOf(c));
    default: {
      int n = (int)t.size(), L = (int)t[0].size();
      if (L < 2) return (data_t)scaleOf(c);
      int l = c.range(2, L);
      Row a = slice(t[c.below(n)], 0, L), b = slice(t[c.below(n)], 0, L);
      int s = (int)c.below(L - l + 1), e = (int)c.below(L - l + 1);
      double d = refEuclid(slice(a, s, s + l), slice(b, e, e + l));
      static const double f[] = {2, 1, 2.5, 1.5, 0.5, 2 * (1 + 3e-8), 2 * (1 - 3e-8)};
      return (data_t)(d * f[c.below(7)]);
    }
  }
}

// Many short series of few levels: few groups, many members.
// (thresholdGen knows such tables by their number of rows)
inline Table tallTable(Case& c) {
  int rows = c.pick(std::vector<int>{300, 3000, 17000, 33000, 66000}) + c.range(0, 300), len = c.range(2, rows > 10000 ? 3 : 4);
  int levels = c.range(2, 4);
  u64 st = c.below(1u << 30);
  Table t(rows, Row(len));
  for (auto& r : t) for (auto& x : r) { st = mix(st); x = (data_t)(st % levels) + (data_t)(st % 1000 == 7 ? 0.5 : 0); }
  return t;
}

// One or two long series.
inline Table longTable(Case& c, int kind) { return table(c, c.range(1, 2), c.range(60, 140), kind); }

struct Query { int index, start, end; Row row; }; // start = end = -1: the whole series

inline Query queryGen(Case& c, const Table& t) {
  Query q;
  int n = (int)t.size(), L = (int)t[0].size();
  q.index = (int)c.below(n);
  if (L < 2 || c.chance(1, 4)) {
    q.start = q.end = -1;
    q.row = t[q.index];
  } else {
    int l = c.range(2, L);
    q.start = (int)c.below(L - l + 1);
    q.end = q.start + l;
    q.row = slice(t[q.index], q.start, q.end);
  }
  return q;
}

// A valid group file with an arbitrary partition and arbitrary representatives.
inline GroupFile randomGroups(Case& c, const Table& t, int kind) {
  GroupFile g;
  int n = (int)t.size(), L = (int)t[0].size();
  g.version = 1;
  g.threshold = c.range(0, 40) / 8.0 * scaleOf(c);
  g.items = n;
  g.length = L;
  g.from = 2;
  g.to = L + 1;
  g.distance = c.flip() ? "euclidean" : "euclidean_dtw";
  for (int l = 2; l <= L; l++) {
    int maxg = c.range(1, 4);
    std::vector<Grp> v(maxg);
    for (int i = 0; i < n; i++) for (int s = 0; s + l <= L; s++) v[c.below(maxg)].members.push_back(Member{i, s});
    for (auto& x : v) {
      if (x.members.empty()) continue;
      // any order of members
      if (c.flip()) std::reverse(x.members.begin(), x.members.end());
      else if (x.members.size() > 1) std::rotate(x.members.begin(), x.members.begin() + c.below(x.members.size()), x.members.end());
      x.claimed = (int)x.members.size();
      if (c.flip()) x.rep = slice(t[x.members[0].idx], x.members[0].start, x.members[0].start + l);
      else x.rep = row(c, l, kind);
      g.groups[l].push_back(x);
    }
  }
  return g;
}

inline std::string groupText(const GroupFile& g) {
  std::ostringstream o;
  o.precision(17);
  o << g.version << " " << g.threshold << " " << g.items << " " << g.length << "\n" << g.from << " " << g.to << "\n" << g.distance << "\n";
  for (int l = g.from; l < g.to; l++) {
    auto it = g.groups.find(l);
    if (it == g.groups.end()) { o << "0\n"; continue; }
    o << it->second.size() << "\n";
    for (auto& x : it->second) {
      for (auto v : x.rep) o << v << " ";
      o << "\n" << x.members.size() << " ";
      for (auto& m : x.members) o << m.idx << " " << m.start << " ";
      o << "\n";
    }
  }
  return o.str();
}

// Groups as comparable information: per length a list of (representative, set of members).
inline bool sameGroups(const GroupFile& a, const GroupFile& b, std::string& why) {
  if (a.groups.size() != b.groups.size()) { why = "different lengths"; return false; }
  for (auto& lg : a.groups) {
    auto it = b.groups.find(lg.first);
    if (it == b.groups.end()) { why = "no groups of length " + num(lg.first); return false; }
    if (it->second.size() != lg.second.size()) { why = num(lg.second.size()) + " and " + num(it->second.size()) + " groups of length " + num(lg.first); return false; }
    auto key = [](const Grp& g) { auto m = g.members; std::sort(m.begin(), m.end()); return m; };
    std::map<std::vector<Member>, Row> x, y;
    for (auto& g : lg.second) x[key(g)] = g.rep;
    for (auto& g : it->second) y[key(g)] = g.rep;
    for (auto& kv : x) {
      auto f = y.find(kv.first);
      if (f == y.end()) { why = "members of a group of length " + num(lg.first) + " differ"; return false; }
      for (size_t i = 0; i < kv.second.size(); i++)
        if (!sameValue(kv.second[i], f->second[i])) { why = "representative of a group of length " + num(lg.first) + " differs: " + show(kv.second) + " and " + show(f->second); return false; }
    }
  }
  return true;
}

} // namespace h
