// Generators, reference models and helpers shared by the property harnesses.
// Everything here is written against the public interface of the library only, and the reference
// models are textbook definitions that share no code with it.
#pragma once
#include "pbt.hpp"

#include "config.hpp"
#include "OnexAPI.hpp"
#include "Exception.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "TimeSeries.hpp"
#include "distance/Distance.hpp"

#include <algorithm>
#include <functional>
#include <memory>

namespace h {

using namespace pbt;
using onex::data_t;
using onex::OnexException;
using onex::TimeSeries;

typedef std::vector<data_t> Row;
typedef std::vector<Row> Table;

#ifdef SINGLE_PRECISION
const double RTOL = 2e-4;   // comparisons of computed values
const double TIE = 2e-4;    // relative difference below which two distances may be ordered either way
#else
const double RTOL = 1e-10;
const double TIE = 1e-9;
#endif

// ------------------------------------------------------------------ files

inline std::string path(Case& c, const std::string& name) { return c.dir + "/" + name; }

// The same, now and then with an unusual spelling.
inline std::string oddPath(Case& c, const std::string& name) {
  if (!c.chance(1, 6)) return path(c, name);
  c.label("unusual file name");
  switch (c.below(10)) {
    case 0: return path(c, name + " copy (1)");
    case 1: return path(c, "." + name);
    case 2: return path(c, name + std::string(180, 'x'));
    case 3: return path(c, "\xc3\xbc" + name + "\xff");
    case 4: return path(c, "-" + name);
    case 5: return path(c, "/./" + name);
    case 6: return path(c, name + ".gz");
    case 7: return path(c, name + ",;*'\"$1%s");
    case 8: return path(c, " " + name + " ");
    default: return path(c, name + "\n\t");
  }
}

inline void writeFile(const std::string& p, const std::string& s) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) { perror(p.c_str()); abort(); }
  size_t o = 0;
  while (o < s.size()) {
    ssize_t k = write(fd, s.data() + o, s.size() - o);
    if (k <= 0) { perror("write"); abort(); }
    o += k;
  }
  close(fd);
}

inline bool readFile(const std::string& p, std::string& s) {
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return false;
  s.clear();
  char b[65536];
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k);
  close(fd);
  return true;
}

inline std::string num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

inline std::string show(const Row& r) {
  std::string s;
  for (size_t i = 0; i < r.size() && i < 60; i++) s += (i ? " " : "") + num(r[i]);
  if (r.size() > 60) s += " ...";
  return s;
}

inline std::string show(const Table& t) {
  std::string s;
  for (size_t i = 0; i < t.size() && i < 20; i++) s += (i ? " / " : "") + show(t[i]);
  if (t.size() > 20) s += " / ...";
  return s;
}

inline std::string tableText(const Table& t, char sep = ' ') {
  std::string s;
  for (auto& r : t) {
    for (size_t j = 0; j < r.size(); j++) { if (j) s += sep; s += num(r[j]); }
    s += '\n';
  }
  return s;
}

// ------------------------------------------------------------------ generators

// Kinds of values. In EXACT kinds all values are small multiples of 1/8, so that sums of squared
// differences are exact in double precision and ties and boundaries are decided exactly.
enum Kind { INTS, DYADIC, BINARY, FEW, UNIFORM, WALK, WIDE, NKINDS };
inline const char* kindName(int k) {
  static const char* n[] = {"small-integers", "eighths", "binary", "few-distinct", "uniform", "random-walk", "wide-range"};
  return n[k];
}
inline bool isExact(int k) { return k <= FEW; }

// One power of two for all values of a case: mostly 1, sometimes far from it. Exact kinds stay exact.
inline double scaleOf(Case& c) {
  if (c.scale == 0) {
    c.scale = 1;
    if (c.chance(1, 12)) {
      static const int dbl[] = {-40, -20, -10, 10, 20, 40}, flt[] = {-8, -4, 4, 8};
      c.scale = std::ldexp(1.0, sizeof(data_t) == 4 ? flt[c.below(4)] : dbl[c.below(6)]);
      c.label(c.scale < 1 ? "small scale" : "large scale");
    }
  }
  return c.scale;
}

inline data_t value1(Case& c, int kind) {
  switch (kind) {
    case INTS: { int v = (int)c.below(9); return v & 1 ? -(v + 1) / 2 : v / 2; }
    case DYADIC: { int v = (int)c.below(161); return (v & 1 ? -(v + 1) / 2 : v / 2) / (data_t)8; }
    case BINARY: return (data_t)c.below(2);
    case FEW: { static const data_t f[] = {0, 1, -2, (data_t)2.5}; return f[c.below(4)]; }
    case UNIFORM: return (data_t)c.unit();
    case WALK: return (data_t)(c.unit() - 0.5);
    default: {
      double m = 1 + c.unit() * 9;
      int e = c.range(0, 8) - 4;
      bool neg = c.flip();
      return (data_t)((neg ? -m : m) * std::pow(10.0, e));
    }
  }
}

inline data_t value(Case& c, int kind) { double s = scaleOf(c); return (data_t)(value1(c, kind) * s); }

inline Row row(Case& c, int len, int kind) {
  Row r(len);
  for (int i = 0; i < len; i++) {
    r[i] = value(c, kind);
    if (kind == WALK && i) r[i] += r[i - 1];
  }
  return r;
}

// Values at the ends of the range: subnormal, smallest, largest, and some in between.
inline data_t extreme(Case& c) {
  typedef std::numeric_limits<data_t> L;
  double v = 0;
  switch (c.below(10)) {
    case 0: v = 0; break;
    case 1: v = 1; break;
    case 2: v = L::denorm_min() * (double)c.range(1, 5); break;
    case 3: v = L::min() * c.unit(); break;
    case 4: v = L::min(); break;
    case 5: v = L::max(); break;
    case 6: v = L::max() * (0.25 + c.unit() / 2); break;
    case 7: v = std::sqrt((double)L::max()) * c.unit(); break;
    case 8: v = std::sqrt((double)L::min()) * c.unit(); break;
    default: v = c.unit() * 10;
  }
  return (data_t)(c.chance(1, 3) ? -v : v);
}
inline Table extremeTable(Case& c, int rows, int len) {
  Table t(rows, Row(len));
  for (auto& r : t) for (auto& x : r) x = extreme(c);
  return t;
}

// A table; some rows repeat, shift or slightly alter earlier ones so that near and exact
// duplicates of subsequences are common.
inline Table table(Case& c, int rows, int len, int kind) {
  Table t;
  for (int i = 0; i < rows; i++) {
    int how = i ? (int)c.below(6) : 0;
    if (how <= 3 || i == 0) t.push_back(row(c, len, kind));
    else {
      Row r = t[c.below(i)];
      if (how == 4) {
        int k = (int)c.below(len);
        r[k] = value(c, kind);
      } else std::rotate(r.begin(), r.begin() + c.below(len), r.end());
      t.push_back(r);
    }
  }
  return t;
}

// Many points from one choice: eighths in [-100, 100], or a random walk of steps of 1/8.
inline Row bulk(Case& c, size_t n) {
  Row r(n);
  u64 st = c.below(1u << 30);
  bool walk = c.flip();
  int cur = 0;
  for (auto& x : r) {
    st = mix(st);
    int v = (int)(st % 1601) - 800;
    if (walk) { cur += (int)(st % 7) - 3; if (cur > 800) cur -= 50; if (cur < -800) cur += 50; v = cur; }
    x = (data_t)v / 8;
  }
  return r;
}
// More rows or columns than fit a small counter or buffer.
inline Table hugeTable(Case& c, bool tall) {
  int n = c.pick(std::vector<int>{9000, 33000, 66000, 70000, 140000}) + c.range(0, 700), m = c.range(1, 3);
  Table t;
  for (int i = 0; i < (tall ? n : m); i++) t.push_back(Row());
  Row all = bulk(c, (size_t)n * m);
  size_t k = 0;
  for (auto& r : t) { r.assign(all.begin() + k, all.begin() + k + (tall ? m : n)); k += r.size(); }
  return t;
}

struct Shape { int rows, len; };
// Dimensions with a bounded number of points.
inline Shape shape(Case& c, int maxRows, int maxLen) {
  Shape s;
  s.rows = c.size(1, maxRows);
  s.len = c.size(1, maxLen);
  return s;
}

inline void load(onex::TimeSeriesSet& s, Case& c, const Table& t, const char* name = "in.txt") {
  writeFile(path(c, name), tableText(t));
  s.loadData(path(c, name), 0, 0, " ");
}
inline int load(onex::OnexAPI& a, Case& c, const Table& t, const char* name = "in.txt") {
  writeFile(path(c, name), tableText(t));
  return a.loadDataset(path(c, name), 0, 0, " ").id;
}

inline Table values(const onex::TimeSeriesSet& s) {
  Table t;
  for (int i = 0; i < s.getItemCount(); i++) {
    const TimeSeries ts = s.getTimeSeries(i);
    Row r;
    for (int j = 0; j < ts.getLength(); j++) r.push_back(ts[j]);
    t.push_back(r);
  }
  return t;
}

// Values of a dataset held by the API, read through a saved file.
inline Table parseTable(const std::string& text, char sep = ' ') {
  Table t;
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p);
    if (e == std::string::npos) e = text.size();
    Row r;
    size_t q = p;
    while (q < e) {
      while (q < e && text[q] == sep) q++;
      if (q >= e) break;
      size_t w = q;
      while (w < e && text[w] != sep) w++;
      r.push_back((data_t)strtod(text.substr(q, w - q).c_str(), nullptr));
      q = w;
    }
    t.push_back(r);
    p = e + 1;
  }
  return t;
}
inline Table values(onex::OnexAPI& a, Case& c, int id) {
  std::string p = path(c, "peek.txt"), s;
  a.saveDataset(id, p, ' ');
  if (!readFile(p, s)) fail("saveDataset wrote no file");
  return parseTable(s);
}

inline bool sameValue(data_t a, data_t b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same(const Table& a, const Table& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].size() != b[i].size()) return false;
    for (size_t j = 0; j < a[i].size(); j++) if (!sameValue(a[i][j], b[i][j])) return false;
  }
  return true;
}
inline bool close(double a, double b, double rtol = RTOL, double atol = 0) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

// ------------------------------------------------------------------ reference distances

typedef long double ld;

template <class A> Row slice(const A& r, int s, int e) { return Row(r.begin() + s, r.begin() + e); }

inline ld sq(ld x) { return x * x; }

inline ld refEuclidSum(const Row& a, const Row& b) {
  ld s = 0;
  for (size_t i = 0; i < a.size(); i++) s += sq((ld)a[i] - (ld)b[i]);
  return s;
}
inline double refEuclid(const Row& a, const Row& b) { return (double)sqrtl(refEuclidSum(a, b) / (ld)a.size()); }

inline int refBand(int length, double ratio) {
  int r = (int)std::floor(length * ratio);
  return std::min(r, length - 1);
}

const ld LINF = std::numeric_limits<ld>::infinity();

// Least total squared difference over monotone alignments within |i-j| <= r.
inline ld refDtwCost(const Row& a, const Row& b, int r) {
  int m = (int)a.size(), n = (int)b.size();
  std::vector<std::vector<ld>> d(m, std::vector<ld>(n, LINF));
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      if (std::abs(i - j) > r) continue;
      ld best = i == 0 && j == 0 ? 0 : LINF;
      if (i) best = std::min(best, d[i - 1][j]);
      if (j) best = std::min(best, d[i][j - 1]);
      if (i && j) best = std::min(best, d[i - 1][j - 1]);
      if (best < LINF) d[i][j] = best + sq((ld)a[i] - (ld)b[j]);
    }
  return d[m - 1][n - 1];
}
inline double refDtw(const Row& a, const Row& b, double ratio) {
  int mx = (int)std::max(a.size(), b.size());
  ld cst = refDtwCost(a, b, refBand(mx, ratio));
  return cst == LINF ? std::numeric_limits<double>::infinity() : (double)(sqrtl(cst) / (2 * (ld)mx));
}

inline bool eligible(int q, int l, double ratio) { return std::abs(l - q) <= refBand(std::max(q, l), ratio); }

// A ratio next to where the band of length L changes.
inline double ratioEdge(Case& c, int L) {
  static const double d[] = {1e-3, -1e-3, 4e-3, -4e-3, 1e-6, -1e-6, 0, -1e-9};
  double r = (double)c.range(1, std::max(1, std::min(L - 1, 5))) / L + d[c.below(8)];
  return std::max(0.0, std::min(1.0, r));
}

inline double ratioGen(Case& c) {
  if (c.chance(1, 8)) return ratioEdge(c, c.range(2, 12));
  static const double r[] = {0.1, 0, 1, 0.5, 0.25, 0.05, 0.3333, 0.75, 0.2, 0.02, 0.9, 0.4};
  if (c.chance(1, 4)) return c.unit();
  return r[c.below(sizeof r / sizeof *r)];
}

// A sequence held by the library (owning its data).
inline TimeSeries makeTS(const Row& r) {
  TimeSeries t((int)r.size());
  for (size_t i = 0; i < r.size(); i++) t[(int)i] = r[i];
  return t;
}

// ------------------------------------------------------------------ group files

struct Member { int idx, start; bool operator<(const Member& o) const { return idx != o.idx ? idx < o.idx : start < o.start; } bool operator==(const Member& o) const { return idx == o.idx && start == o.start; } };
struct Grp { Row rep; std::vector<Member> members; int claimed = 0; };
struct GroupFile {
  int version = 0, items = 0, length = 0, from = 0, to = 0;
  double threshold = 0;
  std::string distance;
  std::map<int, std::vector<Grp>> groups;      // by length
  std::map<int, std::vector<int>> sizes;       // size-only files
  int total() const { int n = 0; for (auto& g : groups) n += (int)g.second.size(); for (auto& g : sizes) n += (int)g.second.size(); return n; }
};

inline std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    r.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  return r;
}
inline std::vector<std::string> words(const std::string& s) {
  std::istringstream is(s);
  std::vector<std::string> r;
  std::string w;
  while (is >> w) r.push_back(w);
  return r;
}
inline long long toInt(const std::string& s) {
  char* e;
  long long v = strtoll(s.c_str(), &e, 10);
  CHECK(!s.empty() && !*e, "group file: '" << s << "' is not an integer");
  return v;
}
inline double toNum(const std::string& s) {
  char* e;
  double v = strtod(s.c_str(), &e);
  CHECK(!s.empty() && !*e, "group file: '" << s << "' is not a number");
  return v;
}

// Parses a saved group file strictly by the documented line format.
inline GroupFile parseGroups(const std::string& text, bool sizeOnly) {
  GroupFile g;
  auto ls = lines(text);
  size_t p = 0;
  auto next = [&]() -> std::vector<std::string> {
    CHECK(p < ls.size(), "group file ends early after " << p << " lines");
    return words(ls[p++]);
  };
  auto w = next();
  CHECK(w.size() == 4, "group file: first line has " << w.size() << " fields");
  g.version = (int)toInt(w[0]);
  g.threshold = toNum(w[1]);
  g.items = (int)toInt(w[2]);
  g.length = (int)toInt(w[3]);
  w = next();
  CHECK(w.size() == 2, "group file: second line has " << w.size() << " fields");
  g.from = (int)toInt(w[0]);
  g.to = (int)toInt(w[1]);
  w = next();
  CHECK(w.size() == 1, "group file: third line has " << w.size() << " fields");
  g.distance = w[0];
  for (int l = g.from; l < g.to; l++) {
    w = next();
    CHECK(w.size() == 1, "group file: length " << l << " starts with " << w.size() << " fields instead of the number of groups");
    long long n = toInt(w[0]);
    CHECK(n >= 0 && n < 10000000, "group file: " << n << " groups of length " << l);
    if (sizeOnly) {
      w = next();
      CHECK((long long)w.size() == n, "size-only file: " << w.size() << " sizes for " << n << " groups of length " << l);
      for (auto& x : w) g.sizes[l].push_back((int)toInt(x));
      g.sizes[l];
      continue;
    }
    auto& v = g.groups[l];
    for (long long k = 0; k < n; k++) {
      Grp gr;
      w = next();
      CHECK((int)w.size() == l, "group file: representative of length " << l << " has " << w.size() << " points");
      for (auto& x : w) gr.rep.push_back((data_t)toNum(x));
      w = next();
      CHECK(!w.empty(), "group file: empty member line");
      gr.claimed = (int)toInt(w[0]);
      CHECK((int)w.size() == 1 + 2 * gr.claimed, "group file: member line of " << gr.claimed << " members has " << w.size() << " fields");
      for (size_t i = 1; i + 1 < w.size(); i += 2) gr.members.push_back(Member{(int)toInt(w[i]), (int)toInt(w[i + 1])});
      v.push_back(gr);
    }
  }
  CHECK(p == ls.size(), "group file has " << ls.size() - p << " lines too many");
  return g;
}

// Every subsequence exactly once, no empty group, representative count right.
inline void checkPartition(const GroupFile& g, int rows, int len) {
  CHECK(g.items == rows && g.length == len, "groups claim a " << g.items << "x" << g.length << " dataset instead of " << rows << "x" << len);
  for (int l = 2; l <= len; l++) {
    auto it = g.groups.find(l);
    CHECK(it != g.groups.end(), "no groups of length " << l);
    std::vector<int> seen(rows * (len - l + 1), 0);
    for (size_t k = 0; k < it->second.size(); k++) {
      auto& gr = it->second[k];
      CHECK(!gr.members.empty(), "group " << k << " of length " << l << " is empty");
      for (auto& m : gr.members) {
        CHECK(m.idx >= 0 && m.idx < rows && m.start >= 0 && m.start + l <= len, "group of length " << l << " has impossible member " << m.idx << "@" << m.start);
        int& s = seen[m.idx * (len - l + 1) + m.start];
        CHECK(!s++, "subsequence " << m.idx << "@" << m.start << " of length " << l << " is in two groups (or twice in one)");
      }
    }
    for (size_t i = 0; i < seen.size(); i++)
      CHECK(seen[i], "subsequence " << i / (len - l + 1) << "@" << i % (len - l + 1) << " of length " << l << " is in no group");
  }
  CHECK((int)g.groups.size() == std::max(0, len - 1), "groups of " << g.groups.size() << " lengths for series of " << len << " points");
}

inline GroupFile savedGroups(onex::OnexAPI& a, Case& c, int id) {
  std::string p = path(c, "groups.peek"), s;
  a.saveGroup(id, p, false);
  if (!readFile(p, s)) fail("saveGroup wrote no file");
  return parseGroups(s, false);
}
inline GroupFile savedGroups(onex::GroupableTimeSeriesSet& a, Case& c) {
  std::string p = path(c, "groups.peek"), s;
  a.saveGroups(p, false);
  if (!readFile(p, s)) fail("saveGroups wrote no file");
  return parseGroups(s, false);
}

// ------------------------------------------------------------------ reference matching

struct RefMatch {
  bool exists = false;       // some representative of an allowed length at a finite distance
  bool sure = true;          // existence does not hinge on a rounding
  double bestRep = 0;        // distance of the nearest representative
  struct Alt { int len; size_t group; double repDist, best; };
  std::vector<Alt> alts;     // groups that may be the best one (ties up to rounding)
};

inline RefMatch refMatch(const Table& t, const GroupFile& g, const Row& q, double ratio) {
  RefMatch r;
  double best = std::numeric_limits<double>::infinity();
  struct C { int len; size_t k; double d; };
  std::vector<C> all;
  for (auto& lg : g.groups) {
    int l = lg.first;
    if (!eligible((int)q.size(), l, ratio)) continue;
    for (size_t k = 0; k < lg.second.size(); k++) {
      double d = refDtw(lg.second[k].rep, q, ratio);
      all.push_back(C{l, k, d});
      if (d < best) best = d;
    }
  }
  if (!(best < std::numeric_limits<double>::infinity())) return r;
  r.exists = true;
  r.bestRep = best;
  for (auto& x : all) {
    if (x.d > best * (1 + TIE) + 1e-300) continue;
    double m = std::numeric_limits<double>::infinity();
    for (auto& mb : g.groups.at(x.len)[x.k].members)
      m = std::min(m, refDtw(q, slice(t[mb.idx], mb.start, mb.start + x.len), ratio));
    r.alts.push_back(RefMatch::Alt{x.len, x.k, x.d, m});
  }
  return r;
}

inline std::string showMatch(const onex::candidate_time_series_t& m) {
  std::ostringstream o;
  o << "series " << m.data.getIndex() << " start " << m.data.getStart() << " length " << m.data.getLength() << " distance " << num(m.dist);
  return o.str();
}

// The reported match is a real subsequence with its true distance and values.
inline void checkGenuine(const Table& t, const Row& q, double ratio, const onex::candidate_time_series_t& m) {
  int n = (int)t.size(), L = (int)t[0].size();
  int i = m.data.getIndex(), s = m.data.getStart(), l = m.data.getLength();
  CHECK(i >= 0 && i < n && s >= 0 && l >= 2 && s + l <= L, "match is not a subsequence: " << showMatch(m));
  CHECK(m.data.getEnd() == s + l, "match end " << m.data.getEnd() << " but start " << s << " and length " << l);
  for (int k = 0; k < l; k++) CHECK(sameValue(m.data[k], t[i][s + k]), "match data differ from the dataset at point " << k << ": " << showMatch(m));
  CHECK(eligible((int)q.size(), l, ratio), "length " << l << " is not allowed for a query of " << q.size() << " points");
  double d = refDtw(q, slice(t[i], s, s + l), ratio);
  CHECK(close(d, m.dist, RTOL, 1e-150), "reported distance " << num(m.dist) << " but the true one is " << num(d) << ": " << showMatch(m));
}

inline void checkOptimal(const Table& t, const GroupFile& g, const Row& q, double ratio, const onex::candidate_time_series_t& m) {
  RefMatch r = refMatch(t, g, q, ratio);
  CHECK(r.exists, "a match is reported although no representative is at a finite distance: " << showMatch(m));
  std::string alts;
  for (auto& a : r.alts) {
    if (a.len != m.data.getLength()) { alts += " [len " + num(a.len) + " best " + num(a.best) + "]"; continue; }
    bool in = false;
    for (auto& mb : g.groups.at(a.len)[a.group].members) in |= mb.idx == m.data.getIndex() && mb.start == m.data.getStart();
    if (in && close(m.dist, a.best, std::max(RTOL, TIE), 1e-150)) return;
    alts += " [len " + num(a.len) + " best " + num(a.best) + (in ? " (same group)" : "") + "]";
  }
  fail("not the best member of the best group: " + showMatch(m) + "; nearest representative at " + num(r.bestRep) + ", expected" + alts);
}

// ------------------------------------------------------------------ misc

template <class F> bool throwsOnex(F f) {
  try { f(); } catch (OnexException&) { return true; }
  return false;
}

// How the clock that the library sees moves from one reading to the next, see pbt_main.hpp.
inline void resetState(Case& c) {
  onex::setWarpingBandRatio(0.1);
  static const long long step[] = {0, 4, 11, 100000, -30};
  pbt::clockStep = step[c.below(5)];
}

inline std::string info(const onex::dataset_info_t& i) {
  std::ostringstream o;
  o << "{id " << i.id << " " << i.name << " " << i.itemCount << "x" << i.itemLength << (i.isNormalized ? " N" : "") << (i.isGrouped ? " G" : "") << "}";
  return o.str();
}
inline std::string listing(onex::OnexAPI& a) {
  std::string s = "#" + num(a.getDatasetCount()) + " ";
  for (auto& i : a.getAllDatasetInfo()) s += info(i);
  return s;
}

// Runs f in a forked child; f writes its result to the string. Returns false when the child
// crashed or did not finish within the CPU limit.
inline bool inChild(std::function<std::string()> f, std::string& out, std::string& why) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    ::close(fd[0]);
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = 25;
    setitimer(ITIMER_PROF, &t, nullptr);
    std::string r;
    try { r = "+" + f(); } catch (Failure& e) { r = "-" + e.msg; } catch (std::exception& e) { r = std::string("-unexpected exception: ") + e.what(); }
    size_t o = 0;
    while (o < r.size()) {
      ssize_t k = write(fd[1], r.data() + o, r.size() - o);
      if (k <= 0) break;
      o += k;
    }
    _exit(0);
  }
  ::close(fd[1]);
  std::string r;
  char b[65536];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, k);
  ::close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || r.empty()) {
    std::ostringstream o;
    if (WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st); else o << "exited with status " << WEXITSTATUS(st);
    why = o.str();
    return false;
  }
  if (r[0] == '-') { why = r.substr(1); return false; }
  out = r.substr(1);
  return true;
}

} // namespace h
