#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C02 {
using namespace h;

// What the documentation says about a file: REJECT, ACCEPT with the given values, or EITHER where
// it does not say (nan, inf, hexadecimal, subnormal).
struct Verdict { enum { REJECT, ACCEPT, EITHER } v = REJECT; Table t; int rows = 0, cols = 0; const char* why = ""; };

Verdict judge(const std::string& text, int limit, int startCol, const std::string& seps) {
  Verdict r;
  std::vector<std::string> ls = lines(text);
  size_t n = limit > 0 ? std::min<size_t>(limit, ls.size()) : ls.size();
  if (n == 0) { r.why = "no row"; return r; }
  bool either = false;
  size_t cols = 0;
  for (size_t i = 0; i < n; i++) {
    std::vector<std::string> toks;
    std::string cur;
    for (char ch : ls[i]) {
      if (seps.find(ch) != std::string::npos) { if (!cur.empty()) toks.push_back(cur); cur.clear(); }
      else cur += ch;
    }
    if (!cur.empty()) toks.push_back(cur);
    if (i == 0) {
      cols = toks.size();
      if (startCol < 0 || (size_t)startCol >= cols) { r.why = "start column"; return r; }
    } else if (toks.size() != cols) { r.why = "inconsistent columns"; return r; }
    Row row;
    for (size_t j = startCol; j < cols; j++) {
      const std::string& s = toks[j];
      char* e;
      errno = 0;
      double v = strtod(s.c_str(), &e);
      if (e == s.c_str()) { r.why = "not numeric"; return r; }
      size_t rest = e - s.c_str();
      while (rest < s.size() && isspace((unsigned char)s[rest])) rest++;
      if (rest < s.size()) { r.why = "text behind a number"; return r; }
      bool plain = true;
      for (char ch : s) if (!strchr("0123456789+-.eE \t\r", ch) || !ch) plain = false;
      if (errno == ERANGE) { if (std::isinf(v) && plain) { r.why = "out of range"; return r; } plain = false; }
#ifdef SINGLE_PRECISION
      if (std::fabs(v) > 3e38 || (v != 0 && std::fabs(v) < 1.2e-38)) plain = false;
#endif
      if (!plain) either = true;
      row.push_back((data_t)v);
    }
    r.t.push_back(row);
  }
  r.v = either ? Verdict::EITHER : Verdict::ACCEPT;
  r.rows = (int)n;
  r.cols = (int)cols - startCol;
  return r;
}

void run(Case& c) {
  static const std::vector<std::string> SEPS = {" ", ",", "\t", ", ", ";", "", "0", "e", ".", "\x80", " \r", "-"};
  std::string text, seps = c.chance(1, 3) ? c.pick(SEPS) : SEPS[c.below(4)];
  int limit = c.chance(1, 2) ? 0 : c.chance(1, 4) ? (c.flip() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min()) : c.range(0, 8) - 2;
  int startCol = c.chance(1, 2) ? 0 : c.chance(1, 6) ? (c.flip() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min()) : c.range(0, 9) - 2;
  int form = (int)c.below(4);
  std::string how;
  bool wide = c.chance(1, 300), tall = false;
  if (wide) { // a wide first row and so many lines that rows x columns does not fit into 31 or 32 bits
    form = 2;
    int a = c.range(13, 17);
    size_t cols = ((size_t)1 << a) + c.range(0, 2) - 1, rows = ((size_t)1 << ((c.chance(2, 3) ? 32 : 31) - a)) + c.range(0, 2) - 1;
    static const char* S[] = {" ", ",", "\t", ";"};
    seps = S[c.below(4)];
    startCol = c.chance(1, 2) ? 0 : c.pick(std::vector<int>{1, (int)cols - 1, (int)cols, 100});
    limit = c.chance(1, 2) ? 0 : c.chance(1, 3) ? 1 : (int)rows;
    for (size_t j = 0; j < cols; j++) { if (j) text += seps; text += (char)('0' + j % 10); }
    text += '\n';
    for (size_t i = 1; i < rows; i++) { if (i == 1 && c.flip()) text += "3"; text += '\n'; }
    how = "wide";
  } else if (c.chance(1, 200)) { // a tall table, wrong in at most one row far from the start
    form = 2;
    int rows = c.range(100, 3000), cols = c.range(1, 3), at = c.range(rows / 2, rows - 1);
    int wrong = (int)c.below(6);
    static const char* S[] = {" ", ",", "\t", ";"};
    seps = S[c.below(4)];
    startCol = c.range(0, cols - 1);
    limit = c.chance(2, 3) ? 0 : at + c.range(0, 3) - 1;
    for (int i = 0; i < rows; i++) {
      int n = cols + (i == at ? wrong == 0 ? 1 : wrong == 1 ? -1 : 0 : 0);
      for (int j = 0; j < n; j++) {
        if (j) text += seps;
        if (i == at && j == n - 1 && wrong >= 2) text += wrong == 2 ? "x" : wrong == 3 ? "1e999" : wrong == 4 ? "7a" : "8";
        else text += num((i * 7 + j) % 100);
      }
      text += '\n';
    }
    tall = true;
    how = "tall";
  } else if (form == 0) { // raw bytes from a numeric-looking alphabet
    static const char A[] = "0123456789 ,\n\n+-.eE\t;xnaif\r\0\xff";
    int n = c.size(0, 120);
    for (int i = 0; i < n; i++) text += c.chance(1, 10) ? (char)c.below(256) : A[c.below(sizeof A - 1)];
    how = "bytes";
  } else { // a valid table with up to three mutations
    int rows = c.range(1, 6), cols = c.range(1, 6);
    std::vector<std::vector<std::string>> cells(rows, std::vector<std::string>(cols));
    for (auto& r : cells) for (auto& x : r) x = num(value(c, DYADIC));
    int muts = form == 1 ? 0 : c.range(1, 3);
    for (int m = 0; m < muts; m++) {
      size_t r = c.below(cells.size());
      auto& R = cells[r];
      switch (c.below(6)) {
        case 0: R.push_back("7"); how += " extra-cell"; break;
        case 1: if (!R.empty()) R.pop_back(); how += " missing-cell"; break;
        case 2: case 3: {
          static const char* bad[] = {"abc", "x", "-", "1e999", "-1e400", "1e-400", "nan", "inf", "1.2.3", "12abc", "--3", "+-1", ".", "e5", "0x", "0x1p3", "1e", "#", "\"1\"", "99999999999999999999999", "1,5", "- 5", "\x01"};
          if (!R.empty()) R[c.below(R.size())] = bad[c.below(sizeof bad / sizeof *bad)];
          how += " bad-cell";
          break;
        }
        case 4: cells.insert(cells.begin() + r, std::vector<std::string>()); how += " empty-line"; break;
        default: if (!R.empty()) R[c.below(R.size())] += std::string(1, "abz!@'"[c.below(6)]); how += " suffix";
      }
    }
    char s = seps.empty() ? ' ' : seps[0];
    for (size_t i = 0; i < cells.size(); i++) {
      for (size_t j = 0; j < cells[i].size(); j++) { if (j) text += s; text += cells[i][j]; }
      if (i + 1 < cells.size() || !c.chance(1, 4)) text += '\n';
    }
    if (form == 3 && !text.empty()) { // cut or splice bytes
      if (c.flip()) text.resize(c.below(text.size()));
      else text[c.below(text.size())] = (char)c.below(256);
      how += " byte-edit";
    }
  }
  // The session before
  onex::OnexAPI api;
  int others = (int)c.below(4);
  std::vector<Table> ot;
  for (int i = 0; i < others; i++) {
    ot.push_back(table(c, c.range(1, 3), c.range(1, 5), INTS));
    load(api, c, ot.back(), ("o" + num(i)).c_str());
  }
  int hole = -1;
  if (others >= 2 && c.flip()) { hole = (int)c.below(others); api.unloadDataset(hole); }
  int grouped = -1;
  if (others && c.flip()) { int g = (int)c.below(others); if (g != hole) { api.groupDataset(g, (data_t)0.5); grouped = g; } }
  std::string before = listing(api);
  int expectId = others;
  if (hole >= 0) expectId = hole;

  std::string p = path(c, "bad.txt");
  int pathKind = c.chance(1, 20) ? c.range(1, 3) : 0;
  if (pathKind == 1) p = path(c, "does-not-exist.txt");
  else if (pathKind == 2) p = c.dir; // a directory
  else if (pathKind == 3) p = "";
  else writeFile(p, text);
  Verdict v = judge(text, limit, startCol, seps);
  if (pathKind) { v.v = Verdict::REJECT; v.why = "unreadable path"; }
  DESC(c, "load '" << (pathKind ? "(unusable path)" : "bad.txt") << "' limit " << limit << " startCol " << startCol << " seps '" << seps << "' mutations:" << how << "\nbytes:\n" << (wide || tall ? num((double)text.size()) + " bytes, " + num((double)lines(text).size()) + " lines, first of " + num((double)lines(text)[0].size()) + " bytes" : text) << "\nexpected: " << (v.v == Verdict::REJECT ? std::string("rejected, ") + v.why : v.v == Verdict::ACCEPT ? "accepted" : "either") << "\n");

  bool ok = false;
  onex::dataset_info_t d;
  try { d = api.loadDataset(p, limit, startCol, seps); ok = true; } catch (OnexException&) {}
  if (!ok) {
    CHECK(v.v != Verdict::ACCEPT, "a usable file is rejected");
    CHECK(listing(api) == before, "a rejected load changed the listing from " << before << " to " << listing(api));
  } else {
    CHECK(v.v != Verdict::REJECT, "accepted although: " << v.why);
    CHECK(d.id == expectId, "id " << d.id << " instead of " << expectId);
    CHECK(d.itemCount >= 1 && d.itemLength >= 1, "accepted dataset is " << info(d));
    CHECK(d.itemCount == v.rows && d.itemLength == v.cols, "accepted dataset is " << info(d) << " instead of " << v.rows << "x" << v.cols);
    onex::TimeSeriesSet s;
    s.loadData(p, limit, startCol, seps);
    CHECK(same(values(s), v.t) || v.v == Verdict::EITHER, "values " << show(values(s)) << " instead of " << show(v.t));
    api.unloadDataset(d.id);
    CHECK(listing(api) == before, "loading and unloading changed the listing from " << before << " to " << listing(api));
  }
  for (int i = 0; i < others; i++) {
    if (i == hole) { CHECK(throwsOnex([&] { api.getDatasetInfo(i); }), "unloaded id " << i << " answers"); continue; }
    CHECK(same(values(api, c, i), ot[i]), "values of dataset " << i << " changed");
    if (i == grouped) savedGroups(api, c, i);
  }
  // a set that failed to load is empty and usable afterwards
  if (v.v == Verdict::REJECT) {
    onex::GroupableTimeSeriesSet s;
    bool had = c.flip();
    if (had) { load(s, c, Table(1, Row(3, 1)), "prev.txt"); s.groupAllLengths("euclidean", 1); }
    CHECK(throwsOnex([&] { s.loadData(p, limit, startCol, seps); }), "accepted although: " << v.why);
    CHECK(!s.isGrouped() || s.isLoaded(), "reports groups of data it no longer has");
    if (!s.isLoaded()) CHECK(s.getItemCount() == 0, "reports " << s.getItemCount() << " series without data");
    Table t2 = table(c, 2, 3, INTS);
    load(s, c, t2, "next.txt");
    CHECK(same(values(s), t2), "load after a rejected load gives " << show(values(s)));
  }
  c.label(std::string(v.v == Verdict::REJECT ? "reject: " : v.v == Verdict::ACCEPT ? "accept" : "either") + (v.v == Verdict::REJECT ? v.why : ""));
  if (wide) c.label("rows x columns beyond int");
  if (tall) c.label("tall");
  if (others) c.label("other datasets loaded");
  if (hole >= 0) c.label("free id below others");
  c.nontrivial(!text.empty() && (others > 0 || form != 1));
}
} // namespace C02
PBT_PROPERTY("C02", 40, C02::run, h::resetState,
  "random bytes or valid tables with cell, line and byte mutations (few with a first row of up to 131000 values and as many lines, few with up to 3000 rows and at most one wrong late row), arbitrary row limits, start columns and separators, loaded into sessions with 0-3 datasets; an independent parser decides accept, reject or unspecified. Non-trivial: non-empty file that is mutated or raw, or loaded next to other datasets")
