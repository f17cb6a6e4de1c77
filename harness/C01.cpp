#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C01 {
using namespace h;

struct Spelling { std::string text; data_t v; };

// A number and one of the ways to write it.
Spelling spell(Case& c) {
  int how = (int)c.below(8);
  char b[400];
  if (how == 0) { int v = c.range(0, 20) - 5; snprintf(b, sizeof b, "%d", v); return {b, (data_t)v}; }
  if (how <= 2) { // full precision, wide range
    int e = c.range(0, how == 1 ? 8 : 70) - (how == 1 ? 4 : 35);
    double v = (1 + c.unit()) * std::pow(10.0, e) * (c.flip() ? -1 : 1);
    v = (data_t)v;
    static const char* f[] = {"%.17g", "%.17g", "%.25g", "%.60e", "%.60f"};
    snprintf(b, sizeof b, f[c.below(5)], v); // digits beyond the 17th are those of the double itself
    if (std::fabs(v) < 1e-10 && !strpbrk(b, "eE")) snprintf(b, sizeof b, "%.20e", v);
    return {b, (data_t)v};
  }
  // decorated spellings of exact eighths
  int k = c.range(0, 8000);
  bool neg = c.flip();
  double v = k / 8.0 * (neg ? -1 : 1);
  std::string s;
  snprintf(b, sizeof b, "%.3f", k / 8.0);
  s = b; // e.g. 12.375
  if (how == 3) { // trailing zeros removed, maybe a bare point
    while (s.back() == '0') s.pop_back();
    if (s.back() == '.' && c.flip()) s.pop_back();
  }
  if (how == 4) s = std::string(c.chance(1, 20) ? c.range(20, 700) : c.range(1, 3), '0') + s;
  if (how == 5 && c.chance(1, 20)) s += std::string(c.range(10, 700), '0');
  if (how == 5 && s.size() < 20) { snprintf(b, sizeof b, "%.9e", k / 8.0); s = b; if (c.flip()) for (auto& ch : s) if (ch == 'e') ch = 'E'; }
  if (how == 6) { snprintf(b, sizeof b, "%d%s%s", k * 125, c.flip() ? "e-3" : "E-03", ""); s = b; }
  if (how == 7 && s[0] == '0' && s.size() > 2) s = s.substr(1); // .125
  s = (neg ? "-" : c.chance(1, 4) ? "+" : "") + s;
  return {s, (data_t)v};
}

// More rows or columns than fit a small counter or buffer.
void huge(Case& c) {
  int n = c.pick(std::vector<int>{4000, 9000, 33000, 66000, 70000, 140000}) + c.range(0, 700), m = c.range(1, 3);
  int rows = n, cols = m;
  if (c.flip()) std::swap(rows, cols);
  std::string text;
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { text += std::to_string(i % 1000 * 3 + j % 777); text += j + 1 < cols ? ',' : '\n'; }
  int start = c.flip() ? (int)c.below(cols) : 0, limit = c.flip() ? c.range(std::max(1, rows - 5), rows + 5) : 0;
  if (c.flip()) text.pop_back();
  int want = limit ? std::min(limit, rows) : rows;
  DESC(c, rows << " rows " << cols << " columns start " << start << " limit " << limit << "\n");
  writeFile(path(c, "huge.csv"), text);
  onex::GroupableTimeSeriesSet s;
  s.loadData(path(c, "huge.csv"), limit, start, ",");
  CHECK(s.getItemCount() == want && s.getItemLength() == cols - start, "a " << want << "x" << cols - start << " table is loaded as " << s.getItemCount() << "x" << s.getItemLength());
  for (int i = 0; i < want; i++) {
    const TimeSeries t = s.getTimeSeries(i);
    for (int j = start; j < cols; j++) CHECK(t[j - start] == (data_t)(i % 1000 * 3 + j % 777), "row " << i << " column " << j << " is " << num(t[j - start]));
  }
  c.label("huge");
  c.nontrivial();
}

void run(Case& c) {
  if (c.chance(1, 1000)) return huge(c);
  static const std::vector<std::string> SEPS = {" ", ",", "\t", ", ", ";", "|", " \t", ",;|", ":", "/", "\t,; "};
  bool big = c.chance(1, 60);
  int rows = big ? c.range(1, 4) : c.size(1, 24), cols = big ? c.range(500, 2000) : c.size(1, 24);
  if (big && c.flip()) { std::swap(rows, cols); if (rows > 1200) rows = 1200; }
  std::string seps = c.pick(SEPS);
  int startCol = c.chance(1, 2) ? (int)c.below(cols) : 0;
  bool labels = c.flip();               // discarded columns hold text
  int junkRows = c.chance(1, 4) ? c.range(1, 3) : 0; // rows past the limit, of any form
  bool crlf = c.chance(1, 8);
  bool lastNewline = !c.chance(1, 4);
  bool decorate = c.flip();
  bool blankIsSep = seps.find(' ') != std::string::npos;
  Table want;
  std::string text;
  for (int i = 0; i < rows; i++) {
    Row r;
    if (decorate && c.chance(1, 4)) text += std::string(c.range(1, 2), seps[0]);
    for (int j = 0; j < cols; j++) {
      if (j) {
        int n = decorate && c.chance(1, 5) ? c.range(2, 3) : 1;
        for (int k = 0; k < n; k++) text += seps[c.below(seps.size())];
      }
      if (decorate && !blankIsSep && c.chance(1, 6)) text += ' ';
      if (j < startCol && labels) { static const char* l[] = {"id", "x1", "row-a", "Label"}; text += l[c.below(4)]; }
      else {
        Spelling s = big ? Spelling{num((double)(data_t)(i * 7 + j * 0.25)), (data_t)(i * 7 + j * 0.25)} : spell(c);
        text += s.text;
        if (j >= startCol) r.push_back(s.v);
      }
      if (decorate && !blankIsSep && c.chance(1, 6)) text += ' ';
    }
    if (decorate && c.chance(1, 4) && !crlf) text += std::string(c.range(1, 2), seps[0]);
    if (crlf) text += '\r';
    want.push_back(r);
    bool last = i == rows - 1 && !junkRows;
    if (!last || lastNewline) text += '\n';
  }
  for (int i = 0; i < junkRows; i++) {
    static const char* junk[] = {"", "abc", "1", "1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25", ",,,"};
    text += junk[c.below(5)];
    if (i < junkRows - 1 || lastNewline) text += '\n';
  }
  int limit;
  if (junkRows) limit = rows > 1 && c.flip() ? c.range(1, rows) : rows;
  else switch (c.below(6)) {
    case 0: limit = 0; break;
    case 1: limit = -(int)c.below(5); break;
    case 2: limit = c.range(1, rows); break;
    case 3: limit = rows; break;
    case 4: limit = rows + c.range(1, 5); break;
    default: limit = c.flip() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
  }
  if (limit > 0 && limit < rows) want.resize(limit);
  DESC(c, "rows " << rows << " cols " << cols << " seps '" << seps << "' startCol " << startCol << " limit " << limit << " junk " << junkRows << (crlf ? " crlf" : "") << (lastNewline ? "" : " no final newline") << "\ntext:\n" << text.substr(0, 1500) << "\n");
  std::string p = oddPath(c, c.flip() ? "data.txt" : "sub name.csv");
  writeFile(p, text);

  onex::GroupableTimeSeriesSet s;
  s.loadData(p, limit, startCol, seps);
  CHECK(s.isLoaded(), "not reported as loaded");
  CHECK(s.getFilePath() == p, "named " << s.getFilePath() << " instead of " << p);
  CHECK(s.getItemCount() == (int)want.size(), s.getItemCount() << " series instead of " << want.size());
  CHECK(s.getItemLength() == cols - startCol, "length " << s.getItemLength() << " instead of " << cols - startCol);
  for (int i = 0; i < (int)want.size(); i++) {
    const TimeSeries t = s.getTimeSeries(i);
    CHECK(t.getLength() == cols - startCol, "series " << i << " has length " << t.getLength());
    for (int j = 0; j < cols - startCol; j++)
      CHECK(t[j] == want[i][j], "series " << i << " point " << j << " is " << num(t[j]) << " instead of " << num(want[i][j]));
  }
  onex::OnexAPI api;
  onex::dataset_info_t d = api.loadDataset(p, limit, startCol, seps);
  CHECK(d.id == 0 && d.name == p && d.itemCount == (int)want.size() && d.itemLength == cols - startCol && !d.isGrouped && !d.isNormalized,
        "loadDataset reports " << info(d) << " for a " << want.size() << "x" << cols - startCol << " table");
  // loading again into the same object replaces everything
  if (c.chance(1, 4)) {
    Table t2 = table(c, c.range(1, 4), c.range(1, 6), INTS);
    load(s, c, t2, "second.txt");
    CHECK(same(values(s), t2), "second load into the same set gives " << show(values(s)) << " instead of " << show(t2));
    CHECK(!s.isNormalized() && !s.isGrouped(), "second load leaves marks of the first dataset");
    c.label("reload");
  }
  if (big) c.label("large");
  if (limit > 0 && limit < rows) c.label("row limit cuts");
  if (startCol) c.label("start column");
  if (startCol && labels) c.label("text in discarded columns");
  if (decorate) c.label("separator runs/blanks");
  if (junkRows) c.label("malformed rows beyond limit");
  if (!lastNewline) c.label("no final newline");
  if (crlf) c.label("crlf");
  c.nontrivial(want.size() * (cols - startCol) >= 4 && (startCol || decorate || (limit > 0 && limit < rows) || seps.size() > 1 || !lastNewline));
}
} // namespace C01
PBT_PROPERTY("C01", 40, C01::run, h::resetState,
  "random table (1-24 rows and columns, sometimes up to 2000), number spellings with known value, separator set, row limit, start column; loaded through both interfaces and compared point by point. Non-trivial: at least 4 kept points and a start column, row limit, separator run, multi-character separator set or missing final newline")
