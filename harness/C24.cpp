#include "common.hpp"
#include "lib/trillionDTW.h"
#undef min
#undef max
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C24 {
using h::Case; using h::Row; using h::ld; using h::path; using h::writeFile; using h::readFile; using h::show; using h::num; using h::value; using h::row;
using onex::data_t;
using namespace pbt;

#ifdef SINGLE_PRECISION
const double LBTOL = 1e-3, DTOL = 2e-2, LOCTOL = 5e-3;
#else
const double LBTOL = 1e-9, DTOL = 1e-4, LOCTOL = 1e-7;
#endif

// z-normalization; false without variation
bool znorm(const data_t* x, int m, std::vector<double>& z) {
  ld s = 0, s2 = 0;
  for (int i = 0; i < m; i++) s += x[i];
  ld mean = s / m;
  for (int i = 0; i < m; i++) s2 += ((ld)x[i] - mean) * ((ld)x[i] - mean);
  z.resize(m);
  if (s2 == 0) return false;
  ld sd = sqrtl(s2 / m);
  for (int i = 0; i < m; i++) z[i] = (double)(((ld)x[i] - mean) / sd);
  return true;
}

// Least cost of a warping path within the band, up to cut (infinity when it is not less).
double cost(const std::vector<double>& a, const std::vector<double>& b, int r, double cut, std::vector<double>& prev, std::vector<double>& cur) {
  int m = (int)a.size();
  const double I = std::numeric_limits<double>::infinity();
  prev.assign(m, I);
  cur.assign(m, I);
  for (int i = 0; i < m; i++) {
    int lo = std::max(0, i - r), hi = std::min(m - 1, i + r);
    double best = I;
    for (int j = lo; j <= hi; j++) {
      double p = i == 0 && j == 0 ? 0 : I;
      if (i) p = std::min(p, prev[j]);
      if (j > lo) p = std::min(p, cur[j - 1]);
      if (i && j) p = std::min(p, prev[j - 1]);
      cur[j] = p + (a[i] - b[j]) * (a[i] - b[j]);
      best = std::min(best, cur[j]);
    }
    if (best > cut) return I;
    std::swap(prev, cur);
    for (int j = std::max(0, i - 1 - r); j <= std::min(m - 1, i - 1 + r); j++) cur[j] = I; // the row before
  }
  return prev[m - 1];
}

std::string fastText(Case& c, const std::vector<data_t>& v, bool exact) {
  std::string s;
  s.reserve(v.size() * 6);
  int style = (int)c.below(3);
  char b[40];
  for (size_t i = 0; i < v.size(); i++) {
    if (exact) { // eighths
      int e = (int)std::lround((double)v[i] * 8);
      static const char* fr[] = {"", ".125", ".25", ".375", ".5", ".625", ".75", ".875"};
      int a = std::abs(e);
      snprintf(b, sizeof b, "%s%d%s", e < 0 ? "-" : "", a / 8, fr[a % 8]);
    } else snprintf(b, sizeof b, "%.17g", (double)v[i]);
    s += b;
    s += style == 0 ? '\n' : style == 1 ? ' ' : i % 7 == 6 ? '\n' : '\t';
  }
  if (!s.empty() && c.flip()) s.pop_back();
  return s;
}

// Runs the search with its output captured.
std::string search(Case& c, const std::string& data, const std::string& query, int m, int r) {
  std::string out = path(c, "ucr.out"), text;
  fflush(stdout);
  std::cout.flush();
  int keep = dup(1), fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(fd, 1);
  close(fd);
  calculate(data.c_str(), query.c_str(), m, r);
  std::cout.flush();
  fflush(stdout);
  dup2(keep, 1);
  close(keep);
  readFile(out, text);
  return text;
}
double field(const std::string& out, const char* name) {
  size_t p = out.find(name);
  CHECK(p != std::string::npos, "no '" << name << "' in the output: " << out);
  p = out.find(':', p);
  return strtod(out.c_str() + p + 1, nullptr);
}

void pieces(Case& c) { // dtw and the lower bounds on their own
  int m = c.size(6, 24), r = (int)c.below(m), kind = c.pick(std::vector<int>{h::DYADIC, h::UNIFORM, h::WALK, h::INTS});
  Row q0 = row(c, m, kind), t0 = row(c, m, kind);
  if (c.chance(1, 3)) { t0 = q0; std::rotate(t0.begin(), t0.begin() + c.below(std::min(m, 4)), t0.end()); t0[c.below(m)] += value(c, kind); }
  std::vector<double> qz, tz;
  if (!znorm(q0.data(), m, qz) || !znorm(t0.data(), m, tz)) { c.label("no variation"); return; }
  DESC(c, "m " << m << " r " << r << "\nquery " << show(q0) << "\nwindow " << show(t0) << "\n");
  std::vector<double> s1, s2;
  double full = cost(tz, qz, r, 1e300, s1, s2), kimFull = cost(tz, qz, m - 1, 1e300, s1, s2);
  std::vector<data_t> q(qz.begin(), qz.end()), t(tz.begin(), tz.end()), cb(m, 0);
  data_t d = dtw(t.data(), q.data(), cb.data(), m, r, (data_t)1e20);
  CHECK(h::close(d, full, LBTOL, LBTOL), "dtw gives " << num(d) << " instead of " << num(full));
  // the circular buffer of the search: window at offset j of an array of twice the length
  std::vector<data_t> circ(2 * m);
  int j = (int)c.below(m + 1);
  for (int i = 0; i < m; i++) circ[i + j < 2 * m ? i + j : i] = t0[i];
  ld s = 0, v = 0;
  for (auto x : t0) s += x;
  data_t mean = (data_t)(s / m);
  for (auto x : t0) v += ((ld)x - s / m) * ((ld)x - s / m);
  data_t sd = (data_t)sqrtl(v / m);
  // some best so far: infinite, around the cost, or smaller
  double f[] = {1e20, full * 1.01 + 1e-6, full * 0.99, full * 0.5, full * c.unit()};
  data_t bsf = (data_t)f[c.below(5)];
  data_t kim = lb_kim_hierarchy(circ.data(), q.data(), j, m, mean, sd, bsf);
  CHECK(kim <= kimFull * (1 + LBTOL) + LBTOL, "lb_kim_hierarchy gives " << num(kim) << " above the distance " << num(kimFull));
  std::vector<data_t> l(m), u(m), lo(m), uo(m), qo(m), cb1(m, 0), cb2(m, 0), dl(m), du(m);
  lower_upper_lemire(q.data(), m, r, l.data(), u.data());
  std::vector<int> order(m);
  for (int i = 0; i < m; i++) order[i] = i;
  if (c.flip()) for (int i = m - 1; i > 0; i--) std::swap(order[i], order[c.below(i + 1)]);
  for (int i = 0; i < m; i++) { qo[i] = q[order[i]]; lo[i] = l[order[i]]; uo[i] = u[order[i]]; }
  data_t k1 = lb_keogh_cumulative(order.data(), circ.data(), uo.data(), lo.data(), cb1.data(), j, m, mean, sd, bsf);
  CHECK(k1 <= full * (1 + LBTOL) + LBTOL, "lb_keogh_cumulative gives " << num(k1) << " above the distance " << num(full));
  lower_upper_lemire(t0.data(), m, r, dl.data(), du.data());
  data_t k2 = lb_keogh_data_cumulative(order.data(), t.data(), qo.data(), cb2.data(), dl.data(), du.data(), m, mean, sd, bsf);
  CHECK(k2 <= full * (1 + LBTOL) + LBTOL, "lb_keogh_data_cumulative gives " << num(k2) << " above the distance " << num(full));
  // complete bounds: what they are documented to be
  if (k1 < bsf) {
    double sum = 0;
    for (int i = 0; i < m; i++) {
      double lw = 1e300, up = -1e300;
      for (int k = std::max(0, i - r); k <= std::min(m - 1, i + r); k++) { lw = std::min(lw, qz[k]); up = std::max(up, qz[k]); }
      double e = tz[i] > up ? tz[i] - up : tz[i] < lw ? lw - tz[i] : 0;
      sum += e * e;
      CHECK(h::close(cb1[i], e * e, LBTOL, LBTOL), "lb_keogh_cumulative: contribution " << i << " is " << num(cb1[i]) << " instead of " << num(e * e));
    }
    CHECK(h::close(k1, sum, LBTOL, LBTOL), "lb_keogh_cumulative gives " << num(k1) << " instead of " << num(sum));
  }
  if (k2 < bsf) {
    double sum = 0;
    for (int i = 0; i < m; i++) {
      double lw = 1e300, up = -1e300;
      for (int k = std::max(0, i - r); k <= std::min(m - 1, i + r); k++) { lw = std::min(lw, tz[k]); up = std::max(up, tz[k]); }
      double e = qz[i] > up ? qz[i] - up : qz[i] < lw ? lw - qz[i] : 0;
      sum += e * e;
      CHECK(h::close(cb2[i], e * e, LBTOL, LBTOL), "lb_keogh_data_cumulative: contribution " << i << " is " << num(cb2[i]) << " instead of " << num(e * e));
    }
    CHECK(h::close(k2, sum, LBTOL, LBTOL), "lb_keogh_data_cumulative gives " << num(k2) << " instead of " << num(sum));
  }
  // early abandoning: with the cumulative bound of the search
  bool first = k1 > k2;
  std::vector<data_t> cum(m);
  if (k1 < bsf && k2 < bsf) {
    cum[m - 1] = (first ? cb1 : cb2)[m - 1];
    for (int i = m - 2; i >= 0; i--) cum[i] = cum[i + 1] + (first ? cb1 : cb2)[i];
    // rounding of the bounds may matter when they equal the distance
    data_t e = dtw(t.data(), q.data(), cum.data(), m, r, bsf);
    if (full < bsf * (1 - 2 * LBTOL) - 2 * LBTOL) CHECK(h::close(e, full, LBTOL, LBTOL), "dtw with bound " << num(bsf) << " gives " << num(e) << " instead of " << num(full));
    else CHECK(e >= bsf * (1 - 2 * LBTOL) - 2 * LBTOL || h::close(e, full, LBTOL, LBTOL), "dtw with bound " << num(bsf) << " gives " << num(e) << " although the distance is " << num(full));
    c.label("bounded dtw");
  }
  c.label("pieces");
  c.nontrivial(full > 1e-3 && r > 0);
}

void whole(Case& c, bool longData, bool giant = false) {
  int m, r;
  std::vector<data_t> q, t;
  bool exact = longData || giant || c.chance(3, 4);
  int kind = exact ? c.pick(std::vector<int>{h::DYADIC, h::INTS, h::DYADIC}) : c.flip() ? (int)h::UNIFORM : (int)h::WALK;
  bool wide = !longData && c.chance(1, 60);
  m = longData ? c.range(6, 16) : wide ? c.range(40, 400) : c.size(6, 30);
  r = (int)c.below(c.flip() ? m : std::min(m, 4));
  if (giant) { // around and beyond the chunk size of the search
    m = c.pick(std::vector<int>{100000, 100001, 100000, 50000, 99990, 150000}) + c.range(-2, 8);
    r = c.range(0, 3);
  }
  if (wide || giant) c.label(giant ? "query as long as a chunk" : "long query");
  // the bulk of a giant case is a function of one choice
  auto bulk = [&](std::vector<data_t>& v, size_t n) {
    u64 st = c.below(0);
    v.resize(n);
    for (auto& x : v) { st = mix(st); x = (data_t)((int)(st % 161) - 80) / 8; }
  };
  if (giant) bulk(q, m);
  else q = row(c, m, kind);
  std::vector<double> qz;
  if (!znorm(q.data(), m, qz)) { q[0] += 1; znorm(q.data(), m, qz); }
  size_t n;
  const int EPOCH = 100000;
  if (giant) {
    n = m + c.range(0, 25);
    bulk(t, n);
  } else if (longData) {
    switch (c.below(7)) {
      case 0: n = EPOCH + c.range(0, 2 * m) - m; break;
      case 6: n = (size_t)c.range(2, 5) * (EPOCH - m + 1) + c.range(0, 4 * m); break;
      case 1: n = 2 * EPOCH - (m - 1) + c.range(0, 6) - 3; break;
      case 2: n = EPOCH + c.range(0, 60000); break;
      case 3: n = EPOCH; break;
      default: n = EPOCH + c.range(20, 3000);
    }
    u64 st = c.below(0); // the bulk is a function of one choice
    t.resize(n);
    int step = c.range(1, 3);
    int cur = 0;
    for (auto& x : t) {
      st = mix(st);
      if (step == 1) x = (data_t)((int)(st % 161) - 80) / 8;
      else { cur += (int)(st % (2 * step + 1)) - step; if (cur > 80) cur -= 20; if (cur < -80) cur += 20; x = (data_t)cur / 8; }
    }
  } else {
    n = c.size(m, wide ? 3 * m : 220);
    if (c.chance(1, 20)) n = c.range(1, m);
    t = row(c, (int)n, kind);
    // stretches without variation; with other values the running sums are rounded, which hides that they do not vary
    int flat = exact ? (int)c.below(3) : 0;
    for (int i = 0; i < flat && n > 2; i++) { size_t a = c.below(n), k = c.below(n - a) + 1; for (size_t x = a; x < a + k && x < a + 40; x++) t[x] = t[a]; }
  }
  // near copies of the query, scaled and shifted
  int plants = c.range(longData ? 1 : 0, 3);
  std::string where;
  for (int i = 0; i < plants && n >= (size_t)m; i++) {
    size_t last = n - m, at;
    switch (c.below(longData ? 6 : 3)) {
      case 0: at = c.below(last + 1); break;
      case 1: at = last - std::min<size_t>(last, c.below(3)); break;
      case 2: at = std::min<size_t>(last, c.below(3)); break;
      default: { // around the end of a chunk
        long p = (long)(EPOCH - m + 1) * (n > 190000 && c.flip() ? c.range(2, std::max(2, (int)(n / (EPOCH - m + 1)))) : 1) + c.range(0, 3 * m) - 2 * m;
        at = (size_t)std::max(0L, std::min((long)last, p));
      }
    }
    data_t sc = (data_t)c.pick(std::vector<double>{1, 2, 0.5, 4}), sh = (data_t)c.range(-4, 4);
    if (exact && sc == (data_t)0.5) sc = 1;
    for (int k = 0; k < m; k++) t[at + k] = q[k] * sc + sh;
    int dist = c.range(0, 2);
    for (int k = 0; k < dist; k++) t[at + c.below(m)] += (data_t)c.pick(std::vector<double>{0.125, -0.125, 0.5, -1, 2});
    if (c.flip() && m > 7) { size_t k = at + 1 + c.below(m - 2); t[k] = t[k - 1]; }
    where += " " + num((double)at);
  }
  DESC(c, "m " << m << " r " << r << " query " << show(q) << "\ndata of " << n << " points: " << show(t) << "\nplanted at" << where << "\n");
  std::string dp = path(c, "ucr.data"), qp = path(c, "ucr.query");
  writeFile(dp, fastText(c, t, exact));
  std::vector<data_t> qf(q);
  if (c.chance(1, 4)) qf.push_back(7); // more than m values in the query file
  writeFile(qp, fastText(c, qf, exact));
  // reference
  std::vector<double> w, s1, s2;
  double best = std::numeric_limits<double>::infinity();
  std::vector<double> costs;
  for (size_t i = 0; i + m <= n; i++) {
    if (!znorm(&t[i], m, w)) continue;
    double d = cost(w, qz, r, best, s1, s2);
    if (d < best) best = d;
  }
  std::string out = search(c, dp, qp, m, r);
  double loc = field(out, "Location"), dist = field(out, "Distance");
  if (std::isinf(best)) { c.label("no window with variation"); return; }
  CHECK(loc >= 0 && loc + m <= n && loc == std::floor(loc), "location " << num(loc) << " in data of " << n << " points");
  bool varies = znorm(&t[(size_t)loc], m, w);
  CHECK(varies, "the window at " << num(loc) << " does not vary");
  double at = cost(w, qz, r, 1e300, s1, s2);
  CHECK(at <= best * (1 + LOCTOL) + LOCTOL, "the window at " << num(loc) << " is at distance " << num(std::sqrt(at)) << " but another is at " << num(std::sqrt(best)));
  CHECK(std::fabs(dist - std::sqrt(at)) <= DTOL * (1 + std::sqrt(at)), "distance " << num(dist) << " reported, but the window at " << num(loc) << " is at " << num(std::sqrt(at)));
  if (longData) c.label(loc + m > EPOCH ? "long data, match after the first chunk" : "long data");
  else c.label("whole search");
  if (r == 0) c.label("band of zero");
  c.nontrivial(n >= (size_t)m + 5 && best > 1e-9);
}

void run(Case& c) {
  c.scale = 1; // the search's running sums are rounded; its data are written in eighths
  int f = c.range(0, 399);
#ifndef SINGLE_PRECISION
  if (f == 399 && c.flip()) { whole(c, false, true); return; }
#endif
  if (f < 196) whole(c, false);
  else if (f < 388) pieces(c);
  else whole(c, true);
}
} // namespace C24
PBT_PROPERTY("C24", 40, C24::run, h::resetState,
  "queries of 6-30 (some 40-400, a few 50000-150000) points, every band width below the length; data of 1-220 points, or 100000-500000 points around the chunk size, with planted scaled and distorted copies of the query (also across chunk ends) and stretches without variation; the reported location and distance are compared with an exhaustive search, and dtw and the three lower bounds with their definitions. Non-trivial: more than five windows with a non-zero best distance, or a bound compared with a non-zero distance")
