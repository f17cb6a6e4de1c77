#include "matchgen.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C12 {
using namespace h;

void run(Case& c) {
  int rows = c.size(1, 7), len = c.size(2, 10);
  int kind = (int)c.below(NKINDS);
  bool tall = c.chance(1, 2000);
  Table t = tall ? tallTable(c) : table(c, rows, len, kind);
  if (tall) { rows = (int)t.size(); len = (int)t[0].size(); kind = FEW; c.label("tall"); }
  bool exact = isExact(kind);
  bool dtw = c.chance(1, 3);
  double ratio = dtw ? ratioGen(c) : 0.1;
  onex::setWarpingBandRatio(ratio);
  // quantity compared: squared distance times a constant of the length, exact for exact kinds
  auto q = [&](const Row& a, const Row& b) { return dtw ? refDtwCost(a, b, refBand((int)a.size(), ratio)) : refEuclidSum(a, b); };
  // the same for half the threshold
  auto lim = [&](ld thr, int l) { return thr < 0 ? (ld)-1 : dtw ? sq(thr * (ld)l) : sq(thr / 2) * (ld)l; };
  data_t thr = thresholdGen(c, t);
  if (exact && c.chance(1, 2)) { // exactly on the boundary of some pair whose distance is representable
    int l = c.range(2, len);
    int i = (int)c.below(rows), j = (int)c.below(rows), a = (int)c.below(len - l + 1), b = (int)c.below(len - l + 1);
    ld s = q(slice(t[i], a, a + l), slice(t[j], b, b + l));
    for (ld m = 0.125; m <= 64; m += 0.125) if (ld x = m * scaleOf(c); lim(x, l) == s) { thr = (data_t)x; c.label("threshold on a boundary"); break; }
  }
  DESC(c, rows << "x" << len << " " << kindName(kind) << (dtw ? " dtw ratio " + num(ratio) : std::string()) << " threshold " << num(thr) << "\n" << show(t) << "\n");
  onex::OnexAPI api;
  onex::GroupableTimeSeriesSet s;
  GroupFile g;
  if (!dtw && c.flip()) { int id = load(api, c, t); api.groupDataset(id, thr); g = savedGroups(api, c, id); }
  else { load(s, c, t); s.groupAllLengths(dtw ? "euclidean_dtw" : "euclidean", thr); g = savedGroups(s, c); }
  checkPartition(g, rows, len);
  const ld slack = sizeof(data_t) == 4 ? 1e-5 : 1e-11; // of the limit, whose rounding is not the rule's business
  // relative slack: none for exact kinds, except where the limit itself is rounded
  ld tol = exact ? 0 : (ld)(dtw ? 4 : 4) * RTOL;
  bool ties = false, boundary = false, joined = false;
  for (int l = 2; l <= len; l++) {
    auto& gs = g.groups[l];
    std::map<Member, int> of;
    for (size_t k = 0; k < gs.size(); k++) for (auto& m : gs[k].members) of[m] = (int)k;
    ld L = lim(thr, l);
    std::vector<int> created; // groups in order of creation
    for (int st = 0; st + l <= len; st++)
      for (int i = 0; i < rows; i++) {
        Row x = slice(t[i], st, st + l);
        int k = of[Member{i, st}];
        ld best = LINF;
        int bestK = -1, nBest = 0;
        ld own = -1;
        for (int e : created) {
          ld d = q(gs[e].rep, x);
          if (d < best) { best = d; bestK = e; nBest = 1; }
          else if (d == best) nBest++;
          if (e == k) own = d;
        }
        if (nBest > 1) ties = true;
        // is the nearest representative within half the threshold?
        int within; // 1 yes, 0 no, -1 too close to call
        bool nearBoundary = bestK >= 0 && close((double)best, (double)L, (double)slack);
        if (bestK < 0) within = 0;
        else if (best == L && exact) { within = 1; boundary = true; }
        else if (nearBoundary) within = -1;
        else within = best <= L;
        if (thr < 0) within = 0;
        if (own < 0) { // a new group
          bool isNew = true;
          for (int e : created) if (e == k) isNew = false;
          CHECK(isNew, "internal");
          CHECK(within != 1, "subsequence " << i << "@" << st << " of length " << l << " founds a group although a representative is within half the threshold");
          for (int j = 0; j < l; j++) CHECK(sameValue(gs[k].rep[j], x[j]), "the representative of a group of length " << l << " is " << show(gs[k].rep) << " but its first member is " << i << "@" << st << " " << show(x));
          created.push_back(k);
        } else {
          joined = true;
          CHECK(within != 0, "subsequence " << i << "@" << st << " of length " << l << " joins a group although the nearest representative is farther than half the threshold");
          CHECK(own <= best * (1 + tol), "subsequence " << i << "@" << st << " of length " << l << " joins a group that is not the nearest one");
          if (exact) CHECK(k == bestK, "subsequence " << i << "@" << st << " of length " << l << " does not join the earliest of the nearest groups");
          CHECK(own <= L * (1 + slack), "member " << i << "@" << st << " is farther from its representative than half the threshold");
        }
      }
    CHECK(created.size() == gs.size(), "groups without members");
    for (size_t a = 0; a < gs.size(); a++) for (size_t b = a + 1; b < gs.size(); b++) {
      ld d = q(gs[a].rep, gs[b].rep);
      CHECK(d > L * (1 - slack), "two representatives of length " << l << " are within half the threshold of each other");
    }
  }
  if (ties) c.label("tie between groups");
  if (boundary) c.label("member on the boundary");
  if (dtw) c.label("grouped by dtw");
  if (joined) c.label("group with several members");
  c.nontrivial(joined && g.total() > len - 1);
}
} // namespace C12
PBT_PROPERTY("C12", 30, C12::run, h::resetState,
  "random datasets up to 7x10 (exact value kinds for ties and boundaries), both grouping distances with any band, thresholds around pair distances or exactly on one; the saved groups are replayed in placement order against the rule. Non-trivial: some group with several members and some length with several groups")
