// Results after an arbitrary history against results in a fresh process.
#include "matchgen.hpp"
#include "pbt_main.hpp"
#include <malloc.h>

namespace C26 {
using namespace h;

struct Op { int kind, a, b, s, e, file; double x; };
enum { LOAD, UNLOAD, NORMALIZE, PAA, GROUP, SAVE, SAVEGROUP, LOADGROUP, MATCH, RATIO, INFO,
       SETLOAD, SETGROUP, SETSAVE, SETMATCH, SETLOADGROUP, SETPAA, SETNORMALIZE, SETCLEAR,   // one time-series set
       OTHERSESSION, UNLOADALL, DISTANCE, BAND, NKINDS };
const char* kindName_[] = {"load", "unload", "normalize", "paa", "group", "save", "saveGroup", "loadGroup", "match", "ratio", "info",
  "set.load", "set.group", "set.save", "set.match", "set.loadGroups", "set.paa", "set.normalize", "set.clear", "other session", "unload all", "distance", "band"};

std::string hex(double v) {
  char b[64];
  if (std::isnan(v)) return "nan";
  snprintf(b, sizeof b, "%a", v);
  return b;
}
std::string show(const onex::candidate_time_series_t& r) {
  std::string o = num(r.data.getIndex()) + "@" + num(r.data.getStart()) + "+" + num(r.data.getLength()) + " " + hex(r.dist) + " [";
  for (int k = 0; k < r.data.getLength(); k++) o += " " + hex(r.data[k]);
  return o + " ]";
}

struct World {
  std::vector<std::string> files;
  std::string dir;
  onex::OnexAPI api, other;
  onex::GroupableTimeSeriesSet set;
  std::vector<int> ids;       // datasets of the observed sequence, in the order it loaded them
  std::vector<int> noise;     // datasets of the history
  std::vector<int> noiseOther;

  std::string slurp(const std::string& p) { std::string s; return readFile(p, s) ? s : "(no file)"; }

  // One step of the observed sequence: everything it gives, as text.
  std::string step(const Op& o) {
    std::ostringstream r;
    auto id = [&](int k) { return ids.empty() ? -1 : ids[k % ids.size()]; };
    auto infoText = [&](const onex::dataset_info_t& i) { r << i.name.substr(i.name.rfind('/') + 1) << " " << i.itemCount << "x" << i.itemLength << (i.isGrouped ? " G" : "") << (i.isNormalized ? " N" : ""); };
    std::string tmp = dir + "/observed";
    unlink(tmp.c_str());
    try {
      switch (o.kind) {
        case LOAD: { auto i = api.loadDataset(files[o.file], o.a, o.b, " "); ids.push_back(i.id); infoText(i); break; }
        case UNLOAD: { int v = id(o.a); if (ids.size() > 1) { api.unloadDataset(v); ids.erase(ids.begin() + o.a % ids.size()); } break; }
        case NORMALIZE: { auto p = api.normalizeDataset(id(o.a)); r << hex(p.first) << " " << hex(p.second); break; }
        case PAA: infoText(api.PAA(id(o.a), o.b)); break;
        case GROUP: r << api.groupDataset(id(o.a), (data_t)o.x); break;
        case SAVE: api.saveDataset(id(o.a), tmp, ' '); r << slurp(tmp); break;
        case SAVEGROUP: {
          std::string p = o.b & 2 ? dir + "/groups" + num(o.file % 2) : tmp; // kept for loadGroup
          api.saveGroup(id(o.a), p, o.b & 1);
          r << slurp(p);
          break;
        }
        case LOADGROUP: r << api.loadGroup(id(o.a), dir + "/groups" + num(o.file % 2)); break;
        case MATCH: r << show(api.getBestMatch(id(o.a), id(o.b), o.file, o.s, o.e)); break;
        case RATIO: api.setWarpingBandRatio(o.x); break;
        case INFO: infoText(api.getDatasetInfo(id(o.a))); break;
        case SETLOAD: set.loadData(files[o.file], o.a, o.b, " "); r << set.getItemCount() << "x" << set.getItemLength(); break;
        case SETGROUP: r << set.groupAllLengths(o.a & 1 ? "euclidean_dtw" : "euclidean", (data_t)o.x); break;
        case SETSAVE: if (o.a & 1) set.saveGroups(tmp, o.b & 1); else set.saveData(tmp, ' '); r << slurp(tmp); break;
        case SETMATCH: { TimeSeries q = set.getTimeSeries(o.file, o.s, o.e); r << show(set.getBestMatch(q)); break; }
        case SETLOADGROUP: r << set.loadGroups(dir + "/groups" + num(o.file % 2)); break;
        case SETPAA: set.PAA(o.b); break;
        case SETNORMALIZE: { auto p = set.normalize(); r << hex(p.first) << " " << hex(p.second); break; }
        case SETCLEAR: set.clearData(); break;
        case DISTANCE: {
          bool other = o.b & 1; // of another length, if the two have one
          TimeSeries x = set.getTimeSeries(o.file, o.s, o.e), y = set.getTimeSeries(o.a, other ? 0 : o.s, other ? 1 + o.b / 2 : o.e);
          r << hex(onex::warpedDistance(x, y, INF)) << " " << hex(onex::cascadeDistance(x, y, INF));
          if (x.getLength() == y.getLength()) r << " " << hex(onex::pairwiseDistance(x, y, INF));
          break;
        }
        case BAND: {
          int n = o.a * 12 + o.b;
          r << onex::calculateWarpingBandSize(o.a + 1) << " " << onex::calculateWarpingBandSize(n + 1) << ":";
          for (int l : onex::generateTraverseOrder(o.b + 2, n + 2)) r << " " << l;
          break;
        }
        default: break;
      }
    } catch (OnexException& e) { r << " rejected"; }
    return r.str();
  }

  // One step of the history. It never changes a dataset of the observed sequence: [own] allows reading them.
  void disturb(const Op& o, bool setUsed) {
    std::vector<int>& mine = o.kind == OTHERSESSION ? noiseOther : noise;
    onex::OnexAPI& a = o.kind == OTHERSESSION ? other : api;
    int kind = o.kind == OTHERSESSION ? o.s % 10 : o.kind;
    std::string tmp = dir + "/noise";
    auto id = [&](int k) { return mine.empty() ? -1 : mine[k % mine.size()]; };
    // something to read: either kind of dataset
    auto any = [&](int k) { return o.kind != OTHERSESSION && !ids.empty() && (k & 8) ? ids[k % ids.size()] : id(k); };
    try {
      switch (kind) {
        case LOAD: if (mine.size() < 5) mine.push_back(a.loadDataset(files[o.file], o.a, o.b, " ").id); break;
        case UNLOAD: if (!mine.empty()) { int k = o.a % (int)mine.size(), v = mine[k]; mine.erase(mine.begin() + k); a.unloadDataset(v); } else a.unloadDataset(100 + o.a); break;
        case NORMALIZE: a.normalizeDataset(id(o.a)); break;
        case PAA: a.PAA(id(o.a), o.b); break;
        case GROUP: a.groupDataset(id(o.a), (data_t)o.x); break;
        case SAVE: a.saveDataset(any(o.a), tmp, ' '); break;
        case SAVEGROUP: a.saveGroup(any(o.a), tmp, o.b & 1); break;
        case LOADGROUP: a.loadGroup(id(o.a), o.b & 4 ? files[0] : tmp); break;
        case MATCH: a.getBestMatch(any(o.a), any(o.b), o.file, o.s, o.e); break;
        case RATIO: a.setWarpingBandRatio(o.x); break;
        case INFO: a.getAllDatasetInfo(); break;
        case SETLOAD: if (!setUsed) set.loadData(files[o.file], 0, 0, " "); break;
        case SETGROUP: if (!setUsed) set.groupAllLengths(o.a & 1 ? "euclidean_dtw" : "euclidean", (data_t)o.x); break;
        case SETSAVE: set.saveGroups(tmp, o.b & 1); break;
        case SETMATCH: { TimeSeries q = set.getTimeSeries(o.file, o.s, o.e); set.getBestMatch(q); break; }
        case SETPAA: if (!setUsed) set.PAA(o.b); break;
        case SETNORMALIZE: if (!setUsed) set.normalize(); break;
        case SETCLEAR: if (!setUsed) set.clearData(); break;
        case UNLOADALL: other.unloadAllDataset(); noiseOther.clear(); break;
        case DISTANCE: { TimeSeries x = set.getTimeSeries(o.file, o.s, o.e), y = set.getTimeSeries(o.a, o.s, o.e); onex::warpedDistance(x, y, (data_t)o.x); onex::cascadeDistance(y, x, (data_t)o.x); break; }
        case BAND: onex::calculateWarpingBandSize(o.a * 12 + o.b + 1); onex::calculateWarpingBandSize(o.a + 1); onex::generateTraverseOrder(o.b + 2, o.a + 2); break;
        default: break;
      }
    } catch (OnexException&) {}
  }
};

// Leaves traces where local variables of later calls will lie.
__attribute__((noinline)) void scribble(int depth, unsigned char v) {
  volatile unsigned char b[2048];
  for (size_t k = 0; k < sizeof b; k++) b[k] = v;
  if (depth) scribble(depth - 1, v);
  b[0] = b[1];
}

double gEdge; // the ratio around which this case changes bands

Op genOp(Case& c, int files, bool noise) {
  static const int observed[] = {LOAD, LOAD, LOAD, NORMALIZE, PAA, GROUP, GROUP, GROUP, SAVE, SAVE, SAVEGROUP, SAVEGROUP, LOADGROUP, MATCH, MATCH, MATCH, MATCH, RATIO, INFO, UNLOAD,
                                 SETLOAD, SETLOAD, SETGROUP, SETGROUP, SETSAVE, SETSAVE, SETMATCH, SETMATCH, SETLOADGROUP, SETPAA, SETNORMALIZE, SETCLEAR, DISTANCE, DISTANCE, BAND};
  static const int noisy[] = {LOAD, LOAD, LOAD, NORMALIZE, PAA, GROUP, GROUP, SAVE, SAVEGROUP, LOADGROUP, MATCH, MATCH, MATCH, MATCH, RATIO, RATIO, RATIO, INFO, UNLOAD, UNLOAD,
                              SETLOAD, SETGROUP, SETSAVE, SETMATCH, SETMATCH, SETPAA, SETNORMALIZE, SETCLEAR, OTHERSESSION, OTHERSESSION, OTHERSESSION, UNLOADALL, DISTANCE, BAND};
  Op o;
  o.kind = noise ? noisy[c.below(sizeof noisy / sizeof *noisy)] : observed[c.below(sizeof observed / sizeof *observed)];
  o.a = (int)c.below(16);
  o.b = (int)c.below(16);
  o.s = o.e = -1;
  o.file = 0;
  o.x = c.pick(std::vector<double>{0.3, 0, 1, 4});
  int kind = o.kind;
  if (kind == OTHERSESSION) { o.s = (int)c.below(10); kind = o.s; }
  if (kind == LOAD || kind == SETLOAD) { o.file = c.range(0, files - 1 + (c.chance(1, 8) ? 1 : 0)); o.a = c.chance(1, 5) ? c.range(1, 2) : 0; o.b = c.chance(1, 6) ? 1 : 0; }
  if (kind == PAA || kind == SETPAA) o.b = c.chance(1, 8) ? 0 : c.range(1, 3);
  if (kind == RATIO) o.x = c.flip() ? ratioGen(c) : gEdge + (c.range(0, 8) - 4) * 1e-3;
  if (kind == MATCH || kind == SETMATCH || kind == DISTANCE) {
    o.file = c.range(0, 2);
    if (kind == DISTANCE) o.a = c.range(0, 2);
    if (c.flip()) { int s = c.range(0, 3); if (o.kind != OTHERSESSION) o.s = s; o.e = s + c.range(2, 5); if (o.kind == OTHERSESSION) o.e = -1; }
  }
  if (kind == LOADGROUP || kind == SAVEGROUP || kind == SETLOADGROUP) o.file = c.range(0, 1);
  return o;
}

void run(Case& c) {
  std::vector<std::string> files;
  int nf = c.range(1, 3);
  Table last;
  for (int k = 0; k < nf; k++) {
    int rows = c.range(1, 4), len = c.range(2, 8);
    if (k && c.flip()) { rows = (int)last.size(); len = (int)last[0].size(); }
    last = table(c, rows, len, c.chance(1, 4) ? UNIFORM : DYADIC);
    std::string p = path(c, "d" + num(k));
    writeFile(p, tableText(last));
    files.push_back(p);
    DESC(c, "d" << k << ": " << h::show(last) << "\n");
  }
  writeFile(path(c, "bad"), "1 2 3\n4 x\n");
  files.push_back(path(c, "bad"));
  gEdge = (double)c.range(1, 3) / c.range(4, 8);
  double ratio = c.flip() ? ratioGen(c) : gEdge + (c.range(0, 8) - 4) * 1e-3;
  std::vector<Op> seq;
  std::vector<std::vector<Op>> noise;
  std::vector<std::vector<double>> echo; // other ratios under which a reading step was made just before
  int n = c.size(3, 24);
  bool setLoaded = false, setGrouped = false, grouped = false, saved = false;
  for (int k = 0; k <= n; k++) {
    std::vector<Op> v;
    int m = k == 0 ? c.size(0, 30) : c.chance(1, 3) ? c.range(1, 4) : 0;
    for (int j = 0; j < m; j++) v.push_back(genOp(c, nf, true));
    noise.push_back(v);
    if (k == n) break;
    std::vector<double> er;
    if (c.chance(1, 3)) for (int j = c.range(1, 2); j > 0; j--) er.push_back(c.flip() ? gEdge + (c.range(0, 8) - 4) * 1e-3 : ratioGen(c));
    echo.push_back(er);
    Op o = genOp(c, nf, false);
    if (k == 0) o.kind = LOAD;
    if (k == 1 && o.kind != SETLOAD) { o.kind = GROUP; }
    if (o.kind == LOAD && k == 0) { o.file = 0; o.a = o.b = 0; }
    // steps that could only be rejected mostly become the step they need
    if (c.chance(7, 8)) {
      if (o.kind >= SETGROUP && o.kind <= DISTANCE && o.kind < OTHERSESSION && !setLoaded) { o.kind = SETLOAD; o.file = c.range(0, nf - 1); o.a = o.b = 0; }
      if (o.kind == DISTANCE && !setLoaded) { o.kind = SETLOAD; o.file = c.range(0, nf - 1); o.a = o.b = 0; }
      if (o.kind == SETMATCH && !setGrouped) o.kind = SETGROUP;
      if (o.kind == LOADGROUP && !saved) { o.kind = SAVEGROUP; o.b = 2; }
      if (o.kind == MATCH && !grouped) o.kind = GROUP;
      if ((o.kind == SAVEGROUP || o.kind == LOADGROUP || o.kind == SETLOADGROUP) && c.chance(2, 3)) { o.file = 0; o.a = 0; if (o.kind == SAVEGROUP && c.flip()) o.b = 2; }
    }
    if (setGrouped && c.chance(1, 3)) { o.kind = c.chance(1, 3) ? DISTANCE : SETMATCH; o.file = c.range(0, 2); o.a = c.range(0, 2); o.s = o.e = -1; if (c.flip()) { o.s = c.range(0, 3); o.e = o.s + c.range(2, 5); } }
    if (grouped && c.chance(1, 6)) { o.kind = MATCH; o.a = c.range(0, 1); o.b = c.range(0, 1); o.file = c.range(0, 2); o.s = o.e = -1; if (c.flip()) { o.s = c.range(0, 3); o.e = o.s + c.range(2, 5); } }
    if (c.chance(1, 12)) { o.kind = BAND; o.a = c.range(0, 15); o.b = c.range(0, 15); }
    if (o.kind == SETLOAD) { setLoaded = true; setGrouped = false; }
    if (o.kind == SETCLEAR) setLoaded = setGrouped = false;
    if (o.kind == SETPAA || o.kind == SETNORMALIZE) setGrouped = false;
    if (o.kind == SETGROUP) setGrouped = true;
    if (o.kind == GROUP) grouped = true;
    if (o.kind == SAVEGROUP && (o.b & 3) == 2) saved = true;
    seq.push_back(o);
  }
  for (size_t k = 0; k < noise.size(); k++) {
    for (auto& o : noise[k]) DESC(c, "   disturbed by " << kindName_[o.kind] << (o.kind == OTHERSESSION ? std::string(" ") + kindName_[o.s % 10] : "") << " " << o.a << " " << o.b << " " << o.s << " " << o.e << " file " << o.file << " x " << o.x << "\n");
    if (k < seq.size()) for (double r : echo[k]) DESC(c, "   disturbed by the next step (if it only reads) under ratio " << r << "\n");
    if (k < seq.size()) { auto& o = seq[k]; DESC(c, kindName_[o.kind] << " " << o.a << " " << o.b << " " << o.s << " " << o.e << " file " << o.file << " x " << o.x << "\n"); }
  }
  static const long long jumps[] = {0, 4, 11, 100000, -30};
  long long jump = jumps[c.below(5)];
  if (jump) c.label("another clock");
  auto sequence = [&](bool disturbed) {
    pbt::clockStep = disturbed ? jump : 0;
    World w;
    w.files = files;
    w.dir = c.dir;
    for (int k = 0; k < 2; k++) unlink((c.dir + "/groups" + num(k)).c_str());
    unlink((c.dir + "/noise").c_str());
    double current = ratio;
    bool setUsed = false;
    std::string out;
    // a mark for every step, so that the two runs can be compared step by step
    for (size_t k = 0; k <= seq.size(); k++) {
      if (disturbed) for (auto& o : noise[k]) w.disturb(o, setUsed);
      if (k == seq.size()) break;
      int kind = seq[k].kind;
      if (disturbed && (kind == MATCH || kind == BAND || (setUsed && (kind == SETMATCH || kind == DISTANCE)))) for (double r : echo[k]) { w.api.setWarpingBandRatio(r); w.step(seq[k]); }
      w.api.setWarpingBandRatio(current);
      if (disturbed) scribble(20, (unsigned char)(0x5a + k));
      if (seq[k].kind == RATIO) current = seq[k].x;
      // until the sequence has loaded the set, what it holds is history
      if (seq[k].kind >= SETLOAD && seq[k].kind <= DISTANCE && seq[k].kind != OTHERSESSION && seq[k].kind != UNLOADALL && !setUsed) {
        if (seq[k].kind != SETLOAD) { out += "-\x01"; continue; }
        setUsed = true;
        // a failed load leaves an empty set behind or keeps the old one: not compared
        if (seq[k].file >= nf) { w.set.clearData(); }
      }
      out += w.step(seq[k]) + "\x01";
    }
    return out;
  };
  // S alone, in a fresh process
  std::string fresh, why;
  if (!inChild([&]() -> std::string { mallopt(M_PERTURB, 0x11); return sequence(false); }, fresh, why)) fail("in a fresh process: " + why);
  // after the history, in this one
  mallopt(M_PERTURB, 0xa7);
  std::string after = sequence(true);
  mallopt(M_PERTURB, 0);
  if (fresh != after) {
    size_t p = 0, q = 0;
    for (size_t k = 0; k < seq.size(); k++) {
      size_t pe = fresh.find('\x01', p), qe = after.find('\x01', q);
      std::string a = fresh.substr(p, pe - p), b = after.substr(q, qe - q);
      CHECK(a == b, "step " << k + 1 << " (" << kindName_[seq[k].kind] << ") gives\n" << b.substr(0, 1500) << "\n-- in a fresh process it gives\n" << a.substr(0, 1500));
      p = pe + 1;
      q = qe + 1;
    }
    fail("results differ");
  }
  int noises = 0, results = 0;
  for (auto& v : noise) noises += (int)v.size();
  size_t p = 0;
  for (auto& o : seq) {
    size_t e = fresh.find('\x01', p);
    std::string r = fresh.substr(p, e - p);
    if (r.find("rejected") == std::string::npos && r != "-") { results++; c.label(kindName_[o.kind]); }
    p = e + 1;
  }
  if (noises >= 3 && results >= 4) c.nontrivial();
}

} // namespace C26
PBT_PROPERTY("C26", 1, C26::run, nullptr, "A case is a sequence of 3 to 24 session and set operations whose every result (descriptions, counts, extremes, saved files, matches, distances, rejections) is recorded, run alone in a fresh process and run again after and between 0 to 100 other operations (other datasets, the same ids and set before, another session, other band ratios, failing ones, reads of the same datasets, also the very next step under another band ratio), with differently filled heap and stack and a clock that jumps. Results must be identical to the last bit. Non-trivial: at least three disturbing operations and four accepted steps.")
