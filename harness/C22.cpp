// Memory and descriptors over repeated cycles of session operations.
#define PBT_EMBED
#include "C20.cpp"
#undef PBT_EMBED
#include "pbt_main.hpp"
#include "lib/trillionDTW.h"
#undef min
#undef max
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <dirent.h>

namespace C22 {
using namespace h;

struct Op { int kind, a, b, d, e; double x; int file; };
enum { LOAD, UNLOAD, UNLOADALL, NORMALIZE, PAA, GROUP, SAVE, SAVEGROUP, LOADGROUP, MATCH, INFO, LIST, NOPS };
const char* opName[] = {"load", "unload", "unload all", "normalize", "paa", "group", "save", "save groups", "load groups", "match", "info", "list"};

size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
int descriptors() {
  int n = 0;
  for (int f = 0; f < 256; f++) if (fcntl(f, F_GETFD) != -1) n++;
  return n;
}

struct Script {
  std::vector<Op> ops;
  std::vector<std::string> files;    // data files, then unusable ones
  std::vector<std::string> gfiles;   // group files, good and bad
  std::string out, gout;
  int done = 0, failed = 0;

  // One pass; ids of live datasets are kept in a fixed array so that nothing of the harness stays allocated.
  void pass(onex::OnexAPI& api, int* live, int& n) {
    for (auto& o : ops) {
      auto id = [&](int k) { return n == 0 || k >= 14 ? (k % 2 ? 1000 + k : -k) : live[k % n]; };
      try {
        switch (o.kind) {
          case LOAD: if (n < 6) { int v = api.loadDataset(files[o.file], o.a, o.b, " ").id; live[n++] = v; } break;
          case UNLOAD: { int v = id(o.a); api.unloadDataset(v); for (int k = 0; k < n; k++) if (live[k] == v) { live[k] = live[--n]; break; } break; }
          case UNLOADALL: api.unloadAllDataset(); n = 0; break;
          case NORMALIZE: api.normalizeDataset(id(o.a)); break;
          case PAA: api.PAA(id(o.a), o.b); break;
          case GROUP: api.groupDataset(id(o.a), (data_t)o.x); break;
          case SAVE: api.saveDataset(id(o.a), o.d ? out : "/no/such/place", ' '); break;
          case SAVEGROUP: api.saveGroup(id(o.a), o.d ? gout : "/no/such/place", o.b & 1); break;
          case LOADGROUP: api.loadGroup(id(o.a), o.file < (int)gfiles.size() ? gfiles[o.file] : gout); break;
          case MATCH: { auto r = api.getBestMatch(id(o.a), id(o.b), o.file, o.d, o.e); volatile data_t v = r.data.getLength() > 0 ? r.data[0] : 0; (void)v; break; }
          case INFO: api.getDatasetInfo(id(o.a)); break;
          case LIST: api.getAllDatasetInfo(); api.getDatasetCount(); break;
        }
        done++;
      } catch (OnexException&) { failed++; }
    }
  }
};

void run(Case& c) {
  Script s;
  int files = c.range(1, 3);
  Table last;
  for (int k = 0; k < files; k++) {
    int rows = c.range(1, 4), len = c.range(1, 8);
    if (k && c.flip()) { rows = (int)last.size(); len = (int)last[0].size(); }
    last = table(c, rows, len, DYADIC);
    std::string p = path(c, "d" + num(k));
    writeFile(p, tableText(last));
    s.files.push_back(p);
    DESC(c, "d" << k << ": " << show(last) << "\n");
    if (len > 1) {
      // groups of it, complete and cut off
      onex::OnexAPI a;
      int id = a.loadDataset(p, 0, 0, " ").id;
      a.groupDataset(id, (data_t)0.5);
      std::string g = path(c, "g" + num(k)), text;
      a.saveGroup(id, g, false);
      readFile(g, text);
      s.gfiles.push_back(g);
      std::string cut = path(c, "c" + num(k));
      size_t n = c.below(text.size());
      std::string t = text.substr(0, n);
      if (c.chance(1, 3)) { t = text; size_t q = c.below(t.size()); t[q] = "9x -"[c.below(4)]; } // damaged instead of cut
      writeFile(cut, t);
      s.gfiles.push_back(cut);
    }
  }
  static const char* bad[] = {"1 2 3\n4 5\n", "", "1 x\n", "\n\n"};
  for (int k = 0; k < 4; k++) { std::string p = path(c, "bad" + num(k)); writeFile(p, bad[k]); s.files.push_back(p); }
  s.files.push_back(path(c, "missing"));
  s.out = path(c, "out");
  s.gout = path(c, "gout");
  int n = c.size(3, 40);
  for (int k = 0; k < n; k++) {
    Op o;
    static const int weight[] = {LOAD, LOAD, LOAD, LOAD, UNLOAD, UNLOAD, UNLOADALL, NORMALIZE, PAA, GROUP, GROUP, GROUP, SAVE, SAVEGROUP, LOADGROUP, LOADGROUP, MATCH, MATCH, MATCH, INFO, LIST};
    o.kind = k == 0 ? (int)LOAD : weight[c.below(sizeof weight / sizeof *weight)];
    o.a = (int)c.below(16);
    o.b = (int)c.below(16);
    o.d = c.chance(1, 8) ? 0 : 1;
    o.e = 0;
    o.x = c.pick(std::vector<double>{0.3, 0, 1, 4, -1});
    o.file = 0;
    if (o.kind == LOAD) { o.file = c.chance(1, 5) ? c.range(files, files + 4) : c.range(0, files - 1); o.a = c.chance(1, 5) ? c.range(1, 2) : 0; o.b = c.chance(1, 5) ? c.range(-1, 3) : 0; }
    if (o.kind == PAA) o.b = c.chance(1, 8) ? 0 : c.range(1, 3);
    if (o.kind == LOADGROUP) o.file = c.range(0, (int)s.gfiles.size());
    if (o.kind == MATCH) {
      o.file = c.range(0, 3);
      o.d = -1; o.e = -1;
      if (c.flip()) { o.d = c.range(0, 3); o.e = o.d + c.range(0, 4); }
    }
    DESC(c, opName[o.kind] << " " << o.a << " " << o.b << " " << o.d << " " << o.e << " x " << o.x << " file " << o.file << "\n");
    s.ops.push_back(o);
  }
  bool sessions = c.chance(1, 3);     // a session per cycle, destroyed with everything in it
  int cycles = c.chance(1, 5) ? 64 : 8;
  DESC(c, (sessions ? "a session per cycle" : "one session") << ", " << cycles << " cycles\n");
  int live[8], nlive = 0;
  std::vector<size_t> bytes(cycles);
  std::vector<int> fds(cycles);
  {
    std::unique_ptr<onex::OnexAPI> one(sessions ? nullptr : new onex::OnexAPI());
    for (int k = 0; k < cycles; k++) {
      nlive = 0;
      if (sessions) {
        onex::OnexAPI api;
        s.pass(api, live, nlive);
      } else {
        s.pass(*one, live, nlive);
        for (int j = 0; j < nlive; j++) one->unloadDataset(live[j]);
        CHECK(one->getDatasetCount() == 0, "datasets are left");
      }
      bytes[k] = heap();
      fds[k] = descriptors();
    }
  }
  const int warm = 3;
  for (int k = warm + 1; k < cycles; k++) {
    CHECK(fds[k] <= fds[warm], fds[k] - fds[warm] << " descriptors more are open after cycle " << k + 1 << " than after cycle " << warm + 1);
    CHECK(bytes[k] <= bytes[warm], bytes[k] - bytes[warm] << " bytes more are in use after cycle " << k + 1 << " than after cycle " << warm + 1);
  }
  c.label(sessions ? "session per cycle" : "one session");
  if (s.failed) c.label("with failing operations");
  std::set<int> kinds;
  for (auto& o : s.ops) kinds.insert(o.kind);
  for (int k : kinds) c.label(opName[k]);
  if (kinds.size() >= 4 && s.done > s.failed && kinds.count(GROUP)) c.nontrivial();
}

// The same below the session: one set that is reloaded, grouped with either distance and cleared,
// and sequences that are copied, assigned and changed.
void runSets(Case& c) {
  int rows = c.range(1, 4), len = c.range(2, 8);
  Table t = table(c, rows, len, DYADIC);
  std::string p = path(c, "d"), g = path(c, "g");
  writeFile(p, tableText(t));
  writeFile(path(c, "bad"), "1 2\n3\n");
  DESC(c, "set of " << show(t) << "\n");
  struct Step { int kind, a, b; double x; };
  std::vector<Step> st;
  int n = c.size(3, 24);
  for (int k = 0; k < n; k++) {
    st.push_back({k == 0 ? 0 : (int)c.below(12), (int)c.below(8), (int)c.below(8), c.pick(std::vector<double>{0.3, 0, 1, 4, -1})});
    DESC(c, "step " << st.back().kind << " " << st.back().a << " " << st.back().b << " " << st.back().x << "\n");
  }
  const int cycles = c.chance(1, 5) ? 64 : 8, warm = 3;
  std::vector<size_t> bytes(cycles);
  std::vector<int> fds(cycles);
  bool keep = c.flip();
  std::unique_ptr<onex::GroupableTimeSeriesSet> one(keep ? new onex::GroupableTimeSeriesSet() : nullptr);
  int ok = 0;
  std::string bad = path(c, "bad");
  for (int k = 0; k < cycles; k++) {
    {
      std::unique_ptr<onex::GroupableTimeSeriesSet> own(keep ? nullptr : new onex::GroupableTimeSeriesSet());
      onex::GroupableTimeSeriesSet& s = keep ? *one : *own;
      for (auto& x : st) {
        try {
          switch (x.kind) {
            case 0: s.loadData(p, 0, 0, " "); break;
            case 1: s.loadData(x.a & 1 ? bad : p, 0, x.b > 6 ? 100 : 0, " "); break;
            case 2: s.groupAllLengths(x.a & 1 ? "euclidean_dtw" : x.a == 6 ? "none" : "euclidean", (data_t)x.x); break;
            case 3: s.groupAllLengths(x.a & 1 ? "euclidean" : "euclidean_dtw", (data_t)x.x); break;
            case 4: s.normalize(); break;
            case 5: s.PAA(x.a % 4); break;
            case 6: s.clearData(); break;
            case 7: s.saveGroups(g, x.a & 1); break;
            case 8: s.loadGroups(x.a & 1 ? g : p); break;
            case 9: case 10: { TimeSeries q = s.getTimeSeries(x.a % 4); s.getBestMatch(q); break; }
            default: {
              TimeSeries q = s.getTimeSeries(x.a % 4);
              TimeSeries own2(q.getLength());
              for (int j = 0; j < q.getLength(); j++) own2[j] = q[j];
              TimeSeries copy(own2), third = q;
              copy = own2;
              third = copy;
              copy = q;
              own2 += q;
              own2.getKeoghLower(1);
              own2.getKeoghUpper(x.a % q.getLength());
              third.getKeoghLower(0);
              if (x.b & 1) own2 = third;
              TimeSeries moved(std::move(own2));
              third = std::move(copy);
              onex::cascadeDistance(moved, q, INF);
            }
          }
          ok++;
        } catch (OnexException&) {}
      }
      s.clearData();
    }
    bytes[k] = heap();
    fds[k] = descriptors();
  }
  for (int k = warm + 1; k < cycles; k++) {
    CHECK(fds[k] <= fds[warm], fds[k] - fds[warm] << " descriptors more are open after cycle " << k + 1 << " than after cycle " << warm + 1 << " (one set)");
    CHECK(bytes[k] <= bytes[warm], bytes[k] - bytes[warm] << " bytes more are in use after cycle " << k + 1 << " than after cycle " << warm + 1 << " (one set)");
  }
  c.label("sets and sequences");
  if (ok > (int)st.size()) c.nontrivial();
}

// Repeated searches of a data file.
void runSearch(Case& c) {
  int m = c.range(6, 12), n = c.range(m, 60), r = (int)c.below(m);
  Row q = row(c, m, DYADIC), t = row(c, n, DYADIC);
  q[0] = q[1] + 1;
  DESC(c, "search of " << show(t) << " for " << show(q) << " with band " << r << "\n");
  auto text = [](const Row& x) { std::string s; for (auto v : x) s += num(v) + "\n"; return s; };
  std::string dp = path(c, "data"), qp = path(c, "query"), out = path(c, "out");
  writeFile(dp, text(t));
  writeFile(qp, text(q));
  const int cycles = 7, warm = 3;
  size_t bytes[cycles];
  int fds[cycles];
  fflush(stdout);
  std::cout.flush();
  int keep = dup(1), fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(fd, 1);
  close(fd);
  for (int k = 0; k < cycles; k++) {
    calculate(dp.c_str(), qp.c_str(), m, r);
    bytes[k] = heap();
    fds[k] = descriptors();
  }
  std::cout.flush();
  fflush(stdout);
  dup2(keep, 1);
  close(keep);
  for (int k = warm + 1; k < cycles; k++) {
    CHECK(fds[k] <= fds[warm], fds[k] - fds[warm] << " descriptors more are open after search " << k + 1 << " than after search " << warm + 1);
    CHECK(bytes[k] <= bytes[warm], bytes[k] - bytes[warm] << " bytes more are in use after search " << k + 1 << " than after search " << warm + 1);
  }
  c.label("repeated search");
  c.nontrivial();
}

// The program, with its cycle of lines repeated.
void runProgram(Case& c) {
  std::string A = path(c, "A"), B = path(c, "B");
  C20::cleanDir(A);
  C20::cleanDir(B);
  int files = c.range(1, 3);
  for (int k = 0; k < files; k++) {
    std::string text = tableText(table(c, c.range(1, 3), c.range(1, 7), DYADIC));
    if (c.chance(1, 12)) text += "bad line\n";
    DESC(c, "d" << k << ": " << text);
    writeFile(A + "/d" + num(k), text);
    writeFile(B + "/d" + num(k), text);
  }
  if (chdir(A.c_str())) abort();
  std::vector<std::string> ls;
  std::set<int> kinds;
  bool failed = false;
  {
    onex::OnexAPI api;
    bool timer = true;
    int n = c.size(2, 25);
    for (int k = 0; k < n; k++) {
      std::string l = k == 0 ? "load d0" : C20::genLine(c, files, api);
      C20::Expect e = C20::model(api, timer, l);
      if (e.kind == C20::Expect::QUIT) continue;
      kinds.insert(e.kind);
      failed |= e.kind == C20::Expect::ERROR;
      ls.push_back(l);
      if (c.chance(1, 20)) { ls.push_back("\x04x"); ls.push_back("n"); c.label("Ctrl-D answered with no"); }
    }
    int last = -1;
    for (auto& i : api.getAllDatasetInfo()) last = std::max(last, i.id);
    for (int k = 0; k <= last + 3; k++) ls.push_back("unload " + num(k));
  }
  if (chdir(c.dir.c_str())) abort();
  const int cycles = c.chance(1, 10) ? 100 : 12;
  std::string cycle, text;
  for (auto& l : ls) { DESC(c, (l[0] == 4 ? "^D" + l.substr(1) : l) << "\n"); cycle += l + "\n"; }
  DESC(c, "repeated " << cycles << " times\n");
  for (int k = 0; k < cycles; k++) text += cycle;
  text += "quit\n";
  std::string in = path(c, "session.txt"), out = path(c, "session.out"), err = path(c, "session.err"), meter = path(c, "meter");
  writeFile(in, text);
  unlink(meter.c_str());
  setenv("METER", meter.c_str(), 1);
  int st = C20::runProgram(B, in, out, err);
  std::string m, e2;
  readFile(meter, m);
  readFile(err, e2);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ends with wait status " << st << "\n" << e2.substr(0, 2000));
  std::vector<std::pair<uint64_t, uint64_t>> v(m.size() / 16);
  if (!v.empty()) memcpy((void*)v.data(), m.data(), v.size() * 16);
  // one reading before each line: as many per cycle; the one after the last cycle is before "quit"
  size_t per = 0;
  for (auto& l : ls) per += l[0] == 4 ? 2 : 1; // "^Dx" is two reads
  CHECK(v.size() == per * cycles + 1, "the program reads " << v.size() << " lines instead of " << per * cycles + 1);
  bool grows = true, opens = true;
  for (int k = cycles - 5; k < cycles; k++) { grows &= v[per * (k + 1)].first > v[per * k].first; opens &= v[per * (k + 1)].second > v[per * k].second; }
  CHECK(!grows, "the program uses " << v[per * cycles].first - v[per * (cycles - 5)].first << " bytes more after each five cycles");
  CHECK(!opens, "the program has " << v[per * cycles].second - v[per * (cycles - 5)].second << " descriptors more open after each five cycles");
  CHECK(v[per * cycles].second <= v[per * 3].second, "descriptors stay open");
  c.label("the program");
  if (failed && kinds.size() >= 4) c.nontrivial();
}

void both(Case& c) {
  if (c.chance(1, 12)) { runProgram(c); return; }
  if (c.chance(1, 40)) { runSearch(c); return; }
   if (c.chance(1, 4)) runSets(c); else run(c); }

} // namespace C22
pbt::Property pbt::theProperty = {"C22",
  "A case is a cycle of 3 to 40 session operations (loads of good and unusable files, transformations, grouping, saves, loads of good and damaged group files, matches, unloads; ids of live and missing datasets), repeated 8 or 64 times in one session that unloads at the end of each cycle or in a session per cycle that is destroyed; or such a cycle on a time-series set and sequences, a repeated search of a data file, or a cycle of command lines (12 or 100 times) given to the program, linked with a readline that reports memory and descriptors. Bytes allocated and descriptors open after each later cycle are compared with those after the fourth. Non-trivial: at least four kinds of operations including grouping.",
  20, C22::both, nullptr};
