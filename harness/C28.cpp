// Memory runs out in the middle of an operation.
#include "matchgen.hpp"
#include "pbt_main.hpp"
#include <malloc.h>
#include <new>
#include <unordered_map>
namespace onex { TimeSeries tsPAA(const TimeSeries& source, int n); }

// ------------------------------------------------------------------ allocations that can fail

// operator new and, by the linker's --wrap, malloc
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}

namespace mem {

template <class T> struct Plain { // not through operator new
  typedef T value_type;
  Plain() {}
  template <class U> Plain(const Plain<U>&) {}
  T* allocate(size_t n) { return (T*)__real_malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { __real_free(p); }
  template <class U> bool operator==(const Plain<U>&) const { return true; }
  template <class U> bool operator!=(const Plain<U>&) const { return false; }
};
typedef std::unordered_map<void*, size_t, std::hash<void*>, std::equal_to<void*>, Plain<std::pair<void* const, size_t>>> Owned;

bool inside = false;    // in an operation
long seen = 0;          // its allocations of at least [least] bytes
long failAt = 0;        // which of them fails; 0: none
bool failRest = false;  // and all later ones
size_t least = 0;
bool fired = false;
size_t held = 0;        // bytes allocated in operations and not freed
Owned& owned() { static Owned* o = new (__real_malloc(sizeof(Owned))) Owned; return *o; }

void* get(size_t n, size_t align, bool& no) {
  no = false;
  if (inside && n >= least) {
    seen++;
    if (failAt && (seen == failAt || (failRest && seen > failAt))) { fired = true; no = true; return nullptr; }
  }
  void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
  if (!p) { no = true; return nullptr; }
  if (inside) { owned()[p] = n; held += n; }
  return p;
}
void put(void* p) {
  if (!p) return;
  if (held || inside) {
    auto it = owned().find(p);
    if (it != owned().end()) { held -= it->second; owned().erase(it); }
  }
  __real_free(p);
}
void forget() { owned().clear(); held = 0; }

struct Op { // while one exists, the code of an operation runs
  Op() { seen = 0; fired = false; inside = true; }
  ~Op() { inside = false; }
};

} // namespace mem

extern "C" {
void* __wrap_malloc(size_t n) { bool no; return mem::get(n, 0, no); }
void* __wrap_calloc(size_t n, size_t m) {
  if (!mem::inside) return __real_calloc(n, m);
  bool no;
  void* p = mem::get(n * m, 0, no);
  if (p) memset(p, 0, n * m);
  return p;
}
void* __wrap_realloc(void* old, size_t n) {
  if (!mem::inside) return __real_realloc(old, n);
  bool no;
  void* p = mem::get(n, 0, no);
  if (p && old) { memcpy(p, old, std::min(n, malloc_usable_size(old))); mem::put(old); }
  return p;
}
void __wrap_free(void* p) { mem::put(p); }
}

void* operator new(size_t n) { bool no; void* p = mem::get(n, 0, no); if (no) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { bool no; void* p = mem::get(n, 0, no); if (no) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { bool no; return mem::get(n, 0, no); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { bool no; return mem::get(n, 0, no); }
void* operator new(size_t n, std::align_val_t a) { bool no; void* p = mem::get(n, (size_t)a, no); if (no) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { bool no; void* p = mem::get(n, (size_t)a, no); if (no) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, size_t) noexcept { mem::put(p); }
void operator delete[](void* p, size_t) noexcept { mem::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { mem::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mem::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mem::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mem::put(p); }

namespace C28 {
using namespace h;

const size_t TOLERATED = 1024; // bytes a whole case may keep; what is lost by every failure comes to more
const int REPEATS = 40;

// Runs one operation; its result as text, or "!" for an error.
template <class F, class G> std::string perform(F op, G text, bool& threw) {
  threw = false;
  try {
    mem::inside = false;
    auto r = [&] { mem::Op o; return op(); }();
    return text(r);
  } catch (std::exception& e) {
    mem::inside = false;
    threw = true;
    return "!";
  }
}

// One subject under test and its twin, to which nothing ever happens.
// A subject has: apply(op, threw) -> result, snap(ungrouped id) -> everything observable
struct Step { int kind, a, b, d; double x; int file; };

std::string matchText(const onex::candidate_time_series_t& m) {
  std::string s = showMatch(m);
  for (int i = 0; i < m.data.getLength(); i++) s += " " + num(m.data[i]);
  return s;
}
std::string fileText(const std::string& p) { std::string s; readFile(p, s); return s; }

enum { LOAD, UNLOAD, NORMALIZE, PAA, GROUP, SAVE, SAVEGROUP, LOADGROUP, MATCH, INFO, LIST, NOPS };
const char* opName[] = {"load", "unload", "normalize", "paa", "group", "save", "save groups", "load groups", "match", "info", "list"};

struct Files {
  std::vector<std::string> data, groups;
  std::string out, peek;
};

struct Session {
  static constexpr bool canBeEmptied = false;
  onex::OnexAPI api;
  const Files& f;
  Session(const Files& f) : f(f) {}
  std::string apply(const Step& o, bool& threw) {
    auto none = [](int) { return std::string("ok"); };
    auto dsinfo = [](const onex::dataset_info_t& i) { return info(i); };
    switch (o.kind) {
      case LOAD: return perform([&] { return api.loadDataset(f.data[o.file], o.b, 0, " "); }, dsinfo, threw);
      case UNLOAD: return perform([&] { api.unloadDataset(o.a); return 0; }, none, threw);
      case NORMALIZE: return perform([&] { return api.normalizeDataset(o.a); }, [](const std::pair<data_t, data_t>& p) { return num(p.first) + " " + num(p.second); }, threw);
      case PAA: return perform([&] { return api.PAA(o.a, o.b); }, dsinfo, threw);
      case GROUP: return perform([&] { return api.groupDataset(o.a, (data_t)o.x); }, [](int n) { return num(n); }, threw);
      case SAVE: unlink(f.out.c_str()); return perform([&] { api.saveDataset(o.a, f.out, ','); return 0; }, [&](int) { return fileText(f.out); }, threw);
      case SAVEGROUP: unlink(f.out.c_str()); return perform([&] { api.saveGroup(o.a, f.out, o.b & 1); return 0; }, [&](int) { return fileText(f.out); }, threw);
      case LOADGROUP: return perform([&] { return api.loadGroup(o.a, f.groups[o.file]); }, [](int n) { return num(n); }, threw);
      case MATCH: return perform([&] { return api.getBestMatch(o.a, o.b, o.d & 15, o.d >> 4 & 15, o.d >> 8); }, matchText, threw);
      case INFO: return perform([&] { return api.getDatasetInfo(o.a); }, dsinfo, threw);
      default: return perform([&] { return api.getAllDatasetInfo(); }, [&](const std::vector<onex::dataset_info_t>& v) { std::string s; for (auto& i : v) s += info(i); return s; }, threw);
    }
  }
  std::string snap(int ungrouped = -1) {
    std::string s = "#" + num(api.getDatasetCount()) + "\n";
    for (auto i : api.getAllDatasetInfo()) {
      bool g = i.isGrouped;
      if (i.id == ungrouped) i.isGrouped = false;
      s += info(i) + "\n";
      api.saveDataset(i.id, f.peek, ' ');
      s += fileText(f.peek);
      if (g && i.id != ungrouped) { api.saveGroup(i.id, f.peek, false); s += fileText(f.peek); }
    }
    return s;
  }
};

struct Set {
  static constexpr bool canBeEmptied = true;
  onex::GroupableTimeSeriesSet s;
  const Files& f;
  const Row& query;
  Set(const Files& f, const Row& q) : f(f), query(q) {}
  std::string apply(const Step& o, bool& threw) {
    auto none = [](int) { return std::string("ok"); };
    switch (o.kind) {
      case LOAD: return perform([&] { s.loadData(f.data[o.file], o.b, 0, " "); return 0; }, none, threw);
      case NORMALIZE: return perform([&] { return s.normalize(); }, [](const std::pair<data_t, data_t>& p) { return num(p.first) + " " + num(p.second); }, threw);
      case PAA: return perform([&] { s.PAA(o.b); return 0; }, none, threw);
      case GROUP: return perform([&] { return s.groupAllLengths(o.a ? "euclidean_dtw" : "euclidean", (data_t)o.x); }, [](int n) { return num(n); }, threw);
      case SAVE: unlink(f.out.c_str()); return perform([&] { s.saveData(f.out, ','); return 0; }, [&](int) { return fileText(f.out); }, threw);
      case SAVEGROUP: unlink(f.out.c_str()); return perform([&] { s.saveGroups(f.out, o.b & 1); return 0; }, [&](int) { return fileText(f.out); }, threw);
      case LOADGROUP: return perform([&] { return s.loadGroups(f.groups[o.file]); }, [](int n) { return num(n); }, threw);
      case MATCH: { TimeSeries q = makeTS(query); return perform([&] { return s.getBestMatch(q); }, matchText, threw); }
      case INFO: { TimeSeries q = makeTS(query); return perform([&] { return s.distanceBetween(0, 0, std::min((int)query.size(), s.getItemLength()), q, o.a ? "euclidean_dtw" : "euclidean"); }, [](data_t d) { return num(d); }, threw); }
      default: s.clearData(); threw = false; return "ok";
    }
  }
  static std::string show(bool loaded, int n, int l, bool g, bool norm) { return num(n) + "x" + num(l) + (loaded ? "" : " empty") + (g ? " G" : "") + (norm ? " N" : "") + "\n"; }
  static std::string emptied() { return show(false, 0, 0, false, false); }
  std::string snap(int ungrouped = -1) {
    bool g = s.isGrouped() && ungrouped < 0;
    std::string r = show(s.isLoaded(), s.getItemCount(), s.getItemLength(), g, s.isNormalized());
    if (s.isLoaded()) r += s.getFilePath() + "\n" + h::show(values(s)) + "\n";
    if (g) { s.saveGroups(f.peek, false); r += fileText(f.peek); }
    return r;
  }
};

// How memory runs out
void shortage(Case& c, long n, size_t biggest) {
  mem::least = 0;
  mem::failRest = c.flip();
  if (n > 0 && c.chance(1, 5)) { // only for larger pieces
    mem::least = 1 + c.below(biggest + 1);
    mem::failAt = 1 + (long)c.below(std::min<long>(n, 8));
  } else mem::failAt = 1 + (long)c.below(n < 1 ? 1 : n);
}
void plenty() { mem::failAt = 0; mem::least = 0; mem::failRest = false; }

std::string opText(const Step& o) {
  std::string s = opName[o.kind];
  if (o.kind == LOAD) return s + " file " + num(o.file) + " rows " + num(o.b);
  s += " " + num(o.a);
  if (o.kind == PAA) s += " by " + num(o.b);
  if (o.kind == GROUP) s += " threshold " + num(o.x);
  if (o.kind == LOADGROUP) s += " file " + num(o.file);
  if (o.kind == MATCH) s += " query " + num(o.b) + " " + num(o.d & 15) + " [" + num(o.d >> 4 & 15) + ", " + num(o.d >> 8) + "]";
  return s;
}

template <class Subject> void history(Case& c, Subject& a, Subject& twin, std::function<Step()> gen, int steps) {
  bool t1, t2;
  int hit = 0;
  for (int k = 0; k < steps; k++) {
    Step o = gen();
    int attempts = c.chance(1, 2) ? c.size(1, c.chance(1, 10) ? 60 : 6) : 0;
    DESC(c, opText(o));
    if (!attempts) {
      std::string ra = a.apply(o, t1), rb = twin.apply(o, t2);
      DESC(c, " -> " << rb.substr(0, 80) << "\n");
      CHECK(ra == rb, opText(o) << " answers " << ra << " after memory had run out before, and " << rb << " otherwise");
      continue;
    }
    bool mutates = o.kind == NORMALIZE || o.kind == PAA || o.kind == GROUP || o.kind == LOAD;
    std::string before = twin.snap(), ungrouped = mutates ? twin.snap(o.a) : before;
    std::string expect = twin.apply(o, t2);
    long n = mem::seen;
    std::string after = twin.snap();
    DESC(c, " -> " << expect.substr(0, 80) << ", " << n << " allocations; failing:");
    bool done = false;
    bool degraded = false;
    for (int i = 0; i < attempts && !done; i++) {
      shortage(c, n + 1, 4000);
      long at = mem::failAt; size_t least = mem::least; bool rest = mem::failRest;
      std::string how = opText(o) + " with allocation " + num(at) + (mem::failRest ? " and later ones" : "") + (least ? " of at least " + num(least) + " bytes" : "") + " failing";
      DESC(c, " " << at << (mem::failRest ? "+" : "") << (least ? ">=" + num(least) : std::string()));
      std::string r = a.apply(o, t1);
      bool fired = mem::fired;
      plenty();
      std::string s = a.snap();
      if (!fired || !t1) {
        bool written = !c.thorough && fired && (o.kind == SAVE || o.kind == SAVEGROUP); // see DESIGN.md
        CHECK(r == expect || (written && !t2), how << " answers " << r << " instead of " << expect);
        CHECK(s == after, how << " ends normally in the state " << s << " instead of " << after);
        done = true;
      } else {
        hit++;
        c.label(std::string("failed: ") + opName[o.kind]);
        CHECK(s == before || s == after || (mutates && s == ungrouped) || (Subject::canBeEmptied && o.kind == LOAD && s == Set::emptied()),
              how << " fails and leaves the state " << s << " instead of " << before);
        degraded |= s != before;
        if (s == after && after != before) { done = true; c.label("full effect"); }
        else if (s != before) c.label("groups or data dropped");
        else if (c.thorough && c.chance(1, 6)) { // what is lost by one failure adds up
          DESC(c, " (many times)");
          c.label("one failure repeated");
          for (int j = 0; j < REPEATS && t1; j++) { mem::failAt = at; mem::least = least; mem::failRest = rest; a.apply(o, t1); plenty(); }
          CHECK(t1 || a.snap() == after, how << " ends normally in the state " << a.snap() << " instead of " << after);
          s = a.snap();
          CHECK(s == before || s == after || (mutates && s == ungrouped), how << " repeatedly leaves the state " << s << " instead of " << before);
          if (!t1 || (s == after && after != before)) done = true;
        }
      }
    }
    DESC(c, "\n");
    if (!done) {
      std::string r = a.apply(o, t1);
      CHECK(r == expect, opText(o) << " after failing for lack of memory answers " << r << " instead of " << expect);
      if (t2 && degraded) break; // the twin still holds what the other lost
      std::string s = a.snap();
      CHECK(s == after, opText(o) << " after failing for lack of memory ends in the state " << s << " instead of " << after);
    }
  }
  c.nontrivial(hit > 0);
}

void objects(Case& c) {
  double ratio = ratioGen(c);
  onex::setWarpingBandRatio(ratio);
  int kind = (int)c.below(NKINDS), la = c.size(1, 40), lb = c.chance(1, 3) ? c.size(1, 40) : la;
  Row ra = row(c, la, kind), rb = row(c, lb, kind);
  DESC(c, "ratio " << num(ratio) << "\na: " << show(ra) << "\nb: " << show(rb) << "\n");
  auto text = [](const TimeSeries& t) { std::string s; for (int i = 0; i < t.getLength(); i++) s += num(t[i]) + " "; return s; };
  auto envelope = [](const TimeSeries& t, int band) { std::string s; const data_t* l = t.getKeoghLower(band); for (int i = 0; i < t.getLength(); i++) s += num(l[i]) + " "; const data_t* u = t.getKeoghUpper(band); for (int i = 0; i < t.getLength(); i++) s += num(u[i]) + " "; return s; };
  Row va = ra, vb = rb; // what views look at
  int hit = 0;
  {
    bool viewA = c.flip(), viewB = c.flip();
    auto mk = [](Row& r, bool view) { return view ? TimeSeries(r.data(), 7, 0, (int)r.size()) : makeTS(r); };
    TimeSeries a = mk(va, viewA), b = mk(vb, viewB);
    if (c.flip()) a.getKeoghLower(c.range(0, 5));
    if (c.flip()) b.getKeoghUpper(c.range(0, 5));
    int steps = c.range(1, 5);
    for (int k = 0; k < steps; k++) {
      int op = (int)c.below(10), band = c.range(0, 6), n = c.range(1, 5);
      data_t bound = c.flip() ? std::numeric_limits<data_t>::infinity() : (data_t)c.unit();
      static const char* names[] = {"copy", "assign", "warped distance", "lower envelope", "upper envelope", "lower bound", "cascade distance", "PAA", "pairwise distance", "vector of copies"};
      // the result on given sequences, as text
      auto run = [&](TimeSeries& x, TimeSeries& y, bool& threw) -> std::string {
        auto d = [](data_t v) { return num(v); };
        switch (op) {
          case 0: return perform([&] { return TimeSeries(x); }, text, threw);
          case 1: return perform([&] { x = y; return 0; }, [&](int) { return text(x); }, threw);
          case 2: return perform([&] { return onex::warpedDistance(x, y, bound); }, d, threw);
          case 3: return perform([&] { return x.getKeoghLower(band); }, [&](const data_t*) { return envelope(x, band); }, threw);
          case 4: return perform([&] { return x.getKeoghUpper(band); }, [&](const data_t*) { return envelope(x, band); }, threw);
          case 5: return perform([&] { return onex::crossKeoghLowerBound(x, y, bound); }, d, threw);
          case 6: return perform([&] { return onex::cascadeDistance(x, y, bound); }, d, threw);
          case 7: return perform([&] { return onex::tsPAA(x, n); }, text, threw);
          case 8: return perform([&] { return onex::pairwiseDistance(x, y, bound); }, d, threw);
          default: return perform([&] { std::vector<TimeSeries> v; for (int i = 0; i < n; i++) v.push_back(i & 1 ? y : x); return v; },
                                  [&](const std::vector<TimeSeries>& v) { std::string r; for (auto& t : v) r += text(t) + "/ "; return r; }, threw);
        }
      };
      TimeSeries x = a, y = b; // the twins
      std::string beforeA = text(a), beforeB = text(b), expect;
      bool threw, t2;
      expect = run(x, y, t2);
      long allocs = mem::seen;
      std::string afterA = text(x);
      // with or without something remembered
      if (op >= 2 && op <= 6 && c.flip()) { a.getKeoghLower(c.range(0, 6)); b.getKeoghLower(c.range(0, 6)); }
      int attempts = c.size(1, 8);
      DESC(c, names[op] << " -> " << expect << ", " << allocs << " allocations; failing:");
      bool done = false;
      for (int i = 0; i < attempts && !done; i++) {
        shortage(c, allocs + 2, 400);
        DESC(c, " " << mem::failAt << (mem::failRest ? "+" : "") << (mem::least ? ">=" + num(mem::least) : std::string()));
        std::string r = run(a, b, threw);
        bool fired = mem::fired;
        plenty();
        if (fired && threw) {
          hit++;
          c.label(std::string("failed: ") + names[op]);
          CHECK(text(a) == beforeA || text(a) == afterA, names[op] << " fails and leaves the sequence " << text(a) << " instead of " << beforeA);
          CHECK(text(b) == beforeB, names[op] << " fails and changes the other sequence to " << text(b) << " from " << beforeB);
        } else {
          CHECK(r == expect, names[op] << " with an allocation failing answers " << r << " instead of " << expect);
          done = true;
        }
      }
      DESC(c, "\n");
      std::string r = run(a, b, threw);
      CHECK(r == expect, names[op] << " after failing for lack of memory answers " << r << " instead of " << expect);
      CHECK(text(b) == beforeB, names[op] << " changes the other sequence");
      if (a.getLength() > 0) { int w = c.range(0, 6); TimeSeries z = makeTS(slice(a.getLength() ? Row(a.getData() + a.getStart(), a.getData() + a.getStart() + a.getLength()) : Row(), 0, a.getLength()));
        CHECK(envelope(a, w) == envelope(z, w), "the envelope of a sequence differs after an operation failed for lack of memory: " << envelope(a, w) << " instead of " << envelope(z, w)); }
    }
  }
  c.label("sequence objects");
  c.nontrivial(hit > 0);
}

void body(Case& c) {
  if (c.chance(1, 4)) return objects(c);
  double ratio = ratioGen(c);
  onex::setWarpingBandRatio(ratio);
  Files f;
  f.out = path(c, "out.txt");
  f.peek = path(c, "peek.txt");
  std::vector<Table> tables;
  int nf = c.range(1, 3);
  for (int i = 0; i < nf; i++) {
    int kind = (int)c.below(NKINDS);
    bool wide = c.chance(1, 15);
    Table t = wide ? table(c, c.range(1, 40), c.range(1, 3), kind) : table(c, c.size(1, 5), c.size(1, 9), kind);
    f.data.push_back(path(c, "data" + num(i)));
    writeFile(f.data.back(), tableText(t) + (c.chance(1, 8) ? "1 x\n" : ""));
    GroupFile g = randomGroups(c, t, kind);
    std::string text = groupText(g);
    if (c.chance(1, 4)) { text.resize(c.below(text.size() + 1)); c.label("damaged group file"); }
    f.groups.push_back(path(c, "groups" + num(i)));
    writeFile(f.groups.back(), text);
    tables.push_back(t);
    DESC(c, "file " << i << ": " << show(t) << "\n");
  }
  int steps = c.size(1, 12);
  if (c.flip()) {
    Session a(f), twin(f);
    std::vector<int> fileOf; // by id, as far as known
    auto gen = [&]() -> Step {
      Step o;
      std::vector<onex::dataset_info_t> all = twin.api.getAllDatasetInfo();
      o.kind = all.empty() ? LOAD : (int)c.below(NOPS + 5);
      if (o.kind >= NOPS) { static const int more[] = {LOAD, GROUP, GROUP, MATCH, MATCH}; o.kind = more[o.kind - NOPS]; }
      if (all.size() > 4 && o.kind == LOAD) o.kind = UNLOAD;
      o.file = (int)c.below(nf);
      o.b = o.kind == PAA ? c.range(1, 3) : o.kind == LOAD && c.chance(1, 3) ? c.range(1, 4) : 0;
      o.a = o.kind == LOAD || all.empty() ? -1 : all[c.below(all.size())].id;
      o.d = 0;
      o.x = c.flip() ? c.range(0, 24) / 8.0 * scaleOf(c) : (double)thresholdGen(c, tables[o.file]);
      if (o.kind == SAVEGROUP) o.b = (int)c.below(2);
      if (o.kind == LOADGROUP && o.a >= 0 && c.chance(2, 3)) { // the fitting one
        std::string name = twin.api.getDatasetInfo(o.a).name;
        for (int i = 0; i < nf; i++) if (f.data[i] == name) o.file = i;
      }
      if (o.kind == MATCH) {
        auto q = all[c.below(all.size())];
        o.b = q.id;
        int i = (int)c.below(q.itemCount), s = 0, e = q.itemLength;
        if (q.itemLength > 2) { s = (int)c.below(q.itemLength - 1); e = s + c.range(2, q.itemLength - s); }
        o.d = (i & 15) | s << 4 | e << 8;
      }
      return o;
    };
    history<Session>(c, a, twin, gen, steps);
    c.label("session");
  } else {
    Row q = row(c, c.range(2, 9), (int)c.below(NKINDS));
    Set a(f, q), twin(f, q);
    auto gen = [&]() -> Step {
      Step o;
      o.kind = !twin.s.isLoaded() ? LOAD : (int)c.below(NOPS + 4);
      if (o.kind >= NOPS) { static const int more[] = {GROUP, GROUP, MATCH, LOADGROUP}; o.kind = more[o.kind - NOPS]; }
      if (o.kind == UNLOAD) o.kind = LIST;
      o.file = (int)c.below(nf);
      o.a = (int)c.below(2);
      o.b = o.kind == PAA ? c.range(1, 3) : o.kind == LOAD && c.chance(1, 3) ? c.range(1, 4) : o.kind == SAVEGROUP ? c.range(0, 1) : 0;
      o.d = 0;
      o.x = c.flip() ? c.range(0, 24) / 8.0 * scaleOf(c) : (double)thresholdGen(c, tables[o.file]);
      return o;
    };
    history<Set>(c, a, twin, gen, steps);
    c.label("dataset object");
  }
}

void run(Case& c) {
  plenty();
  mem::inside = false;
  mem::forget();
  body(c);
  if (c.thorough) CHECK(mem::held <= TOLERATED, mem::held << " bytes taken by operations were never given back");
}
} // namespace C28

PBT_PROPERTY("C28", 30, C28::run, h::resetState,
  "histories of 1-12 operations on a session (1-5 datasets of 1-5 x 1-9 points, sometimes 40 rows), on one dataset object, or on sequence objects, in which half of the operations are first tried 1-60 times with the k-th allocation (of any size or of at least a random size) failing, alone or with all later ones. Non-trivial: at least one operation failed for lack of memory")
