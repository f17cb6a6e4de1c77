// Failed file I/O: saves and loads under injected faults. Faults come from the kernel (size limit,
// full device, unopenable places) and from interposed read/write/writev/fclose, which libstdc++
// reaches through the dynamic linker. Built without sanitizers, whose interceptors would be in the way.
#include "common.hpp"
#include "pbt_main.hpp"
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>

namespace fault {
// One armed fault: at the call that reaches byte `at` (or is the `at`-th call), do `what`.
enum What { NONE, FAIL, SHORT, INTR, CLOSEFAIL };
struct Plan {
  bool armed = false, reads = false;
  int what = NONE, err = EIO;
  bool sticky = true;      // keeps failing
  size_t at = 0, done = 0; // bytes transferred so far
  int every = 1;           // SHORT: bytes per transfer; INTR: an interruption before every n-th transfer
  long calls = 0;
  bool fired = false;
} plan;

// How many of n bytes may be transferred now; -1 with errno set: fail.
ssize_t admit(size_t n) {
  plan.calls++;
  if (plan.what == FAIL) {
    if (plan.done >= plan.at || (plan.fired && plan.sticky)) {
      if (!plan.fired || plan.sticky) { plan.fired = true; errno = plan.err; return -1; }
      return (ssize_t)n;
    }
    return (ssize_t)std::min(n, plan.at - plan.done);
  }
  if (plan.what == SHORT) { plan.fired = true; return (ssize_t)std::min<size_t>(n, 1 + (plan.calls * 7919 + plan.at) % plan.every); }
  if (plan.what == INTR && plan.calls % (plan.every + 1) == 0) { plan.fired = true; errno = EINTR; return -1; }
  return (ssize_t)n;
}
} // namespace fault

extern "C" ssize_t write(int fd, const void* b, size_t n) {
  using namespace fault;
  if (plan.armed && !plan.reads && fd > 2 && n) {
    ssize_t k = admit(n);
    if (k < 0) return -1;
    ssize_t r = syscall(SYS_write, fd, b, (size_t)k);
    if (r > 0) plan.done += r;
    return r;
  }
  return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  using namespace fault;
  if (plan.armed && !plan.reads && fd > 2) {
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    if (n) {
      ssize_t k = admit(n);
      if (k < 0) return -1;
      ssize_t sum = 0;
      for (int i = 0; i < c && k > 0; i++) {
        size_t m = std::min<size_t>(v[i].iov_len, k);
        if (!m) continue;
        ssize_t r = syscall(SYS_write, fd, v[i].iov_base, m);
        if (r < 0) { if (sum) break; return -1; }
        sum += r;
        plan.done += r;
        k -= r;
        if ((size_t)r < m) break;
      }
      return sum;
    }
  }
  return syscall(SYS_writev, fd, v, c);
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
  using namespace fault;
  if (plan.armed && plan.reads && fd > 2 && n) {
    ssize_t k = admit(n);
    if (k < 0) return -1;
    ssize_t r = syscall(SYS_read, fd, b, (size_t)k);
    if (r > 0) plan.done += r;
    return r;
  }
  return syscall(SYS_read, fd, b, n);
}
extern "C" int fclose(FILE* f) {
  static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  int r = real(f);
  if (fault::plan.armed && !fault::plan.reads && fault::plan.what == fault::CLOSEFAIL) {
    fault::plan.fired = true;
    errno = fault::plan.err;
    return EOF;
  }
  return r;
}

namespace C21 {
using namespace h;
using fault::plan;

bool throwsOnex(const std::function<void()>& f) {
  try { f(); } catch (OnexException&) { return true; }
  return false;
}

struct Snapshot { std::string data, groups, sizes; onex::dataset_info_t info; };

std::string slurp(const std::string& p) { std::string s; if (!readFile(p, s)) fail("no file " + p); return s; }

Snapshot snap(onex::OnexAPI& a, Case& c, int id) {
  Snapshot s;
  std::string p = path(c, "snap");
  a.saveDataset(id, p, ' ');
  s.data = slurp(p);
  s.info = a.getDatasetInfo(id);
  if (s.info.isGrouped) {
    a.saveGroup(id, p, false);
    s.groups = slurp(p);
    a.saveGroup(id, p, true);
    s.sizes = slurp(p);
  }
  return s;
}
// Members may be listed in any order: loading and saving again may turn it around.
std::string canon(const std::string& text) {
  if (text.empty()) return text;
  GroupFile g = parseGroups(text, false);
  std::ostringstream o;
  o << g.version << " " << num(g.threshold) << " " << g.items << " " << g.length << " " << g.from << " " << g.to << " " << g.distance << "\n";
  for (auto& l : g.groups) {
    o << l.first << ": " << l.second.size() << "\n";
    for (auto& r : l.second) {
      o << show(r.rep) << " |";
      std::sort(r.members.begin(), r.members.end());
      for (auto& m : r.members) o << " " << m.idx << "@" << m.start;
      o << "\n";
    }
  }
  return o.str();
}
void sameSnap(const Snapshot& a, const Snapshot& b, const char* when) {
  CHECK(a.info.isGrouped == b.info.isGrouped && a.info.isNormalized == b.info.isNormalized && a.info.name == b.info.name && a.info.itemCount == b.info.itemCount && a.info.itemLength == b.info.itemLength,
        "the dataset's description changes " << when);
  CHECK(a.data == b.data, "the dataset's values change " << when << ":\n" << a.data.substr(0, 500) << "\n-- became\n" << b.data.substr(0, 500));
  CHECK(canon(a.groups) == canon(b.groups) && a.sizes == b.sizes, "the dataset's groups change " << when);
}

void setLimit(rlim_t n) {
  struct rlimit r;
  getrlimit(RLIMIT_FSIZE, &r);
  r.rlim_cur = n;
  setrlimit(RLIMIT_FSIZE, &r);
}

void setup(Case&) {
  signal(SIGXFSZ, SIG_IGN);
  plan = fault::Plan();
  setLimit(RLIM_INFINITY);
}

struct Disarm { ~Disarm() { plan.armed = false; setLimit(RLIM_INFINITY); } };

void run(Case& c) {
  bool big = c.chance(1, 6), huge = c.chance(1, 30); // huge: several stream buffers
  int rows = huge ? c.range(20, 50) : big ? c.range(3, 12) : c.range(1, 4), len = huge ? c.range(20, 60) : big ? c.range(4, 40) : c.range(1, 7);
  Table t = table(c, rows, len, c.flip() ? DYADIC : UNIFORM);
  DESC(c, "dataset: " << show(t) << "\n");
  onex::OnexAPI api;
  std::string src = path(c, "src.txt");
  writeFile(src, tableText(t));
  int id = api.loadDataset(src, 0, 0, " ").id;
  if (c.chance(1, 4)) { api.normalizeDataset(id); DESC(c, "normalize\n"); }
  bool grouped = rows * len <= 150 && len > 1 && c.chance(3, 4);
  if (grouped) { double th = c.pick(std::vector<double>{0.2, 0, 0.05, 1, 3}); api.groupDataset(id, (data_t)th); DESC(c, "group " << th << "\n"); }
  int other = c.chance(1, 3) ? api.loadDataset(src, 0, 0, " ").id : -1;
  Snapshot base = snap(api, c, id);
  int trials = huge ? c.range(2, 8) : c.size(2, 24);
  bool faults = false, midFault = false, transient = false;
  for (int k = 0; k < trials; k++) {
    enum { SAVE, SAVEG, SAVES, LOAD, LOADG };
    int op = grouped ? (int)c.below(5) : (c.flip() ? LOAD : SAVE);
    static const char* names[] = {"save", "save groups", "save group sizes", "load", "load groups"};
    const std::string& bytes = op == SAVE ? base.data : op == SAVEG ? base.groups : op == SAVES ? base.sizes : op == LOAD ? base.data : base.groups;
    bool reads = op >= LOAD;
    // positions: often near the start, the end, and multiples of the stream's buffer
    auto position = [&]() -> size_t {
      size_t n = bytes.size();
      if (reads && c.chance(1, 3)) return n + c.below(n); // while the file is read for the second time, if it is
      switch (c.below(5)) {
        case 0: return c.below(std::min<size_t>(n, 4));
        case 1: return n - 1 - c.below(std::min<size_t>(n, 4));
        case 2: if (n > 8200) { size_t b = 4096 * (1 + c.below(n / 4096)); return std::min(n - 1, b - 2 + c.below(4)); } // fall through
        default: return c.below(n);
      }
    };
    std::string out = path(c, "target");
    unlink(out.c_str());
    int how = (int)c.below(reads ? 5 : 9);
    bool mustFail = false, sweep = false;
    std::string text;
    auto operation = [&]() {
      switch (op) {
        case SAVE: api.saveDataset(id, out, ' '); break;
        case SAVEG: api.saveGroup(id, out, false); break;
        case SAVES: api.saveGroup(id, out, true); break;
        default: break;
      }
    };
    // one attempt under the armed fault
    auto attempt = [&](bool kernelMustFail) {
      bool threw = false;
      int before = api.getDatasetCount();
      std::string in = path(c, "input");
      if (reads) writeFile(in, bytes);
      onex::dataset_info_t li;
      int lg = -1;
      {
        Disarm d;
        plan.reads = reads;
        plan.armed = true;
        try {
          if (op == LOAD) li = api.loadDataset(in, 0, 0, " ");
          else if (op == LOADG) lg = api.loadGroup(id, in);
          else operation();
        } catch (OnexException&) { threw = true; }
      }
      if (!reads) {
        bool failed = kernelMustFail || (plan.fired && (plan.what == fault::FAIL || plan.what == fault::CLOSEFAIL));
        if (failed) {
          CHECK(threw, names[op] << " with " << text << " is reported as a success (" << bytes.size() << " bytes to write)");
          faults = true;
        } else {
          CHECK(!threw, names[op] << " with " << text << " is reported as a failure");
          CHECK(slurp(out) == bytes, names[op] << " with " << text << " stores something else:\n" << slurp(out).substr(0, 500) << "\n-- instead of\n" << bytes.substr(0, 500));
          if (plan.fired) transient = true;
        }
      } else {
        bool failed = plan.fired && plan.what == fault::FAIL;
        if (!failed) CHECK(!threw, names[op] << " with " << text << " is rejected");
        if (!threw) {
          // only acceptable when everything that matters was delivered
          if (op == LOAD) {
            std::string p = path(c, "loaded");
            api.saveDataset(li.id, p, ' ');
            CHECK(slurp(p) == base.data, names[op] << " with " << text << " is reported as a success but gives\n" << slurp(p).substr(0, 500) << "\n-- instead of\n" << base.data.substr(0, 500));
            CHECK(li.itemCount == rows && li.itemLength == len, names[op] << " with " << text << " gives " << li.itemCount << "x" << li.itemLength);
            api.unloadDataset(li.id);
          } else {
            std::string p = path(c, "loaded");
            api.saveGroup(id, p, false);
            CHECK(canon(slurp(p)) == canon(base.groups), names[op] << " with " << text << " is reported as a success but gives other groups");
            CHECK(lg == parseGroups(base.groups, false).total(), names[op] << " with " << text << " reports " << lg << " groups");
          }
          if (plan.fired && plan.what != fault::FAIL) transient = true;
        } else faults = true;
        CHECK(api.getDatasetCount() == before, names[op] << " with " << text << ": " << api.getDatasetCount() << " datasets instead of " << before);
      }
      unlink(out.c_str());
    };
    plan = fault::Plan();
    std::ostringstream o;
    static const int errs[] = {EIO, ENOSPC, EDQUOT, EFBIG, EBADF, EAGAIN};
    if (how <= 1) { // fails at a byte
      plan.what = fault::FAIL;
      plan.err = reads ? EIO : errs[c.below(6)];
      plan.sticky = !c.chance(1, 3);
      plan.at = position();
      o << (reads ? "a read" : "a write") << " error (" << strerror(plan.err) << (plan.sticky ? "" : ", once") << ") at byte " << plan.at;
      if (plan.at > 0 && plan.at + 1 < bytes.size()) midFault = true;
      if (bytes.size() < 500 && c.chance(1, 8)) sweep = true;
    } else if (how == 2) {
      plan.what = fault::SHORT;
      plan.every = c.pick(std::vector<int>{1, 2, 7, 100, 1000, 5000});
      plan.at = c.below(1000);
      o << "short transfers of at most " << plan.every << " bytes";
    } else if (how == 3) {
      plan.what = fault::INTR;
      plan.every = c.range(1, 3);
      o << "interruptions";
    } else if (how == 4) {
      o << "no fault";
    } else if (how == 5) {
      plan.what = fault::CLOSEFAIL;
      plan.err = errs[c.below(3)];
      o << "an error on close (" << strerror(plan.err) << ")";
    } else if (how == 6) {
      size_t at = c.chance(1, 4) ? bytes.size() + c.below(3) : position();
      o << "a file size limit of " << at << " bytes";
      text = o.str();
      DESC(c, names[op] << ": " << text << "\n");
      setLimit(at);
      mustFail = at < bytes.size();
      if (at > 0 && mustFail) midFault = true;
      attempt(mustFail);
      c.label("size limit");
      goto after;
    } else if (how == 7) {
      out = "/dev/full";
      o << "a full device";
      text = o.str();
      DESC(c, names[op] << ": " << text << "\n");
      CHECK(throwsOnex(operation), names[op] << " to " << text << " is reported as a success");
      faults = true;
      c.label("full device");
      goto after;
    } else {
      int w = (int)c.below(3);
      out = w == 0 ? path(c, "no-such-dir/x") : w == 1 ? c.dir : path(c, std::string(300, 'n'));
      o << (w == 0 ? "a missing directory" : w == 1 ? "a directory as target" : "a name that is too long");
      text = o.str();
      DESC(c, names[op] << ": " << text << "\n");
      CHECK(throwsOnex(operation), names[op] << " with " << text << " is reported as a success");
      c.label("cannot open");
      goto after;
    }
    text = o.str();
    DESC(c, names[op] << ": " << text << (sweep ? " and every other byte" : "") << "\n");
    if (sweep) {
      fault::Plan keep = plan;
      for (size_t at = 0; at <= bytes.size() * (reads ? 2 : 1); at++) {
        plan = keep;
        plan.at = at;
        text = "an error at byte " + num((double)at);
        attempt(false);
      }
      c.label("every byte");
    } else attempt(false);
    c.label(std::string(names[op]) + (how <= 1 ? ": error" : how == 2 ? ": short" : how == 3 ? ": interrupted" : how == 4 ? ": no fault" : ": close"));
  after:
    plan = fault::Plan();
    Snapshot now = snap(api, c, id);
    sameSnap(base, now, ("after " + std::string(names[op]) + " with " + text).c_str());
    base = now;
    if (other >= 0) { std::string p = path(c, "other"); api.saveDataset(other, p, ' '); CHECK(same(parseTable(slurp(p)), t), "another dataset changes after " << text); }
  }
  if (faults && (midFault || transient)) c.nontrivial();
}

} // namespace C21
PBT_PROPERTY("C21", 40, C21::run, C21::setup, "A case is a dataset (sometimes normalized and grouped, sometimes larger than the stream buffer) and 2 to 24 saves and loads of data, groups and group sizes, each under one fault: a read or write error at a chosen byte (for small files sometimes at every byte), a file size limit, short or interrupted transfers, an error on close, a full device, an unopenable place, or none. Non-trivial: at least one operation really failed and at least one fault was transient or hit the middle of the content.")
