// Command line: generated sessions given to the real program; the expectations come from driving
// the API in this process with the same arguments. The property is that the program does exactly
// what the API does, so the API itself is the oracle here.
#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
#include <dirent.h>
#include <limits.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <termios.h>
namespace C20 {
using namespace h;

struct Expect {
  enum { NOTHING, ERROR, LOAD, SAVE, UNLOAD, LIST, DISTANCES, TIMER, GROUP, SAVEGROUP, LOADGROUP, NORMALIZE, PAA, MATCH, HELP, HELPALL, QUIT } kind = NOTHING;
  onex::dataset_info_t i;
  std::vector<onex::dataset_info_t> all;
  long long n = 0, m = 0, l = 0;
  double d = 0;
  bool timer = false, timed = false;
  std::string what;
};

// What a numeric argument means.
struct BadNumber {};
int toI(const std::string& s) {
  char* e;
  errno = 0;
  long long v = strtoll(s.c_str(), &e, 10);
  if (e == s.c_str() || errno || v < INT_MIN || v > INT_MAX) throw BadNumber();
  if (*e) throw BadNumber();
  return (int)v;
}
double toD(const std::string& s) {
  char* e;
  errno = 0;
  double v = strtod(s.c_str(), &e);
  if (e == s.c_str() || (errno && (v == 0 || std::isinf(v)))) throw BadNumber();
  if (*e) throw BadNumber();
  return v;
}

// The meaning of one line, carried out on the API.
Expect model(onex::OnexAPI& api, bool& timer, const std::string& line) {
  Expect e;
  std::vector<std::string> a;
  size_t p = 0;
  while (p < line.size()) {
    while (p < line.size() && line[p] == ' ') p++;
    size_t q = p;
    while (p < line.size() && line[p] != ' ') p++;
    if (p > q) a.push_back(line.substr(q, p - q));
  }
  e.timer = timer;
  if (a.empty() || a[0].compare(0, 2, "//") == 0) return e;
  static const std::map<std::string, std::pair<int, int>> arity = {
    {"load", {2, 5}}, {"save", {3, 4}}, {"unload", {2, 2}}, {"list", {2, 2}}, {"timer", {1, 2}}, {"group", {3, 3}}, {"saveGroup", {3, 4}},
    {"loadGroup", {3, 3}}, {"normalize", {2, 2}}, {"paa", {3, 3}}, {"match", {4, 6}}, {"help", {1, 2}}};
  e.kind = Expect::ERROR;
  if (a[0] == "quit" || a[0] == "exit") { e.kind = Expect::QUIT; return e; }
  auto it = arity.find(a[0]);
  int n = (int)a.size();
  if (it == arity.end() || n < it->second.first || n > it->second.second || (a[0] == "match" && n == 5)) return e;
  try {
    if (a[0] == "load") {
      int limit = n > 2 ? toI(a[2]) : 0, sc = n > 3 ? toI(a[3]) : 0;
      e.i = api.loadDataset(a[1], limit, sc, n > 4 ? a[4] : " ");
      e.kind = Expect::LOAD;
    } else if (a[0] == "save") {
      e.n = toI(a[1]);
      api.saveDataset((int)e.n, a[2], n > 3 ? a[3][0] : ' ');
      e.what = a[2];
      e.kind = Expect::SAVE;
    } else if (a[0] == "unload") {
      e.n = toI(a[1]);
      api.unloadDataset((int)e.n);
      e.kind = Expect::UNLOAD;
    } else if (a[0] == "list") {
      if (a[1] == "dataset") { e.all = api.getAllDatasetInfo(); e.n = api.getDatasetCount(); e.kind = Expect::LIST; }
      else if (a[1] == "distance") e.kind = Expect::DISTANCES;
    } else if (a[0] == "timer") {
      if (n == 1) e.kind = Expect::TIMER;
      else if (a[1] == "on" || a[1] == "off") { timer = a[1] == "on"; e.kind = Expect::TIMER; }
      e.timer = timer;
    } else if (a[0] == "group") {
      e.n = toI(a[1]);
      e.m = api.groupDataset((int)e.n, (onex::data_t)toD(a[2]));
      e.timed = true;
      e.kind = Expect::GROUP;
    } else if (a[0] == "saveGroup") {
      e.n = toI(a[1]);
      api.saveGroup((int)e.n, a[2], n > 3 ? toI(a[3]) : false);
      e.what = a[2];
      e.kind = Expect::SAVEGROUP;
    } else if (a[0] == "loadGroup") {
      e.n = toI(a[1]);
      e.m = api.loadGroup((int)e.n, a[2]);
      e.kind = Expect::LOADGROUP;
    } else if (a[0] == "normalize") {
      e.n = toI(a[1]);
      api.normalizeDataset((int)e.n);
      e.kind = Expect::NORMALIZE;
    } else if (a[0] == "paa") {
      e.n = toI(a[1]);
      int b = toI(a[2]);
      e.i = api.PAA((int)e.n, b);
      e.kind = Expect::PAA;
    } else if (a[0] == "match") {
      int r = toI(a[1]), q = toI(a[2]), ts = toI(a[3]), s = -1, en = -1;
      if (n > 4) { s = toI(a[4]); en = toI(a[5]); }
      auto best = api.getBestMatch(r, q, ts, s, en);
      e.n = best.data.getIndex();
      e.m = best.data.getStart();
      e.l = best.data.getLength();
      e.d = best.dist;
      e.timed = true;
      e.kind = Expect::MATCH;
    } else if (a[0] == "help") {
      if (n == 1) e.kind = Expect::HELPALL;
      else if (arity.count(a[1]) || a[1] == "quit" || a[1] == "exit") e.kind = Expect::HELP;
    }
  } catch (OnexException&) {
    e.kind = Expect::ERROR;
  } catch (BadNumber&) {
    e.kind = Expect::ERROR;
  }
  return e;
}

// All numbers written in a text.
std::vector<double> numbers(const std::string& s) {
  std::vector<double> r;
  for (auto w : words(s)) {
    while (!w.empty() && (w.back() == '.' || w.back() == ',' || w.back() == ':')) w.pop_back();
    char* e;
    double v = strtod(w.c_str(), &e);
    if (!w.empty() && !*e) r.push_back(v);
  }
  return r;
}
// The text after the label on the line that has it.
std::string field(const std::vector<std::string>& ls, const std::string& label) {
  for (auto& l : ls) {
    size_t p = l.find(label);
    if (p == std::string::npos) continue;
    auto w = words(l.substr(p + label.size()));
    return w.empty() ? "" : w[0];
  }
  return "(missing)";
}

void checkInfo(const std::vector<std::string>& ls, const onex::dataset_info_t& i) {
  CHECK(field(ls, "Name:") == i.name && field(ls, "ID:") == num(i.id) && field(ls, "Item count:") == num(i.itemCount) && field(ls, "Item length:") == num(i.itemLength),
        "prints name " << field(ls, "Name:") << " id " << field(ls, "ID:") << " count " << field(ls, "Item count:") << " length " << field(ls, "Item length:") << ", the dataset is "
        << i.name << " " << i.id << " " << i.itemCount << "x" << i.itemLength);
}

void check(const Expect& e, const std::vector<std::string>& ls) {
  bool error = false, blank = true, timing = false;
  for (auto& l : ls) {
    if (l.compare(0, 6, "Error!") == 0) error = true;
    if (l.find_first_not_of(" \r") != std::string::npos) blank = false;
    if (l.find("Command executed in") != std::string::npos) timing = true;
  }
  if (e.kind == Expect::NOTHING) { CHECK(blank, "an empty or comment line has an effect"); return; }
  if (e.kind == Expect::ERROR) { CHECK(error, "no error is printed"); return; }
  CHECK(!error, "an error is printed");
  CHECK(!timing || e.timer, "reports a time although the timer is off");
  CHECK(timing || !e.timed || !e.timer, "reports no time although the timer is on");
  auto lineWith = [&](const char* what) -> std::string {
    for (auto& l : ls) if (l.find(what) != std::string::npos) return l;
    fail(std::string("prints nothing about: ") + what);
  };
  auto first = [&](const std::string& l) { auto v = numbers(l); return v.empty() ? -1e9 : v[0]; };
  auto last = [&](const std::string& l) { auto v = numbers(l); return v.empty() ? -1e9 : v.back(); };
  switch (e.kind) {
    case Expect::LOAD: case Expect::PAA: checkInfo(ls, e.i); break;
    case Expect::SAVE: { auto l = lineWith("Saved dataset"); CHECK(first(l) == e.n && words(l).back() == e.what, "prints '" << l << "'"); break; }
    case Expect::UNLOAD: { auto l = lineWith("unloaded"); CHECK(first(l) == e.n, "prints '" << l << "'"); break; }
    case Expect::NORMALIZE: { auto l = lineWith("normalized"); CHECK(first(l) == e.n, "prints '" << l << "'"); break; }
    case Expect::LIST: {
      CHECK(first(lineWith("loaded datasets")) == (double)e.n, "prints '" << lineWith("loaded datasets") << "' with " << e.n << " datasets");
      std::vector<std::vector<std::string>> rows;
      for (auto& l : ls) if (l.find("loaded datasets") == std::string::npos && !words(l).empty()) rows.push_back(words(l));
      CHECK(rows.size() == e.all.size(), "lists " << rows.size() << " of " << e.all.size() << " datasets");
      for (size_t k = 0; k < rows.size(); k++) {
        auto& i = e.all[k];
        std::vector<std::string> w = {num(i.id), i.name};
        if (i.isNormalized) w.push_back("Normalized");
        if (i.isGrouped) w.push_back("Grouped");
        std::string got;
        for (auto& x : rows[k]) got += x + " ";
        CHECK(rows[k] == w, "lists '" << got << "' for dataset " << i.id << " " << i.name << (i.isNormalized ? " normalized" : "") << (i.isGrouped ? " grouped" : ""));
      }
      break;
    }
    case Expect::DISTANCES: {
      std::set<std::string> w;
      for (auto& l : ls) for (auto& x : words(l)) w.insert(x);
      CHECK(w == (std::set<std::string>{"euclidean", "euclidean_dtw"}), "the list of distances is wrong");
      break;
    }
    case Expect::TIMER: { auto l = lineWith("Timer is"); CHECK(words(l).back() == (e.timer ? "ON" : "OFF"), "prints '" << l << "'"); break; }
    case Expect::GROUP: {
      CHECK(last(lineWith("Number of Groups")) == (double)e.m, "prints '" << lineWith("Number of Groups") << "' for " << e.m << " groups");
      CHECK(first(lineWith("now grouped")) == (double)e.n, "prints '" << lineWith("now grouped") << "'");
      break;
    }
    case Expect::SAVEGROUP: { auto l = lineWith("Saved groups of dataset"); CHECK(first(l) == e.n && words(l).back() == e.what, "prints '" << l << "'"); break; }
    case Expect::LOADGROUP: {
      auto l = lineWith("groups loaded");
      auto v = numbers(l);
      CHECK(v.size() == 2 && v[0] == (double)e.m && v[1] == (double)e.n, "prints '" << l << "' for " << e.m << " groups of dataset " << e.n);
      break;
    }
    case Expect::MATCH: {
      auto l = lineWith("Best Match");
      auto v = numbers(l);
      CHECK(v.size() == 4 && v[0] == (double)e.n && v[1] == (double)e.m && v[2] == (double)e.l && close(v[3], e.d, 6e-4, 1e-12),
            "prints '" << l << "' for series " << e.n << " start " << e.m << " length " << e.l << " distance " << num(e.d));
      break;
    }
    case Expect::HELPALL:
      for (const char* w : {"load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match", "help", "quit", "exit"}) lineWith(w);
      break;
    case Expect::HELP: CHECK(!blank, "prints no help"); break;
    default: break;
  }
}

std::string program() {
  static std::string p;
  if (p.empty()) {
    char b[4096];
    ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1);
    p.assign(b, k > 0 ? k : 0);
    p = p.substr(0, p.rfind('/')) + "/onex";
  }
  return p;
}

// Returns the wait status, -1 when the program does not end.
int runProgram(const std::string& dir, const std::string& in, const std::string& out, const std::string& err) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int a = open(in.c_str(), O_RDONLY), b = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), d = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (a < 0 || b < 0 || d < 0 || chdir(dir.c_str())) _exit(120);
    dup2(a, 0); dup2(b, 1); dup2(d, 2);
    setenv("TERM", "dumb", 1);
    setenv("INPUTRC", "/dev/null", 1);
    struct rlimit r = {20, 20};
    setrlimit(RLIMIT_CPU, &r);
    struct rlimit f = {64 << 20, 64 << 20};
    setrlimit(RLIMIT_FSIZE, &f);
    alarm(120);
    execl(program().c_str(), "onex", (char*)nullptr);
    _exit(121);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return st;
}

// Drives the program on a terminal of its own. steps: lines to type; a step "\x04..." is Ctrl-D followed by
// the answers to the question whether to leave, separated by newlines. Returns the wait status, -1 when the
// program does not end, -2 when there is no terminal to be had. out: what is shown, without the dialogues
// about leaving that were answered with no.
int runTerminal(const std::string& dir, const std::vector<std::string>& steps, std::string& out, const std::string& err, size_t& done) {
  int m = posix_openpt(O_RDWR | O_NOCTTY);
  if (m < 0) return -2;
  const char* name;
  if (grantpt(m) || unlockpt(m) || !(name = ptsname(m))) { close(m); return -2; }
  std::string slave = name;
  int probe = open(slave.c_str(), O_RDWR | O_NOCTTY);
  if (probe < 0) { close(m); return -2; }
  struct winsize w = {50, 30000, 0, 0};
  ioctl(m, TIOCSWINSZ, &w);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    setsid();
    int s = open(slave.c_str(), O_RDWR), d = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (s < 0 || d < 0 || chdir(dir.c_str())) _exit(120);
    dup2(s, 0); dup2(s, 1); dup2(d, 2);
    close(m); close(probe);
    setenv("TERM", "dumb", 1);
    setenv("INPUTRC", "/dev/null", 1);
    unsetenv("COLUMNS"); unsetenv("LINES");
    struct rlimit r = {20, 20};
    setrlimit(RLIMIT_CPU, &r);
    struct rlimit f = {64 << 20, 64 << 20};
    setrlimit(RLIMIT_FSIZE, &f);
    alarm(120);
    execl(program().c_str(), "onex", (char*)nullptr);
    _exit(121);
  }
  close(probe);
  bool over = false;
  // reads until a prompt is shown; 0: command prompt, 1: question, 2: the program has ended, 3: neither
  std::string buf;
  auto wait = [&]() -> int {
    for (int idle = 0; idle < 300;) {
      auto ends = [&](const char* t) { size_t n = strlen(t); return buf.size() >= n && buf.compare(buf.size() - n, n, t) == 0; };
      struct pollfd f = {m, POLLIN, 0};
      bool q = ends("([y]/n)? ");
      if ((ends("\n>> ") || q) && poll(&f, 1, 0) == 0) return q ? 1 : 0;
      int k = poll(&f, 1, 100);
      if (k == 0) { idle++; continue; }
      if (k < 0) continue;
      char b[4096];
      ssize_t n = read(m, b, sizeof b);
      if (n <= 0) { over = true; return 2; }
      for (ssize_t x = 0; x < n; x++) if (b[x] != '\r' && b[x] != '\a') buf += b[x];
    }
    return 3;
  };
  auto type = [&](const std::string& t) {
    size_t o = 0;
    for (int idle = 0; o < t.size() && idle < 300;) { // what is shown meanwhile must be read, or both sides wait
      struct pollfd f = {m, POLLIN | POLLOUT, 0};
      if (poll(&f, 1, 100) <= 0) { idle++; continue; }
      if (f.revents & POLLIN) {
        char b[4096];
        ssize_t n = read(m, b, sizeof b);
        if (n <= 0) return;
        for (ssize_t x = 0; x < n; x++) if (b[x] != '\r' && b[x] != '\a') buf += b[x];
      } else if (f.revents & POLLOUT) {
        ssize_t n = write(m, t.data() + o, std::min<size_t>(256, t.size() - o));
        if (n <= 0) return;
        o += n;
      } else return;
    }
  };
  int at = wait();
  std::string problem;
  done = 0;
  for (auto& s : steps) {
    if (at != 0) break;
    if (s.empty() || s[0] != 4) { out += buf; buf.clear(); type(s + "\n"); at = wait(); }
    else {
      std::string keep = buf;
      buf.clear();
      type("\x04");
      at = wait();
      auto answers = lines(s.substr(1) + "\n");
      for (auto& a : answers) {
        if (at != 1) { problem = "there is no question after Ctrl-D or after an answer that is not one"; break; }
        buf.clear();
        type(a == "\x04" ? a : a + "\n");
        at = wait();
      }
      if (!problem.empty()) break;
      if (at == 0) buf = keep;
      else out += keep;
      if (at == 1) { problem = "the question is asked again after an answer"; break; }
    }
    done++;
  }
  out += buf;
  if (at != 2 && problem.empty() && done == steps.size()) problem = at == 3 ? "the program gets stuck" : "the program goes on after it was to end";
  if (at == 3 && problem.empty()) problem = "the program gets stuck";
  int st = 0;
  if (!over) kill(p, SIGKILL);
  waitpid(p, &st, 0);
  close(m);
  if (!problem.empty()) fail("on a terminal: " + problem + "; shown last:\n" + out.substr(out.size() > 500 ? out.size() - 500 : 0));
  return st;
}

void cleanDir(const std::string& d) {
  mkdir(d.c_str(), 0755);
  if (DIR* x = opendir(d.c_str())) {
    while (struct dirent* e = readdir(x)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
    closedir(x);
  }
}
std::map<std::string, std::string> contents(const std::string& d) {
  std::map<std::string, std::string> r;
  if (DIR* x = opendir(d.c_str())) {
    while (struct dirent* e = readdir(x)) if (e->d_name[0] != '.') { std::string s; if (readFile(d + "/" + e->d_name, s)) r[e->d_name] = s; }
    closedir(x);
  }
  return r;
}

std::string genLine(Case& c, int files, onex::OnexAPI& api) {
  auto infos = api.getAllDatasetInfo();
  auto id = [&]() -> std::string {
    if (!infos.empty() && !c.chance(1, 7)) return num(infos[c.below(infos.size())].id);
    static const char* odd[] = {"0", "1", "2", "5", "-1", "99999999999", "x", "00", "+1", "-", "2147483647", "-2147483648"};
    return odd[c.below(sizeof odd / sizeof *odd)];
  };
  auto file = [&]() -> std::string { return c.chance(1, 10) ? (c.flip() ? "missing" : ".") : c.chance(1, 5) ? "o" + num(c.range(0, 2)) : "d" + num(c.range(0, files - 1)); };
  auto target = [&]() -> std::string { return c.chance(1, 12) ? "no/such/place" : "o" + num(c.range(0, 2)); };
  auto gtarget = [&]() -> std::string { return c.chance(1, 12) ? "no/such/place" : "g" + num(c.range(0, 2)); };
  auto small = [&]() -> std::string {
    static const char* odd[] = {"x", "99999999999", "-1", "q7", "-99999999999"};
    return c.chance(1, 8) ? odd[c.below(5)] : num(c.range(0, 5));
  };
  auto groupedId = [&]() -> std::string {
    std::vector<int> g;
    for (auto& i : infos) if (i.isGrouped) g.push_back(i.id);
    return g.empty() || c.chance(1, 6) ? id() : num(g[c.below(g.size())]);
  };
  std::vector<std::string> t;
  int op = (int)c.below(22);
  if (op >= 18) { // what needs groups, as soon as there are some
    bool any = false;
    for (auto& i : infos) any |= i.isGrouped;
    op = !any ? 7 : op == 18 ? 9 : op == 19 ? 10 : 13;
  }
  switch (op) {
    case 0: case 1: {
      t = {"load", file()};
      int extra = c.chance(1, 2) ? 0 : c.range(1, 4);
      if (extra >= 1) t.push_back(small());
      if (extra >= 2) t.push_back(c.chance(1, 3) ? small() : num(c.range(0, 1)));
      if (extra >= 3) { static const char* s[] = {",", ",;", ";", "|", ":,"}; t.push_back(s[c.below(5)]); }
      if (extra >= 4) t.push_back("9");
      break;
    }
    case 2: case 3: {
      t = {"save", id(), target()};
      if (c.chance(1, 3)) { static const char* s[] = {",", ";", "|"}; t.push_back(s[c.below(3)]); }
      break;
    }
    case 4: t = {"unload", id()}; break;
    case 5: t = {"list", c.chance(1, 5) ? "distance" : c.chance(1, 8) ? "Dataset" : "dataset"}; break;
    case 6: { t = {"timer"}; static const char* s[] = {"off", "on", "ON", "1"}; if (c.chance(2, 3)) t.push_back(s[c.chance(1, 6) ? c.range(2, 3) : c.range(0, 1)]); break; }
    case 7: case 8: { static const char* s[] = {"0.2", "0", "1", ".5", "1e-1", "2.5", "-1", "x", "1e999", "0.05", "1e300", "inf", "1e-310", "0x1p-2"}; t = {"group", id(), s[c.chance(2, 3) ? c.below(4) : c.below(14)]}; break; }
    case 9: { t = {"saveGroup", groupedId(), gtarget()}; static const char* s[] = {"0", "1", "x"}; if (c.chance(1, 2)) t.push_back(s[c.chance(1, 8) ? 2 : c.below(2)]); break; }
    case 10: {
      t = {"loadGroup", id(), c.chance(1, 8) ? file() : "g" + num(c.range(0, 2))};
      if (c.chance(3, 4)) { // a file that fits
        std::string text;
        for (int k = 0; k < 3; k++) if (readFile("g" + num(k), text)) {
          auto w = words(text.substr(0, 100));
          for (auto& i : infos) if (w.size() > 3 && w[2] == num(i.itemCount) && w[3] == num(i.itemLength)) { t[1] = num(i.id); t[2] = "g" + num(k); if (c.flip()) break; }
        }
      }
      break;
    }
    case 11: t = {"normalize", id()}; break;
    case 12: t = {"paa", id(), c.chance(1, 6) ? small() : num(c.range(1, 3))}; break;
    case 13: case 14: {
      t = {"match", groupedId(), id(), small()};
      int len = 6;
      if (!infos.empty() && !c.chance(1, 6)) {
        auto& q = infos[c.below(infos.size())];
        t[2] = num(q.id);
        t[3] = num(c.range(0, q.itemCount - 1));
        len = q.itemLength;
      }
      if (c.chance(1, 2)) {
        int b = c.range(std::min(2, len), len), a = std::max(0, b - c.range(2, 6));
        t.push_back(c.chance(1, 8) ? small() : num(a));
        if (!c.chance(1, 8)) t.push_back(c.chance(1, 8) ? small() : num(b));
      }
      break;
    }
    case 15: { static const char* s[] = {"load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match", "help", "quit", "exit", "nothing", "//"}; t = {"help"}; if (c.chance(3, 4)) t.push_back(s[c.below(16)]); break; }
    case 16: { // comments, blanks, unknown words
      static const char* s[] = {"", "   ", "// note", "//", " //load d0", "/ x", "Load d0", "LIST dataset", "lst", "-1", "loadgroup 0 g0", "savegroup 0 g0", "quite", "exitx", "help//", "load//", "\"load d0\"", "#", "\\", "%s%n%d", "list;", "$(x)", "quit_", "group0"};
      t = {s[c.below(sizeof s / sizeof *s)]};
      break;
    }
    default: { // arbitrary printable text
      std::string w;
      int n = c.chance(1, 30) ? c.range(2000, 9000) : c.size(1, 400);
      for (int k = 0; k < n; k++) { char ch = (char)c.range(32, 126); w += ch == '/' && c.flip() ? 'a' : ch; }
      static const char* words_[] = {"quit", "exit"};
      // it must not be a real command by accident
      t = {"z" + w};
      (void)words_;
    }
  }
  // too few or too many arguments
  if (c.chance(1, 14) && !t.empty()) {
    if (c.flip() && t.size() > 1) t.pop_back();
    else if (t[0].empty() || t[0] == "timer" || t[0] == "help" || t.size() >= 2) {
      int k = c.range(1, 3);
      while (k--) t.push_back(t[0] == "save" ? "," : t[0] == "saveGroup" ? "1" : "1");
    }
  }
  // a number with something behind it
  if (c.chance(1, 10) && t.size() > 1) {
    static const char* tail[] = {"x", ".9", "e", ",", "1x", "abc", "/2", "+", "-1", " 2", "e1", "_"};
    size_t k = 1 + c.below(t.size() - 1);
    char* e;
    strtod(t[k].c_str(), &e);
    if (!t[k].empty() && !*e) t[k] += tail[c.below(12)];
  }
  std::string l;
  for (size_t k = 0; k < t.size(); k++) { if (k) l += c.chance(1, 12) ? "   " : " "; l += t[k]; }
  if (c.chance(1, 15)) l = "  " + l;
  if (c.chance(1, 15)) l += "  ";
  return l;
}

void run(Case& c) {
  std::string A = path(c, "A"), B = path(c, "B");
  cleanDir(A);
  cleanDir(B);
  int files = c.range(1, 3);
  for (int k = 0; k < files; k++) {
    int rows = c.range(1, 3), len = c.range(1, 7);
    std::string text = tableText(table(c, rows, len, c.chance(1, 10) ? UNIFORM : DYADIC), k && c.chance(1, 4) ? ',' : ' ');
    if (c.chance(1, 12)) text += "bad line\n";
    DESC(c, "d" << k << ": " << text);
    writeFile(A + "/d" + num(k), text);
    writeFile(B + "/d" + num(k), text);
  }
  // model
  if (chdir(A.c_str())) abort();
  std::vector<std::string> ls;
  std::vector<Expect> ex;
  bool timer = true, quit = false;
  int errors = 0, kinds = 0;
  {
    onex::OnexAPI api;
    int n = c.size(3, 60);
    std::set<int> seen;
    for (int k = 0; k < n; k++) {
      std::string l = quit || (k > 3 && c.chance(1, 60)) ? (quit ? genLine(c, files, api) : std::string(c.flip() ? "quit" : "exit") + (c.chance(1, 4) ? " now" : "")) : genLine(c, files, api);
      if (!quit && k == 0) l = "load d0";
      ls.push_back(l);
      DESC(c, l << "\n");
      if (quit) continue; // never reached
      Expect e = model(api, timer, l);
      ex.push_back(e);
      if (e.kind == Expect::QUIT) quit = true;
      else {
        if (e.kind == Expect::ERROR) errors++;
        else if (e.kind > Expect::ERROR) seen.insert(e.kind);
      }
    }
    kinds = (int)seen.size();
    for (int k : seen) { static const char* nm[] = {"", "", "load", "save", "unload", "list", "distances", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match", "help", "help all"}; c.label(nm[k]); }
  }
  if (chdir(c.dir.c_str())) abort();
  std::string text;
  for (size_t k = 0; k < ls.size(); k++) text += ls[k] + "\nMARK" + num(k) + ";\n";
  std::string in = path(c, "session.txt"), out = path(c, "session.out"), err = path(c, "session.err");
  std::string got, e2;
  int st = -2;
  if (c.chance(1, 5)) { // typed at a terminal
    std::vector<std::string> steps;
    for (size_t k = 0; k < ex.size(); k++) {
      if (c.chance(1, 6)) { // Ctrl-D, then not leaving after all
        std::string s = "\x04";
        static const char* other[] = {"x", "N", "no", "yes", "Y", "0", " ", "ny", "nn", "quit", " n", "y "};
        for (int t = c.chance(1, 3) ? c.range(1, 3) : 0; t > 0; t--) s += std::string(other[c.below(12)]) + "\n";
        steps.push_back(s + "n");
        c.label("Ctrl-D answered with no");
      }
      steps.push_back(ls[k]);
      if (ex[k].kind == Expect::QUIT) break;
      steps.push_back("MARK" + num(k) + ";");
    }
    if (!quit) {
      static const char* leave[] = {"\x04y", "\x04\n", "\x04\x04", "\x04no\ny", "\x04yes\n\x04"};
      steps.push_back(leave[c.below(5)]);
      if (steps.back() == "\x04\n") steps.back() = "\x04";
    }
    size_t done = 0;
    st = runTerminal(B, steps, got, err, done);
    if (st != -2) {
      c.label("on a terminal");
      CHECK(done == steps.size() || !WIFEXITED(st) || WEXITSTATUS(st), "on a terminal: the program ends early, after step " << done << " of " << steps.size() << "; shown last:\n" << got.substr(got.size() > 500 ? got.size() - 500 : 0));
    } else got.clear();
  }
  if (st == -2) {
    if (!quit && c.chance(1, 8)) { text.pop_back(); c.label("last line without newline"); }
    writeFile(in, text);
    st = runProgram(B, in, out, err);
    readFile(out, got);
  }
  readFile(err, e2);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    auto g = lines(got);
    std::string tail;
    for (size_t k = g.size() > 8 ? g.size() - 8 : 0; k < g.size(); k++) tail += g[k] + "\n";
    fail("the program ends with wait status " + num(st) + "\nlast output:\n" + tail + "\nstderr:\n" + e2.substr(0, 3000));
  }
  auto g = lines(got);
  size_t pos = 0;
  // skip the welcome
  while (pos < g.size() && g[pos].compare(0, 3, ">> ") != 0) pos++;
  for (size_t k = 0; k < ex.size(); k++) {
    std::vector<std::string> seg;
    size_t p = pos + 1; // the echoed line is at pos
    bool found = false;
    if (ex[k].kind == Expect::QUIT) {
      for (; p < g.size(); p++) CHECK(g[p].find_first_not_of(" \r") == std::string::npos, "after '" << ls[k] << "' the program still prints: " << g[p]);
      c.label("quit");
      break;
    }
    for (; p < g.size(); p++) {
      if (g[p].compare(0, 6, "Error!") == 0 && g[p].find("MARK" + num(k) + ";") != std::string::npos) { found = true; break; }
      seg.push_back(g[p]);
    }
    std::string tail;
    for (size_t q = pos; q < g.size() && q < pos + 12; q++) tail += g[q] + "\n";
    CHECK(found, "the session does not continue after line " << k + 1 << " '" << ls[k] << "'; output from there:\n" << tail);
    // the echo of the marker
    if (!seg.empty()) seg.pop_back();
    std::string all;
    for (auto& x : seg) all += x + "\n";
    try { check(ex[k], seg); } catch (Failure& f) { fail("line " + num(k + 1) + " '" + ls[k] + "': " + f.msg + "\noutput:\n" + all.substr(0, 3000)); }
    pos = p + 1;
    while (pos < g.size() && g[pos].compare(0, 3, ">> ") != 0) pos++;
  }
  auto fa = contents(A), fb = contents(B);
  for (auto& f : fa) {
    CHECK(fb.count(f.first), "the program does not write file " << f.first);
    CHECK(fb[f.first] == f.second, "file " << f.first << " written by the program differs:\n" << fb[f.first].substr(0, 800) << "\n---- instead of\n" << f.second.substr(0, 800));
  }
  for (auto& f : fb) CHECK(fa.count(f.first), "the program writes file " << f.first);
  if (errors) c.label("with errors");
  if (kinds >= 5 && errors) c.nontrivial();
}

} // namespace C20
PBT_PROPERTY("C20", 8, C20::run, nullptr, "A case is a session of 3 to 60 command lines (valid commands with all argument counts, ids and files from the current session, and malformed, unknown, over- and under-supplied, comment, blank and arbitrary printable lines), given to the real program on standard input; each line's output and all written files are compared with the API driven by the same arguments in this process. Non-trivial: at least five kinds of commands succeed and at least one line is rejected.")
