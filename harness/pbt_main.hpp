// Runner: run | replay | frombytes. Include once, after the property is defined.
#pragma once
#include "pbt.hpp"
#include <chrono>
#include <ctime>

namespace pbt { long long clockStep = 0, clockOffset = 0; }

#ifndef PBT_LIBFUZZER
// The clocks of the library (linked with --wrap): they jump by clockStep seconds at each reading.
typedef std::chrono::system_clock::time_point SystemTime;
typedef std::chrono::steady_clock::time_point SteadyTime;
extern "C" {
SystemTime __real__ZNSt6chrono3_V212system_clock3nowEv();
SteadyTime __real__ZNSt6chrono3_V212steady_clock3nowEv();
SystemTime __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  pbt::clockOffset += pbt::clockStep;
  return __real__ZNSt6chrono3_V212system_clock3nowEv() + std::chrono::seconds(pbt::clockOffset);
}
SteadyTime __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { // this one never goes back
  static long long offset = 0;
  if (pbt::clockStep > 0) offset += pbt::clockStep;
  return __real__ZNSt6chrono3_V212steady_clock3nowEv() + std::chrono::seconds(offset);
}
}
#endif

namespace pbt {

static const int CPU_LIMIT_S = 30; // CPU seconds one case may use (normal cases: milliseconds)

struct Runner {
  Shm* shm;
  u64 seed = 1;
  std::string dir, errfile;
  bool thorough = false;

  Runner() {
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }

  static void armTimer() {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = CPU_LIMIT_S;
    setitimer(ITIMER_PROF, &t, nullptr);
  }

  void bump(const std::string& l) {
    for (unsigned i = 0; i < shm->nlab; i++)
      if (l == shm->labname[i]) { shm->labcount[i]++; return; }
    if (shm->nlab < MAXLAB) {
      snprintf(shm->labname[shm->nlab], sizeof shm->labname[0], "%s", l.c_str());
      shm->labcount[shm->nlab++] = 1;
    }
  }

  // Runs one case in this process. Returns false when it failed (message in shm).
  bool runOne(Source& src, bool stats, bool wantDesc) {
    shm->nrec = 0;
    src.shm = shm;
    src.n = 0;
    shm->msg[0] = 0;
    shm->desc[0] = 0;
    armTimer();
    Case c(src, shm);
    c.thorough = thorough;
    c.dir = dir;
    c.wantDesc = wantDesc || (stats && shm->nsamp < 8 && shm->evals >= (u64)shm->nsamp * 37);
    bool ok = true, disc = false;
    try {
      if (theProperty.setup) theProperty.setup(c);
      theProperty.run(c);
    } catch (Failure& f) {
      snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
      ok = false;
    } catch (Discard&) {
      disc = true;
    } catch (std::exception& e) {
      snprintf(shm->msg, sizeof shm->msg, "unexpected exception: %s", e.what());
      ok = false;
    } catch (...) {
      snprintf(shm->msg, sizeof shm->msg, "unexpected exception of unknown type");
      ok = false;
    }
    if (stats) {
      shm->evals++;
      if (disc) shm->discarded++;
      else if (ok) {
        for (auto& l : c.labels) bump(l);
        if (c.nontrivialFlag) {
          shm->nontrivial++;
          if (shm->nhash < MAXHASH) shm->hash[shm->nhash++] = src.hash;
          if (c.wantDesc && shm->nsamp < 8)
            snprintf(shm->samp[shm->nsamp++], sizeof shm->samp[0], "%s", c.desc.str().c_str());
        }
      }
    }
    return ok;
  }

  Source randomSource(u64 i) {
    Source s;
    s.mode = RANDOM;
    u64 h = 14695981039346656037ULL;
    for (const char* p = theProperty.id; *p; p++) h = (h ^ (u64)*p) * 1099511628211ULL;
    s.s = mix(mix(seed * 1000003 + 17) ^ mix(h) ^ mix(i * 2 + 1));
    return s;
  }

  void childIO() {
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) { dup2(nul, 1); close(nul); }
  }

  std::string crashText(int st) {
    std::ostringstream o;
    if (WIFSIGNALED(st)) {
      o << "killed by signal " << WTERMSIG(st);
      if (WTERMSIG(st) == SIGPROF) o << " (more than " << CPU_LIMIT_S << " s of CPU for one case: does not terminate)";
    } else o << "process exited with status " << WEXITSTATUS(st);
    o << "\n";
    std::ifstream f(errfile);
    std::string line;
    int n = 0;
    while (n < 60 && std::getline(f, line)) { o << "  | " << line << "\n"; n++; }
    return o.str();
  }

  // Runs the sequences in order in one forked child. Returns true when it fails (text in out).
  bool attempt(const std::vector<std::vector<u64>>& seqs, std::string& out, bool wantDesc, std::vector<u64>* recLast = nullptr, double* used = nullptr) {
    struct timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    shm->state = 0;
    shm->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      childIO();
      bool ok = true;
      for (size_t i = 0; i < seqs.size() && ok; i++) {
        Source s;
        s.mode = REPLAY;
        s.seq = &seqs[i];
        shm->cur = i;
        ok = runOne(s, false, wantDesc);
      }
      shm->state = ok ? 1 : 2;
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    clock_gettime(CLOCK_MONOTONIC, &b);
    if (used) *used = (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9;
    if (shm->state == 1) return false;
    out = shm->state == 2 ? std::string(shm->msg) : "crash: " + crashText(st);
    if (recLast) recLast->assign(shm->rec, shm->rec + shm->nrec);
    return true;
  }

  static double now() {
    struct timespec a;
    clock_gettime(CLOCK_MONOTONIC, &a);
    return a.tv_sec + a.tv_nsec * 1e-9;
  }

  // Shrinks the last sequence (prefix sequences are dropped when possible).
  void shrink(std::vector<std::vector<u64>>& seqs, double budget) {
    double end = now() + budget;
    std::string o;
    // drop preceding cases
    for (size_t k = seqs.size() - 1; k >= 1 && now() < end;) {
      for (size_t i = 0; i + k < seqs.size() && now() < end;) {
        auto t = seqs;
        t.erase(t.begin() + i, t.begin() + i + k);
        if (attempt(t, o, false)) seqs = t;
        else i += k;
      }
      if (k == 1) break;
      k /= 2;
    }
    bool progress = true;
    while (progress && now() < end) {
      progress = false;
      auto tryit = [&](const std::vector<u64>& cand) {
        auto t = seqs;
        t.back() = cand;
        std::vector<u64> rec;
        if (now() >= end) return false;
        if (attempt(t, o, false, &rec)) {
          // what was really consumed may be shorter
          if (shm->state == 2 && rec.size() < cand.size()) t.back() = rec;
          seqs = t;
          progress = true;
          return true;
        }
        return false;
      };
      // delete chunks
      for (size_t k = std::max<size_t>(1, seqs.back().size() / 2); k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= seqs.back().size() && now() < end;) {
          auto t = seqs.back();
          t.erase(t.begin() + i, t.begin() + i + k);
          if (!tryit(t)) i += k;
        }
        if (k == 1) break;
      }
      // zero chunks, then lower single values
      for (size_t k = std::max<size_t>(1, seqs.back().size() / 2); k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= seqs.back().size() && now() < end; i += k) {
          auto t = seqs.back();
          bool any = false;
          for (size_t j = i; j < i + k; j++) { any |= t[j] != 0; t[j] = 0; }
          if (any) tryit(t);
        }
        if (k == 1) break;
      }
      for (size_t i = 0; i < seqs.back().size() && now() < end; i++) {
        u64 lo = 0;
        while (i < seqs.back().size() && seqs.back()[i] > lo && now() < end) {
          auto t = seqs.back();
          u64 mid = lo + (t[i] - lo) / 2;
          t[i] = mid;
          if (!tryit(t)) {
            if (lo == mid) break;
            lo = mid;
          }
        }
        // lower a length-like choice together with deleting one later choice
        if (i < seqs.back().size() && seqs.back()[i] > 0 && seqs.back()[i] < 64) {
          for (size_t j = i + 1; j < seqs.back().size() && j < i + 12 && now() < end; j++) {
            auto t = seqs.back();
            t[i]--;
            t.erase(t.begin() + j);
            if (tryit(t)) break;
          }
        }
      }
    }
  }

  void writeReplay(const std::string& path, const std::vector<std::vector<u64>>& seqs, const std::string& text) {
    std::ofstream f(path);
    f << "property " << theProperty.id << "\n";
    for (auto& s : seqs) {
      f << "seq " << s.size();
      for (u64 v : s) f << " " << v;
      f << "\n";
    }
    f << "---\n" << text << "\n";
  }

  static std::vector<std::vector<u64>> readReplay(const std::string& path) {
    std::vector<std::vector<u64>> r;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
      if (line == "---") break;
      std::istringstream is(line);
      std::string w;
      is >> w;
      if (w != "seq") continue;
      size_t n;
      is >> n;
      std::vector<u64> s(n);
      for (auto& v : s) is >> v;
      r.push_back(s);
    }
    return r;
  }

  static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
      else if (ch == '\n') o += "\\n";
      else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
      else o += (char)ch;
    }
    return o + "\"";
  }

  // Handles a failing case known to fail within [seqs]; writes the replay file.
  bool report(std::vector<std::vector<u64>> seqs, const std::string& path, double budget) {
    std::string text;
    // alone first
    std::vector<std::vector<u64>> alone(1, seqs.back());
    if (attempt(alone, text, false)) seqs = alone;
    else if (!attempt(seqs, text, false)) {
      writeReplay(path, seqs, "not reproducible");
      return false;
    }
    shrink(seqs, budget);
    if (!attempt(seqs, text, true)) { writeReplay(path, seqs, "not reproducible"); return false; }
    std::string d = shm->desc;
    writeReplay(path, seqs, text + "\ncase:\n" + d);
    return true;
  }

  int run(u64 cases, u64 shard, u64 shards, const std::string& out, const std::string& replay, double budget) {
    double t0 = now();
    u64 i = shard;
    int failed = 0, flaky = 0;
    std::string text;
    bool truncated = false;
    while (i < cases) {
      if (now() - t0 > budget) { truncated = true; break; }
      u64 first = i;
      shm->state = 0;
      pid_t p = fork();
      if (p == 0) {
        childIO();
        bool ok = true;
        for (int k = 0; k < theProperty.batch && i < cases && ok; k++, i += shards) {
          shm->cur = i;
          Source s = randomSource(i);
          ok = runOne(s, true, false);
        }
        shm->state = ok ? 1 : 2;
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      if (shm->state == 1) {
        for (int k = 0; k < theProperty.batch && i < cases; k++) i += shards;
        continue;
      }
      // failed: collect the choice sequences of the batch up to the failing case
      u64 bad = shm->cur;
      std::vector<u64> lastRec(shm->rec, shm->rec + shm->nrec);
      std::vector<std::vector<u64>> seqs;
      for (u64 j = first; j < bad; j += shards) {
        // record by running it in a child
        shm->state = 0;
        pid_t q = fork();
        if (q == 0) {
          childIO();
          Source s = randomSource(j);
          runOne(s, false, false);
          _exit(0);
        }
        waitpid(q, &st, 0);
        seqs.push_back(std::vector<u64>(shm->rec, shm->rec + shm->nrec));
      }
      seqs.push_back(lastRec);
      if (report(seqs, replay, 40)) {
        failed = 1;
        break;
      }
      flaky++;
      i = bad + shards;
      if (flaky > 5) break;
    }
    std::ofstream f(out);
    f << "{\"evaluations\":" << shm->evals << ",\"nontrivial\":" << shm->nontrivial
      << ",\"discarded\":" << shm->discarded << ",\"failed\":" << failed << ",\"flaky\":" << flaky
      << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"rule\":" << jstr(theProperty.rule)
      << ",\"labels\":{";
    for (unsigned k = 0; k < shm->nlab; k++) f << (k ? "," : "") << jstr(shm->labname[k]) << ":" << shm->labcount[k];
    f << "},\"samples\":[";
    for (unsigned k = 0; k < shm->nsamp; k++) f << (k ? "," : "") << jstr(shm->samp[k]);
    f << "],\"hashes\":[";
    for (unsigned k = 0; k < shm->nhash; k++) f << (k ? "," : "") << shm->hash[k];
    f << "]}\n";
    return failed ? 1 : 0;
  }
};

inline int mainImpl(int argc, char** argv) {
  std::map<std::string, std::string> o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  Runner r;
  r.seed = strtoull(o.count("--seed") ? o["--seed"].c_str() : "1", nullptr, 10);
  r.dir = o["--dir"];
  r.errfile = r.dir + "/stderr.txt";
  r.thorough = o["--tier"] == "thorough";
  if (mode == "run")
    return r.run(strtoull(o["--cases"].c_str(), nullptr, 10), strtoull(o["--shard"].c_str(), nullptr, 10),
                 strtoull(o["--shards"].c_str(), nullptr, 10), o["--out"], o["--replay"],
                 strtod(o.count("--budget") ? o["--budget"].c_str() : "1e9", nullptr));
  if (mode == "replay") {
    auto seqs = Runner::readReplay(o["--file"]);
    if (seqs.empty()) { std::cout << "no case in file\n"; return 2; }
    std::string text;
    bool bad = r.attempt(seqs, text, true);
    std::cout << (bad ? "FAILS: " + text + "\ncase:\n" + r.shm->desc : std::string("passes")) << std::endl;
    return bad ? 1 : 0;
  }
  if (mode == "frombytes") {
    std::ifstream f(o["--file"], std::ios::binary);
    std::string data((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    r.shm->state = 0;
    pid_t p = fork();
    if (p == 0) {
      r.childIO();
      Source s;
      s.mode = BYTES;
      s.bytes = (const uint8_t*)data.data();
      s.nbytes = data.size();
      bool ok = r.runOne(s, false, false);
      r.shm->state = ok ? 1 : 2;
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (r.shm->state == 1) return 0;
    std::vector<std::vector<u64>> seqs(1, std::vector<u64>(r.shm->rec, r.shm->rec + r.shm->nrec));
    return r.report(seqs, o["--replay"], 40) ? 1 : 0;
  }
  std::cerr << "usage: run|replay|frombytes ...\n";
  return 2;
}

} // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static std::string dir = getenv("PBT_DIR") ? getenv("PBT_DIR") : ".";
  pbt::Source s;
  s.mode = pbt::BYTES;
  s.bytes = data;
  s.nbytes = size;
  pbt::Case c(s, nullptr);
  c.dir = dir;
  c.thorough = true;
  try {
    if (pbt::theProperty.setup) pbt::theProperty.setup(c);
    pbt::theProperty.run(c);
  } catch (pbt::Failure& f) {
    fprintf(stderr, "FAILED: %s\n", f.msg.c_str());
    __builtin_trap();
  } catch (pbt::Discard&) {
  }
  return 0;
}
#else
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
#endif
