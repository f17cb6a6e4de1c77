// A small property-based testing engine.
//
// A case is a pure function of a sequence of choices. In random mode the choices come from a
// generator seeded with (VERIF_SEED, property, case number) and are recorded; a failing case is
// shrunk on its choice sequence (delete, zero, lower), each attempt in a forked child so that
// crashes and sanitizer aborts are failures like any other; a replay file is the choice sequence.
// Coverage-guided runs (fuzz_main.hpp) decode libFuzzer's bytes into the same choices.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

typedef uint64_t u64;

struct Failure { std::string msg; };
struct Discard {};

[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }
[[noreturn]] inline void discard() { throw Discard{}; }

inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

const unsigned MAXREC = 1u << 18;
const unsigned MAXHASH = 1u << 20;
const unsigned MAXLAB = 96;

// Shared between the runner and its forked children.
struct Shm {
  u64 cur;           // case being run
  int state;         // 0 running, 1 passed all, 2 failed
  char msg[16384];
  char desc[65536];
  unsigned nrec;
  u64 rec[MAXREC];
  // statistics
  u64 evals, nontrivial, discarded;
  unsigned nlab;
  char labname[MAXLAB][56];
  u64 labcount[MAXLAB];
  unsigned nsamp;
  char samp[8][2048];
  unsigned nhash;
  u64 hash[MAXHASH];
};

enum Mode { RANDOM, REPLAY, BYTES };

class Source {
public:
  Mode mode = RANDOM;
  u64 s = 0;
  const std::vector<u64>* seq = nullptr;
  const uint8_t* bytes = nullptr;
  size_t nbytes = 0, pos = 0;
  Shm* shm = nullptr;
  unsigned n = 0;
  u64 hash = 1469598103934665603ULL;

  // A choice in [0, bound); bound 0 means the full 64-bit range.
  u64 draw(u64 bound) {
    u64 v = 0;
    if (mode == RANDOM) {
      s += 0x9e3779b97f4a7c15ULL;
      u64 z = mix(s);
      v = bound ? (u64)(((unsigned __int128)z * bound) >> 64) : z;
    } else if (mode == REPLAY) {
      v = pos < seq->size() ? (*seq)[pos] : 0;
      pos++;
      if (bound && v >= bound) v = bound - 1;
    } else {
      int k = 0;
      u64 b = bound ? bound - 1 : ~0ULL;
      while (b) { k++; b >>= 8; }
      for (int i = 0; i < k; i++) v = v << 8 | (pos < nbytes ? bytes[pos++] : 0);
      if (bound) v %= bound;
    }
    hash = (hash ^ v) * 1099511628211ULL;
    if (shm) {
      if (n < MAXREC) shm->rec[n] = v;
      shm->nrec = ++n < MAXREC ? n : MAXREC;
    }
    return v;
  }
};

class Case {
public:
  Source& src;
  Shm* shm;
  bool wantDesc = false;
  bool nontrivialFlag = false;
  bool thorough = false;
  std::set<std::string> labels;
  std::ostringstream desc;
  std::string dir; // scratch directory of this shard
  double scale = 0; // scale of this case's values (0: not chosen yet), see scaleOf in common.hpp

  Case(Source& s, Shm* m) : src(s), shm(m) {}

  u64 below(u64 n) { return src.draw(n); }
  int range(int lo, int hi) { return lo + (int)src.draw((u64)(hi - lo) + 1); }
  // True with probability num/den; the simple choice (0) is false.
  bool chance(int num, int den) { return (int)src.draw(den) >= den - num; }
  bool flip() { return src.draw(2) == 1; }
  // A size in [lo, hi], small sizes much more often; simple choice is lo.
  int size(int lo, int hi) {
    int span = hi - lo;
    u64 k = src.draw(8);
    int cap = k < 3 ? span / 16 + 3 : k < 6 ? span / 4 + 3 : span;
    if (cap > span) cap = span;
    return lo + (int)src.draw((u64)cap + 1);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[src.draw(v.size())]; }
  double unit() { return (double)src.draw(1ULL << 53) / 9007199254740992.0; }

  void label(const std::string& s) { labels.insert(s); }
  void nontrivial(bool b = true) { if (b) nontrivialFlag = true; }
};

// Seconds by which the system clock jumps at each reading (see pbt_main.hpp).
extern long long clockStep;

struct Property {
  const char* id;
  const char* rule;    // how cases are made and what makes one non-trivial
  int batch;           // cases per forked child; 1 isolates every case
  void (*run)(Case&);
  void (*setup)(Case&); // called before every case: reset process-wide state
};

extern Property theProperty;

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond, ...) do { if (!(cond)) { std::ostringstream _o; _o << __VA_ARGS__; pbt::fail(_o.str()); } } while (0)
#define DESC(c, ...) do { if ((c).wantDesc) { (c).desc << __VA_ARGS__; if ((c).shm) { std::string _s = (c).desc.str(); snprintf((c).shm->desc, sizeof (c).shm->desc, "%s", _s.c_str()); } } } while (0)

} // namespace pbt

// Defines the property of a harness. When the file is embedded in another harness (C25), nothing
// is defined and the including file calls <namespace>::run itself.
#ifdef PBT_EMBED
#define PBT_PROPERTY(...)
#else
#define PBT_PROPERTY(id, batch, run, setup, rule) \
  pbt::Property pbt::theProperty = {id, rule, batch, run, setup};
#endif
