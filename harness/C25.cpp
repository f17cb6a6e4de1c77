// The checks of the other properties, in a single-precision build.
#define PBT_EMBED
#include "C01.cpp"
#include "C02.cpp"
#include "C03.cpp"
#include "C04.cpp"
#include "C05.cpp"
#include "C06.cpp"
#include "C07.cpp"
#include "C08.cpp"
#include "C09.cpp"
#include "C10.cpp"
#include "C11.cpp"
#include "C12.cpp"
#include "C13.cpp"
#include "C14.cpp"
#include "C15.cpp"
#include "C16.cpp"
#include "C17.cpp"
#include "C18.cpp"
#include "C19.cpp"
#include "C23.cpp"
#include "C27.cpp"
#include "C24.cpp"
#undef PBT_EMBED
#include "pbt_main.hpp"
namespace C25 {

static_assert(sizeof(onex::data_t) == sizeof(float), "not a single-precision build");

struct Part { const char* name; void (*run)(pbt::Case&); int weight; };
const Part parts[] = {
  {"loading", C01::run, 4}, {"rejected loads", C02::run, 4}, {"saving", C03::run, 4}, {"normalization", C04::run, 4}, {"PAA", C05::run, 4},
  {"subsequences", C06::run, 2}, {"euclidean", C07::run, 3}, {"warped distance", C08::run, 4}, {"bounds and envelopes", C09::run, 4}, {"sequence objects", C10::run, 4},
  {"partition", C11::run, 2}, {"threshold", C12::run, 4}, {"genuine matches", C13::run, 4}, {"best matches", C14::run, 4}, {"match or error", C15::run, 4},
  {"group files", C16::run, 3}, {"rejected group files", C17::run, 1}, {"sessions", C18::run, 1}, {"stale groups", C19::run, 3}, {"candidates", C23::run, 1},
  {"lengths", C27::run, 3}, {"UCR search", C24::run, 3},
};

void run(pbt::Case& c) {
  int total = 0;
  for (auto& p : parts) total += p.weight;
  int k = (int)c.below(total);
  for (auto& p : parts) {
    if (k >= p.weight) { k -= p.weight; continue; }
    DESC(c, "single precision, " << p.name << ":\n");
    c.label(std::string("part: ") + p.name);
    p.run(c);
    // labels of the part are not needed here
    for (auto it = c.labels.begin(); it != c.labels.end();) it = it->compare(0, 5, "part:") ? c.labels.erase(it) : std::next(it);
    return;
  }
}
} // namespace C25
pbt::Property pbt::theProperty = {"C25",
  "cases of the checks of all other library properties (loading, saving, normalization, PAA, subsequences, distances, envelopes, grouping, matching, group files, sessions, UCR search) in a single-precision build under address and undefined-behaviour sanitizers, with tolerances of single precision. Non-trivial: as stated there",
  12, C25::run, h::resetState};
