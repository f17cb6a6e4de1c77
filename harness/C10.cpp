#include "common.hpp"
#ifndef PBT_EMBED
#include "pbt_main.hpp"
#endif
namespace C10 {
using namespace h;

// Model of one sequence object: owns values, or views [start, start+len) of a buffer.
struct Model {
  bool owner = true;
  Row own;
  int buf = -1, start = 0, len = 0, index = 0;
};

struct World {
  std::vector<Row> bufs;                    // model of the shared buffers
  std::vector<std::unique_ptr<data_t[]>> real;
  std::vector<std::unique_ptr<TimeSeries>> obj;
  std::vector<Model> m;
  data_t get(int k, int i) const { return m[k].owner ? m[k].own[i] : bufs[m[k].buf][m[k].start + i]; }
  void set(int k, int i, data_t v) { if (m[k].owner) m[k].own[i] = v; else bufs[m[k].buf][m[k].start + i] = v; }
  // envelopes of views are only promised while their buffer is changed through them alone
  std::vector<int> envValid; // 1: a change through another object may have happened since the last own change
  void changed(int k) {
    envValid[k] = 1;
    if (!m[k].owner) for (size_t j = 0; j < m.size(); j++) if ((int)j != k && !m[j].owner && m[j].buf == m[k].buf) envValid[j] = 0;
  }
};

void run(Case& c) {
  World w;
  int nb = c.range(1, 2);
  for (int b = 0; b < nb; b++) {
    int n = c.range(1, 12);
    Row r = row(c, n, DYADIC);
    w.bufs.push_back(r);
    w.real.emplace_back(new data_t[n]);
    for (int i = 0; i < n; i++) w.real[b][i] = r[i];
  }
  int steps = c.size(3, 40);
  bool assigned = false, envAfter = false, modified = false;
  auto verify = [&](size_t k, const char* when) {
    const TimeSeries& t = *w.obj[k];
    const Model& m = w.m[k];
    CHECK(t.getLength() == m.len, when << ": object " << k << " has length " << t.getLength() << " instead of " << m.len);
    CHECK(t.getStart() == m.start && t.getEnd() == m.start + m.len && t.getIndex() == m.index,
          when << ": object " << k << " reports index " << t.getIndex() << " [" << t.getStart() << "," << t.getEnd() << ")");
    for (int i = 0; i < m.len; i++) CHECK(t[i] == w.get(k, i), when << ": object " << k << " point " << i << " is " << num(t[i]) << " instead of " << num(w.get(k, i)));
  };
  auto addObj = [&](TimeSeries* t, const Model& m) { w.obj.emplace_back(t); w.m.push_back(m); w.envValid.push_back(1); };
  for (int s = 0; s < steps; s++) {
    int n = (int)w.obj.size();
    int op = n == 0 ? (int)c.below(3) : (int)c.below(13);
    if (n > 8 && op < 4) op = 12;
    switch (op) {
      case 0: { // owner of zeros
        int len = c.range(1, 10);
        DESC(c, "new #" << n << " owner len " << len << "\n");
        Model m; m.len = len; m.own = Row(len, 0);
        addObj(new TimeSeries(len), m);
        break;
      }
      case 1: { // view from the beginning of a buffer
        int b = (int)c.below(nb), len = c.range(1, (int)w.bufs[b].size());
        DESC(c, "new #" << n << " view of buffer " << b << " len " << len << "\n");
        Model m; m.owner = false; m.buf = b; m.len = len;
        addObj(new TimeSeries(w.real[b].get(), len), m);
        break;
      }
      case 2: { // view of a range
        int b = (int)c.below(nb), a = (int)c.below(w.bufs[b].size()), e = a + 1 + (int)c.below(w.bufs[b].size() - a), idx = (int)c.below(5);
        DESC(c, "new #" << n << " view of buffer " << b << " [" << a << "," << e << ")\n");
        Model m; m.owner = false; m.buf = b; m.start = a; m.len = e - a; m.index = idx;
        addObj(new TimeSeries(w.real[b].get(), idx, a, e), m);
        break;
      }
      case 3: { // copy
        int k = (int)c.below(n);
        DESC(c, "new #" << n << " copy of #" << k << "\n");
        addObj(new TimeSeries(*w.obj[k]), Model(w.m[k]));
        break;
      }
      case 4: case 5: { // assignment
        int k = (int)c.below(n), j = (int)c.below(n);
        DESC(c, "#" << k << " = #" << j << "\n");
        TimeSeries& src = *w.obj[j];
        *w.obj[k] = src;
        w.m[k] = Model(w.m[j]);
        if (j != k) w.envValid[k] = 1;
        assigned = true;
        c.label(j == k ? "self-assignment" : w.m[j].owner ? "assignment from owner" : "assignment from view");
        break;
      }
      case 6: { // assignment of a temporary
        int k = (int)c.below(n), len = c.range(1, 10);
        Row r = row(c, len, DYADIC);
        DESC(c, "#" << k << " = temporary " << show(r) << "\n");
        if (c.flip()) *w.obj[k] = makeTS(r);
        else { TimeSeries tmp = makeTS(r); *w.obj[k] = std::move(tmp); tmp = TimeSeries(2); }
        Model m; m.len = len; m.own = r;
        w.m[k] = m;
        w.envValid[k] = 1;
        assigned = true;
        c.label("assignment of a temporary");
        break;
      }
      case 7: { // point modification
        int k = (int)c.below(n), i = (int)c.below(w.m[k].len);
        data_t v = value(c, DYADIC);
        DESC(c, "#" << k << "[" << i << "] = " << num(v) << "\n");
        (*w.obj[k])[i] = v;
        w.set(k, i, v);
        w.changed(k);
        modified = true;
        break;
      }
      case 8: { // addition; views that overlap with an offset are not meaningful operands
        int k = (int)c.below(n), j = (int)c.below(n);
        if (!w.m[k].owner && !w.m[j].owner && w.m[k].buf == w.m[j].buf && w.m[k].start != w.m[j].start) break;
        bool ok = w.m[k].len == w.m[j].len;
        DESC(c, "#" << k << " += #" << j << "\n");
        bool threw = throwsOnex([&] { TimeSeries& r = (*w.obj[k] += *w.obj[j]); CHECK(&r == w.obj[k].get(), "+= does not return the sequence"); });
        CHECK(threw == !ok, "addition of lengths " << w.m[k].len << " and " << w.m[j].len << (threw ? " is rejected" : " is accepted"));
        if (ok) {
          Row add;
          for (int i = 0; i < w.m[j].len; i++) add.push_back(w.get(j, i));
          for (int i = 0; i < w.m[j].len; i++) w.set(k, i, w.get(k, i) + add[i]);
          w.changed(k);
          modified = true;
          c.label("addition");
        } else c.label("rejected addition");
        break;
      }
      case 9: case 10: { // envelopes
        int k = (int)c.below(n);
        if (!w.envValid[k]) break;
        // a few requests in any order, each compared at once
        int req = c.range(1, 3), last = -1;
        for (int q0 = 0; q0 < req; q0++) {
          int r = last >= 0 && c.flip() ? last : c.range(0, w.m[k].len + 1);
          bool upper = c.flip();
          last = r;
          DESC(c, (upper ? "upper" : "lower") << " envelope of #" << k << " for band " << r << "\n");
          const data_t* e = upper ? w.obj[k]->getKeoghUpper(r) : w.obj[k]->getKeoghLower(r);
          for (int i = 0; i < w.m[k].len; i++) {
            data_t a = w.get(k, i);
            for (int q = std::max(0, i - r); q <= std::min(w.m[k].len - 1, i + r); q++) a = upper ? std::max(a, w.get(k, q)) : std::min(a, w.get(k, q));
            CHECK(e[i] == a, (upper ? "upper" : "lower") << " envelope of #" << k << " at " << i << " for band " << r << " is " << num(e[i]) << " instead of " << num(a));
          }
        }
        if (assigned || modified) envAfter = true;
        break;
      }
      case 11: { // candidate structures copy their sequence
        int k = (int)c.below(n);
        DESC(c, "candidate of #" << k << "\n");
        onex::candidate_time_series_t a(*w.obj[k], 1), b;
        b = a;
        std::vector<onex::candidate_time_series_t> v(3, a);
        v.push_back(b);
        v.erase(v.begin());
        for (auto& x : v) for (int i = 0; i < w.m[k].len; i++) CHECK(((const TimeSeries&)x.data)[i] == w.get(k, i), "copied candidate differs at point " << i);
        break;
      }
      default: { // destroy
        int k = (int)c.below(n);
        DESC(c, "delete #" << k << " (last becomes #" << k << ")\n");
        std::swap(w.obj[k], w.obj.back());
        std::swap(w.m[k], w.m.back());
        std::swap(w.envValid[k], w.envValid.back());
        w.obj.pop_back();
        w.m.pop_back();
        w.envValid.pop_back();
      }
    }
    for (size_t k = 0; k < w.obj.size(); k++) verify(k, "after the step");
    for (int b = 0; b < nb; b++) for (size_t i = 0; i < w.bufs[b].size(); i++)
      CHECK(w.real[b][i] == w.bufs[b][i], "buffer " << b << " point " << i << " is " << num(w.real[b][i]) << " instead of " << num(w.bufs[b][i]));
  }
  if (envAfter) c.label("envelopes after a change");
  c.nontrivial(envAfter && assigned);
}
} // namespace C10
PBT_PROPERTY("C10", 50, C10::run, h::resetState,
  "3-40 steps over a pool of owning and viewing sequences: construct, copy, assign (self, owner, view, temporary), modify a point, add, envelopes, candidates, destroy; after every step all objects and shared buffers are compared with a model. Non-trivial: an assignment and an envelope request after a change")
