// Execution of one run: operations go to the real library, checkers look at every transition.
#pragma once
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include "core.hpp"
#include "ref.hpp"

namespace dst {

#define DST_FAULTS(X)                                                                              \
  X(none) X(msg_drop) X(msg_dup) X(msg_delay) X(msg_reorder) X(task_stall) X(task_burst)           \
  X(task_skip) X(clock_jump_fwd) X(clock_jump_back) X(clock_freeze) X(clock_skew) X(crash_restart) \
  X(snapshot_restore) X(alloc_fail) X(log_device_full) X(invalid_config) X(reconfigure)            \
  X(floor_moved) X(teleport) X(state_corrupt) X(preempt)
enum FaultKind : int {
#define X(n) F_##n,
  DST_FAULTS(X)
#undef X
      F_COUNT
};
extern const char *fault_names[];

// deterministic preemption: one thread per job, one runs at a time; the baton moves at seeded memory accesses inside the library
long pre_run(std::vector<std::function<void()>> &jobs, uint64_t seed);

struct Hdr {
  int n = 4;
  bool flt = false;
  uint64_t seed = 0;
};

struct Checker {
  Hdr h;
  bool failed = false;
  std::string cls, msg;
  int at = -1;
  int cur = 0;
  uint64_t evals = 0, nontriv = 0;
  std::map<std::string, uint64_t> probes;
  std::map<std::string, std::string> known;  // known-finding key -> description of the first one seen
  virtual ~Checker() {}
  virtual void begin() {}
  virtual void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) = 0;
  virtual void finish(const std::vector<Op> &ops) { (void)ops; }
  void ok(bool nontrivial = true) {
    evals++;
    if (nontrivial) nontriv++;
  }
  void probe(const char *p) { probes[p]++; }
  __attribute__((format(printf, 3, 4))) void fail(const char *c, const char *fmt, ...) {
    if (failed) return;
    failed = true;
    cls    = c;
    at     = cur;
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    msg = b;
  }
  double eps() const { return h.flt ? (double)FLT_EPSILON : DBL_EPSILON; }
  // comparison helpers
  bool near(const char *c, const char *what, double sut, ref::R want, double extra = 0) {
    if (!std::isfinite(want.v) || !std::isfinite(want.e)) return true;
    if (std::fabs(sut - want.v) <= ref::tol(want) + extra) return true;
    fail(c, "%s: got %.17g, expected %.17g (tolerance %.3g)", what, sut, want.v, ref::tol(want) + extra);
    return false;
  }
  bool near3(const char *c, const char *what, const double *sut, const ref::V &want, double extra = 0) {
    static const char *ax[3] = {"x", "y", "z"};
    for (int i = 0; i < 3; i++)
      if (!near(c, (std::string(what) + "." + ax[i]).c_str(), sut[i], want[i], extra)) return false;
    return true;
  }
  bool same(const char *c, const char *what, const double *a, const double *b, int m) {
    for (int i = 0; i < m; i++)
      if (memcmp(a + i, b + i, 8) != 0 && !(a[i] == b[i])) {
        fail(c, "%s[%d]: %.17g, expected exactly %.17g", what, i, a[i], b[i]);
        return false;
      }
    return true;
  }
};

inline uint64_t step_hash(const Obs &o, const Result &r) {
  uint64_t h = fnv(&o, sizeof o);
  h = fnv(&r.exc, sizeof r.exc, h);
  if (!r.out.empty()) h = fnv(r.out.data(), r.out.size(), h);
  return h;
}

class Exec {
public:
  Hdr h;
  std::vector<std::unique_ptr<Sut>> sut;
  std::vector<Obs> last;
  Checker *ck = nullptr;
  std::vector<Op> ops;
  uint64_t hash = 1469598103934665603ull;
  uint64_t faults[F_COUNT] = {0};
  uint64_t opcount[OP_COUNT] = {0};
  uint64_t excs = 0, switches = 0;
  bool record = true;
  std::function<void(const Op &)> before;  // crash forensics: the operation about to run
  std::function<void(uint64_t)> seen;      // coverage of abstract states / interleavings
  uint64_t gram = 0;
  Result res;

  Exec(const Hdr &hh, int poison = 0xA5, int instances = 1) : h(hh) {
    ref::eps = h.flt ? (double)FLT_EPSILON : DBL_EPSILON;
    for (int i = 0; i < instances; i++) {
      sut.emplace_back(make_sut(h.n, h.flt, poison));
      last.emplace_back();
      if (sut.back()) sut.back()->observe(last.back());
    }
  }
  static int dtclass(double dt) {
    if (!(dt == dt)) return 9;
    if (dt < 0) return 0;
    if (dt == 0) return 1;
    if (dt < 1e-4) return 2;
    if (dt < 0.01) return 3;
    if (dt == 0.01) return 4;
    if (dt < 0.02) return 5;
    if (dt < 0.2) return 6;
    return 7;
  }
  static bool timed(int k) {
    return k == OP_DYN || k == OP_CTRL || k == OP_IMU || k == OP_ODOM || k == OP_DYN_DIRECT || k == OP_IMU_DIRECT ||
           k == OP_ODOM_DIRECT;
  }
  // Operations of one group run on different instances, preempted inside the library (preempt.cpp)
  bool apply_group(std::vector<Op> v) {
    std::vector<Result> rs(v.size());
    std::vector<Obs> pres;
    std::vector<std::function<void()>> jobs;
    for (size_t i = 0; i < v.size(); i++) {
      prep(v[i]);
      pres.push_back(last[v[i].inst]);
      jobs.push_back([this, &v, &rs, i] { sut[v[i].inst]->apply(v[i], rs[i]); });
    }
    switches += pre_run(jobs, v[0].group);
    for (size_t i = 0; i < v.size(); i++) {
      if (v.size() > 1) v[i].fault = F_preempt;
      res = rs[i];
      if (!finish_op(v[i], pres[i])) return false;
    }
    return true;
  }
  void prep(Op &op) {
    if (h.flt)
      for (double &x : op.a) x = (double)(float)x;
    if (op.inst >= (int)sut.size()) op.inst = 0;
    if (before) before(op);
  }
  bool apply(Op op) {
    prep(op);
    res     = Result();
    Obs pre = last[op.inst];
    sut[op.inst]->apply(op, res);
    return finish_op(op, pre);
  }
  bool finish_op(const Op &op, const Obs &pre) {
    Obs &post = last[op.inst];
    sut[op.inst]->observe(post);
    hash = fnv(&post, sizeof post, hash ^ (uint64_t)op.kind * 0x9E3779B97F4A7C15ull ^ (uint64_t)op.inst);
    hash = fnv(&res.exc, sizeof res.exc, hash);
    if (!res.out.empty()) hash = fnv(res.out.data(), res.out.size(), hash);
    faults[op.fault]++;
    if (op.alloc_fail && res.exc == EX_BAD_ALLOC) faults[F_alloc_fail]++;
    opcount[op.kind]++;
    if (res.exc) excs++;
    if (seen) {
      int dc = timed(op.kind) && !op.a.empty() ? dtclass(op.a[0]) : 8;
      gram   = ((gram << 10) | (uint64_t)(op.kind * 10 + dc)) & ((1ull << 40) - 1);
      seen(gram);  // last four (operation, time step class) pairs
      uint64_t st = (uint64_t)post.mode * 1000 + (uint64_t)post.ymode * 500 + (uint64_t)post.armed * 250 +
                    (uint64_t)post.floor_en * 100 + (uint64_t)(post.st.p[2] < post.floor_h ? 50 : 0) +
                    (uint64_t)(post.st.v[0] == 0 && post.st.v[2] == 0 ? 25 : 0) + (uint64_t)res.exc;
      seen((1ull << 60) | (st * 100 + op.kind));
    }
    if (record) ops.push_back(op);
    if (ck && !ck->failed) {
      ck->cur = (int)ops.size() - 1;
      bool may = false;
      if ((op.kind == OP_DYN || op.kind == OP_DYN_DIRECT) && !(op.a[0] > 0) && res.exc == EX_INVALID_ARG) may = true;
      if (op.alloc_fail && res.exc == EX_BAD_ALLOC) may = true;
      if (res.exc && !may)
        ck->fail("unexpected-exception", "operation %s threw (%s)", op_name(op.kind), res.what.c_str());
      else ck->step(op, pre, post, res);
    }
    return !(ck && ck->failed);
  }
  // a recorded operation list, groups included
  bool play(const std::vector<Op> &v) {
    for (size_t i = 0; i < v.size();) {
      size_t j = i + 1;
      if (v[i].group && sut.size() > 1)
        while (j < v.size() && v[j].group == v[i].group && j - i < sut.size()) {
          bool dup = false;
          for (size_t k = i; k < j; k++) dup = dup || v[k].inst == v[j].inst;
          if (dup) break;
          j++;
        }
      bool k = j == i + 1 ? apply(v[i]) : apply_group(std::vector<Op>(v.begin() + i, v.begin() + j));
      if (!k) return false;
      i = j;
    }
    return true;
  }
  void end() {
    if (ck && !ck->failed) {
      ck->cur = (int)ops.size() - 1;
      ck->finish(ops);
    }
  }
};

// Re-execution of an operation list without a checker
struct Replay {
  std::vector<Obs> obs;        // after every operation
  std::vector<Result> res;
  std::vector<uint64_t> hs;    // step_hash after every operation
  uint64_t hash = 0;
};
Replay rexec(const Hdr &h, const std::vector<Op> &ops, int poison, bool keep = true);
// ... which nobody looks at until it has ended
void rexec_quiet(const Hdr &h, const std::vector<Op> &ops, int poison, Obs &o, Result &last);
bool obs_equal(const Obs &a, const Obs &b);                  // bit for bit
std::string obs_diff(const Obs &a, const Obs &b);            // first differing field
bool finite_obs(const Obs &o, double lim);

}  // namespace dst
