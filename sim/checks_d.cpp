// P14 determinism, P15 isolation, P16 snapshots, P17 passive sensors, P18 reconfiguration,
// P19 rejected time steps, P20 telemetry, P21 convergence, P22 read views
#include <array>
#include <map>
#include <set>
#include <sstream>
#include "law.hpp"
namespace dst {
using namespace ref;
namespace {

// ----------------------------------------------------------------------- parts of an observation
enum Part : unsigned {
  PT_TRUTH = 1, PT_ODOM = 2, PT_IMU = 4, PT_REFS = 8, PT_ACT = 16, PT_EXT = 32, PT_FLAGS = 64, PT_DES = 128, PT_INDI = 256,
  PT_POS = 512, PT_TRAJ = 1024, PT_VEL = 2048, PT_ACRO = 4096, PT_NOISE = 8192, PT_MODEL = 16384, PT_SIDE = 32768,
  PT_FDYN = 1 << 16, PT_FCTRL = 1 << 17, PT_FIMU = 1 << 18, PT_FODOM = 1 << 19, PT_FSIM = 1 << 20
};
constexpr unsigned PT_CTRL = PT_DES | PT_INDI | PT_POS | PT_TRAJ | PT_VEL | PT_ACRO;
struct PartDef {
  unsigned bit;
  const char *name;
  size_t off, len;
};
#define SPAN(bit, name, first, next) {bit, name, offsetof(Obs, first), offsetof(Obs, next) - offsetof(Obs, first)}
const PartDef parts[] = {
    {PT_TRUTH, "true state", offsetof(Obs, st), sizeof(StateCfg)},
    SPAN(PT_ODOM, "odometry", op, gyro),
    SPAN(PT_IMU, "IMU", gyro, rmot),
    SPAN(PT_REFS, "references", rmot, act),
    SPAN(PT_ACT, "motor command", act, ext),
    SPAN(PT_EXT, "external force", ext, armed),
    SPAN(PT_FLAGS, "modes and flags", armed, dmot),
    SPAN(PT_DES, "desired quantities", dmot, indi),
    SPAN(PT_INDI, "rate controller", indi, pos),
    SPAN(PT_POS, "position controller", pos, traj),
    SPAN(PT_TRAJ, "trajectory controller", traj, vel),
    SPAN(PT_VEL, "velocity controller", vel, itorque),
    SPAN(PT_INDI, "rate controller", itorque, acw),
    SPAN(PT_ACRO, "attitude controller", acw, sf),
    SPAN(PT_NOISE, "process noise", sf, mass),
    SPAN(PT_MODEL, "vehicle model", mass, side),
    SPAN(PT_SIDE, "stand-alone PID", side, fp),
    {PT_FDYN, "future of the dynamics", offsetof(Obs, fp), 8},
    {PT_FCTRL, "future of the controller", offsetof(Obs, fp) + 8, 8},
    {PT_FIMU, "future of the IMU", offsetof(Obs, fp) + 16, 8},
    {PT_FODOM, "future of the odometry", offsetof(Obs, fp) + 24, 8},
    {PT_FCTRL, "future of the PID controllers", offsetof(Obs, fp) + 40, 32},
    {PT_FSIM, "future of the vehicle", offsetof(Obs, fp) + 32, 8},
};
std::string part_names(unsigned m) {
  std::string s;
  for (auto &p : parts)
    if ((m & p.bit) && s.find(p.name) == std::string::npos) s += (s.empty() ? "" : ", ") + std::string(p.name);
  return s;
}
unsigned diff_parts(const Obs &a, const Obs &b) {
  unsigned m = 0;
  for (auto &p : parts)
    if (!(m & p.bit) && memcmp((const char *)&a + p.off, (const char *)&b + p.off, p.len)) m |= p.bit;
  return m;
}
Obs masked(const Obs &o, unsigned keep) {
  Obs r;
  memset(&r, 0, sizeof r);
  for (auto &p : parts)
    if (keep & p.bit) memcpy((char *)&r + p.off, (const char *)&o + p.off, p.len);
  return r;
}
uint64_t part_hash(const Obs &o, unsigned keep) {
  uint64_t h = 77;
  for (auto &p : parts)
    if (keep & p.bit) h = fnv((const char *)&o + p.off, p.len, h);
  return h;
}
constexpr unsigned PT_ALL = 0x1FFFFF;

// Everything a run did, kept as hashes; the whole observations are regenerated when they are needed
struct Rec : Checker {
  std::vector<uint64_t> hs;
  std::vector<int> exc;
  void note(const Obs &post, const Result &r) {
    hs.push_back(step_hash(post, r));
    exc.push_back(r.exc);
  }
  // the operations idx[] of the run, executed alone, must show the same observations (parts `keep`)
  bool same_as(const char *cls, const char *what, const std::vector<Op> &ops, const std::vector<int> &idx, unsigned keep, int poison = 0xA5,
               int from = 0) {
    std::vector<Op> sub;
    for (int i : idx) sub.push_back(ops[i]);
    if (keep == PT_ALL) {
      Replay rp = rexec(h, sub, poison, false);
      bool eq = true;
      for (size_t k = from; k < idx.size() && eq; k++) eq = rp.hs[k] == hs[idx[k]];
      if (eq) return true;
    }
    Replay a = rexec(h, ops, 0xA5, true), b = rexec(h, sub, poison, true);
    for (size_t k = from; k < idx.size(); k++) {
      Obs x = masked(a.obs[idx[k]], keep), y = masked(b.obs[k], keep);
      std::string d = obs_diff(x, y);
      bool same_out = a.res[idx[k]].exc == b.res[k].exc && a.res[idx[k]].out == b.res[k].out;
      if (d.empty() && same_out && !(keep == PT_ALL && a.hs[idx[k]] != hs[idx[k]])) continue;
      cur = idx[k];
      if (d.empty() && same_out) d = "the same operations gave another result when repeated";
      else if (d.empty()) d = "another outcome or another log record";
      fail(cls, "%s: after operation %d (%s) %s", what, idx[k], op_name(ops[idx[k]].kind), d.c_str());
      return false;
    }
    return true;
  }
};
std::vector<int> all_but(const std::vector<Op> &ops, const std::function<bool(const Op &, int)> &drop) {
  std::vector<int> v;
  for (int i = 0; i < (int)ops.size(); i++)
    if (!drop(ops[i], i)) v.push_back(i);
  return v;
}

// ======================================================================= P14
struct C14 : Rec {
  struct Seg {
    unsigned keep;
    const char *what;
    std::vector<Op> pre, ops;
    std::vector<Obs> obs;
    bool open = true;
    int at    = 0;
  };
  std::vector<Seg> segs;
  int open_[4] = {-1, -1, -1, -1};  // dynamics, IMU, odometry, controller
  Op lastboot;
  ImuCfg imu;
  std::vector<Obs> nz;  // observations since the last start (for the seeds)
  bool fnoise = false, inoise = false, fpure = true, ipure = true;
  void close(int k) {
    if (open_[k] >= 0) segs[open_[k]].open = false;
    open_[k] = -1;
  }
  void add(int k, const Op &op, const Obs &post) {
    if (open_[k] < 0) return;
    Seg &s = segs[open_[k]];
    if (s.ops.size() >= 40) return close(k);
    s.ops.push_back(op);
    s.obs.push_back(post);
  }
  void start(int k, unsigned keep, const char *what) {
    close(k);
    if (segs.size() >= 12) return;
    segs.push_back(Seg());
    segs.back().keep = keep;
    segs.back().what = what;
    segs.back().at   = cur;
    open_[k]         = (int)segs.size() - 1;
  }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    note(post, r);
    switch (op.kind) {
      case OP_BOOT:
        for (int k = 0; k < 4; k++) close(k);
        lastboot = op;
        imu      = unflat<SimCfg>(op.a).imu;
        fnoise = inoise = false;
        fpure = ipure = true;
        break;
      case OP_SET_DYN:
        fpure = false;
        if (r.exc) { close(0); break; }
        start(0, PT_TRUTH | PT_NOISE | PT_MODEL | PT_FDYN, "a vehicle set up from parameters");
        add(0, op, post);
        break;
      case OP_DYN_DIRECT:
      case OP_TELEPORT:
      case OP_MODEL_PARAMS:
      case OP_MODEL_SWAP:
        add(0, op, post);
        break;
      case OP_DYN:
        close(0);
        if (!r.exc && post.floor_en) { close(1); close(2); }
        if (!r.exc && fpure && (post.sf[0] != 0 || post.sf[1] != 0 || post.sf[2] != 0)) fnoise = true;
        break;
      case OP_SET_IMU:
        ipure = false;
        imu   = unflat<ImuCfg>(op.a);
        start(1, PT_IMU | PT_FIMU, "an IMU set up from parameters");
        add(1, op, post);
        break;
      case OP_IMU_VAR: imu.gv = op.a[0]; imu.av = op.a[1]; add(1, op, post); break;
      case OP_IMU_CORR: imu.gb = op.a[0]; imu.ab = op.a[1]; add(1, op, post); break;
      case OP_IMU_BIAS: imu.gb = op.a[6]; imu.ab = op.a[7]; add(1, op, post); break;
      case OP_IMU_ORI: for (int i = 0; i < 4; i++) imu.q[i] = op.a[i]; add(1, op, post); break;
      case OP_IMU_RESET: add(1, op, post); break;
      case OP_IMU_DIRECT:
        if (ipure && op.a[0] > 0 && (imu.gv > 0 || imu.av > 0)) inoise = true;
        add(1, op, post);
        break;
      case OP_IMU:
        if (ipure && op.a[0] > 0 && (imu.gv > 0 || imu.av > 0)) inoise = true;
        close(1);
        break;
      case OP_IMU_SEED: {
        ipure = false;
        // a second IMU with the same settings and bias, seeded the same way
        start(1, PT_IMU | PT_FIMU, "an IMU that is seeded again");
        if (open_[1] < 0) break;
        Seg &s = segs[open_[1]];
        Op a;
        a.kind = OP_SET_IMU;
        a.a    = flat(imu);
        s.pre.push_back(a);
        a.kind = OP_IMU_BIAS;
        a.a    = {post.gbias[0], post.gbias[1], post.gbias[2], post.abias[0], post.abias[1], post.abias[2], imu.gb, imu.ab};
        s.pre.push_back(a);
        s.pre.push_back(op);
        break;
      }
      case OP_SET_CTRL:
        if (r.exc) break;
        start(3, PT_CTRL | PT_FCTRL, "a controller set up from parameters");
        add(3, op, post);
        close(3);
        break;
      case OP_SET_ODOM:
        start(2, PT_ODOM | PT_FODOM, "an odometry set up from parameters");
        add(2, op, post);
        break;
      case OP_ODOM_DIRECT:
      case OP_ODOM_RESET:
      case OP_ODOM_INIT: add(2, op, post); break;
      case OP_ODOM: close(2); break;
      default: break;
    }
    (void)pre;
  }
  void finish(const std::vector<Op> &ops) override {
    std::vector<int> all;
    for (int i = 0; i < (int)ops.size(); i++) all.push_back(i);
    // the same operations again, in memory with another content
    for (int poison : {0x00, 0xFF, 0x5A}) {
      if (!same_as("nondeterminism", "the same run repeated", ops, all, PT_ALL, poison)) return;
      ok();
    }
    // nothing survives a cold restart
    int lb = -1, boots = 0;
    for (int i = 0; i < (int)ops.size(); i++)
      if (ops[i].kind == OP_BOOT) { lb = i; boots++; }
    if (lb > 0) {
      std::vector<int> tail;
      for (int i = lb; i < (int)ops.size(); i++) tail.push_back(i);
      if (!same_as("restart-leaks", "the life after the last restart, alone", ops, tail, PT_ALL, 0x33)) return;
      ok();
      probe("restart is a clean slate");
    }
    // a component set up anew does not remember the life of its predecessor
    for (auto &s : segs) {
      if (s.ops.size() < (s.keep & PT_FCTRL ? 1u : 2u)) continue;
      std::vector<Op> v;
      v.push_back(ops[0]);
      for (auto &o : s.pre) v.push_back(o);
      size_t off = v.size();
      for (auto &o : s.ops) v.push_back(o);
      Replay rp = rexec(h, v, 0x77, true);
      for (size_t k = 0; k < s.ops.size(); k++) {
        bool first_seeded = !s.pre.empty() && s.ops[k].kind != OP_IMU_DIRECT;
        unsigned keep = s.keep;
        Obs x = masked(s.obs[k], keep), y = masked(rp.obs[off + k], keep);
        if (first_seeded) {  // the last measurement of the old life may still be shown until the next update
          bool any = false;
          for (size_t j = 0; j <= k; j++) any = any || (s.ops[j].kind == OP_IMU_DIRECT && s.ops[j].a[0] > 0) || s.ops[j].kind == OP_IMU_RESET;
          if (!any) for (int i = 0; i < 3; i++) x.gyro[i] = y.gyro[i] = x.accel[i] = y.accel[i] = 0;
        } else if (!s.pre.empty() && !(s.ops[k].a[0] > 0)) {
          bool any = false;
          for (size_t j = 0; j < k; j++) any = any || (s.ops[j].kind == OP_IMU_DIRECT && s.ops[j].a[0] > 0) || s.ops[j].kind == OP_IMU_RESET;
          if (!any) for (int i = 0; i < 3; i++) x.gyro[i] = y.gyro[i] = x.accel[i] = y.accel[i] = 0;
        }
        std::string d = obs_diff(x, y);
        if (!d.empty()) {
          cur = s.at;
          return fail("history-leaks", "%s behaves differently after a long life than when new: step %zu (%s), %s", s.what, k, op_name(s.ops[k].kind), d.c_str());
        }
      }
      ok();
      probe(s.what);
    }
    // another seed gives another noise sequence (a node whose vehicle parameters were refused has none)
    bool refused = lb >= 0 && !ref::valid_model(unflat<SimCfg>(ops[lb].a).dyn.model, h.n);
    if (lb >= 0 && !refused && (fnoise || inoise)) {
      std::vector<Op> v(ops.begin() + lb, ops.end());
      for (int which = 0; which < 2; which++) {
        if (which == 0 ? !fnoise : !inoise) continue;
        std::vector<Op> w = v;
        SimCfg c = unflat<SimCfg>(w[0].a);
        double &sd = which == 0 ? c.dyn.seed : c.imu.seed;
        if (sd >= 1 && sd < 1e6) sd += 1;  // neighbours too
        else sd = h.flt ? (double)(float)(sd > 1e9 ? sd - 3e6 : sd + 3e6) : (sd > 1e9 ? sd - 7919 : sd + 7919);
        w[0].a = flat(c);
        Replay a = rexec(h, v, 0xA5, true), b = rexec(h, w, 0xA5, true);
        bool differ = false;
        for (size_t k = 0; k < v.size() && !differ; k++) {
          if (which == 0) differ = memcmp(a.obs[k].sf, b.obs[k].sf, sizeof a.obs[k].sf) != 0;
          else differ = memcmp(a.obs[k].gyro, b.obs[k].gyro, sizeof a.obs[k].gyro) != 0 || memcmp(a.obs[k].accel, b.obs[k].accel, sizeof a.obs[k].accel) != 0;
        }
        if (!differ) return fail("seed-ignored", "the %s noise is the same for two different seeds", which == 0 ? "process" : "IMU");
        ok();
        probe(which == 0 ? "process noise follows its seed" : "IMU noise follows its seed");
      }
    }
    // no two seeds share a sequence: a few hundred seeds, among them some that differ in one binary digit
    if (lb >= 0 && !refused && h.seed % 15 == 0) {
      Rng q(h.seed * 3 + 1);
      std::set<int> seeds;
      auto whole = [&](int x) { return h.flt ? (int)(float)x : x; };  // operations of a single-precision run carry single-precision numbers
      int base = 2 + (int)(q.u(0, 1) * 2147000000.0);
      for (int k = 0; k < 31; k++) {
        int x = base ^ (int)(1u << k);
        if (x >= 2 && x < 2147000000) seeds.insert(whole(x));
      }
      for (int k = 0; k < 30; k++) seeds.insert(2 + k + 30 * (int)(h.seed / 15 % 100));
      while (seeds.size() < 300) seeds.insert(whole(2 + (int)q.logu(1, 2146000000.0)));
      SimCfg c = unflat<SimCfg>(ops[lb].a);
      std::vector<Op> v = {ops[lb]};
      bool im = h.seed % 30 == 0;
      for (int sd : seeds) {
        Op a, b;
        b.a = {0.01};
        if (im) {
          ImuCfg u = c.imu;
          u.seed = sd;
          u.gv = u.av = 1;
          a.kind = OP_SET_IMU;
          a.a = flat(u);
          b.kind = OP_IMU_DIRECT;
          for (int i = 0; i < 6; i++) b.a.push_back(0);
        } else {
          DynCfg u = c.dyn;
          u.seed = sd;
          u.model.qf = u.model.qm = 1;
          a.kind = OP_SET_DYN;
          a.a = flat(u);
          b.kind = OP_DYN_DIRECT;
          for (int i = 0; i < 3; i++) b.a.push_back(0);
          b.a.push_back(1);
          for (int i = 0; i < MAXN; i++) b.a.push_back(100);
        }
        v.push_back(a);
        v.push_back(b);
      }
      Replay a = rexec(h, v, 0xA5, true);
      std::map<std::array<double, 6>, int> seen;
      int at = 0;
      for (int sd : seeds) {
        const Obs &o = a.obs[2 + 2 * at++];
        std::array<double, 6> k;
        for (int i = 0; i < 3; i++) {
          k[i]     = im ? o.gyro[i] : o.sf[i];
          k[i + 3] = im ? o.accel[i] : o.sm[i];
        }
        auto it = seen.emplace(k, sd);
        if (!it.second)
          return fail("seed-ignored", "the %s noise is the same for the seeds %d and %d", im ? "IMU" : "process", it.first->second, sd);
      }
      ok();
      probe(im ? "300 seeds, 300 IMU noise sequences" : "300 seeds, 300 process noise sequences");
    }
  }
};
struct W14 : World {
  using World::World;
  void on_admin() override {
    if (r.p(0.6)) return World::on_admin();
    int k = r.i(4), m = 2 + r.i(6);
    if (k == 0) {
      DynCfg d = cfg.dyn;
      d.st   = g.state(r.p(0.5));
      d.seed = g.seed();
      if (r.p(0.02)) d.model = spoil(d.model);
      emit(OP_SET_DYN, flat(d), F_reconfigure);
    } else if (k == 1) emit(OP_SET_IMU, flat(g.imu(pf.cfg)), F_reconfigure);
    else if (k == 2) emit(OP_IMU_SEED, {g.seed()}, F_reconfigure);
    else emit(OP_SET_ODOM, flat(g.odom(pf.cfg, nullptr)), F_reconfigure);
    for (int i = 0; i < m && !stop; i++) {
      std::vector<double> a = {any_dt()};
      if (k == 0) {
        cat(a, v3(2));
        a.push_back(r.p(0.8));
        cat(a, motors());
        emit(OP_DYN_DIRECT, a);
      } else {
        cat(a, v3(2));
        cat(a, v3(2));
        emit(k == 3 ? OP_ODOM_DIRECT : OP_IMU_DIRECT, a);
      }
    }
  }
};
Profile p14() {
  Profile p;
  p.fp = true;
  p.cfg.p_noise = 0.7;
  p.cfg.p_imu_noise = 0.7;
  p.max_ops = 160;
  p.hor_hi = 1.2;
  p.p_log = 0.2;
  p.p_read = 0.2;
  p.p_persist = 0.15;
  p.direct = 1;
  p.sensor = 1;
  p.reconf = 1;
  p.badcfg = 0.3;
  p.crash = 0.3;
  p.bad_boot = 0.03;
  p.admin_x = 5;
  return p;
}
RegProp r14({"P14", p14(), mk_checker<C14>, mk_world<W14>, 15000, 375000, 1,
             "A run is one seeded deployment with noise, faults, re-seeding, components set up again and crashes; afterwards the recorded "
             "operations are executed again in memory with three other contents (bit for bit), from the last restart only, with other "
             "seeds, and for every component that was set up or re-seeded in mid-life on a fresh node. An evaluation is one such "
             "comparison of histories; distinct by the hash of operations and observations."});

// ======================================================================= P15
struct C15 : Rec {
  bool group = false;
  void step(const Op &op, const Obs &, const Obs &post, const Result &r) override {
    note(post, r);
    if (op.group) group = true;
  }
  void finish(const std::vector<Op> &ops) override {
    bool two = false;
    for (auto &o : ops) two = two || o.inst == 1;
    if (!two) return;
    for (int k = 0; k < 2; k++) {
      std::vector<int> mine;
      for (int i = 0; i < (int)ops.size(); i++)
        if (ops[i].inst == k) mine.push_back(i);
      std::vector<Op> sub;
      for (int i : mine) sub.push_back(ops[i]);
      Replay rp = rexec(h, sub, 0xA5, false);
      for (size_t j = 0; j < mine.size(); j++)
        if (rp.hs[j] != hs[mine[j]]) {
          cur = mine[j];
          return fail("instances-interfere", "operation %d (%s) of vehicle %d had another effect than it has when the vehicle is alone%s", mine[j],
                      op_name(ops[mine[j]].kind), k, ops[mine[j]].group ? " (interleaved with an operation of the other vehicle)" : "");
        }
      ok(two);
    }
    probe(group ? "runs with preemption inside library calls" : "runs with atomic calls");
  }
};
struct W15 : World {
  using World::World;
  SimCfg cfgs[2];
  bool noms[2];
  void use(int k) {
    if (k == inst_) return;
    cfgs[inst_] = cfg;
    noms[inst_] = nominal;
    inst_   = k;
    cfg     = cfgs[k];
    nominal = noms[k];
  }
  void act() {
    int k = r.i(22);
    double dt = any_dt();
    if (k < 5) emit(OP_DYN, {dt});
    else if (k < 10) emit(OP_CTRL, {dt});
    else if (k < 12) emit(OP_IMU, {dt});
    else if (k < 14) emit(OP_ODOM, {dt});
    else if (k < 17) {
      Msg m = client_msg();
      emit(m.kind, m.a);
    } else if (k == 17) direct();
    else if (k == 18) {
      int what = r.i(collect ? 9 : 10);
      if (collect && what >= 6) what++;
      emit(OP_LOG, {(double)what, r.p(0.5) ? 17.0 : 6.0, -1, 0});
    } else if (k == 19) emit(r.p(0.5) ? OP_READ : OP_PERSIST, {(double)r.i(6)});
    else if (r.p(0.5)) sensor_admin();
    else if (r.p(0.3)) teleport();
    else reconfigure(r.p(0.2));
  }
  void simulate() override {
    bool twins = r.p(0.3);
    for (int k = 0; k < 2 && !stop; k++) {
      use(k);
      if (k == 1 && twins) { cfg = cfgs[0]; nominal = noms[0]; emit(OP_BOOT, flat(cfg)); }
      else boot();
      after_boot();
    }
    int steps = 20 + r.i(60);
    double pg = r.p(0.8) ? r.u(0.2, 0.8) : 0;
    for (int s = 0; s < steps && !stop; s++) {
      now += r.logu(1e-4, 0.02);
      if (r.p(pg)) {
        std::vector<Op> v[2];
        int m = 1 + r.i(3);
        bool same = r.p(0.4);
        for (int k = 0; k < 2; k++) {
          use(k);
          collect = &v[k];
          if (same) {
            int kd = (int)(std::vector<int>{OP_DYN, OP_CTRL, OP_IMU, OP_ODOM})[(size_t)(s % 4)];
            for (int j = 0; j < m; j++) emit(kd, {any_dt(true)});
          } else for (int j = 0; j < m; j++) act();
          collect = nullptr;
        }
        for (size_t j = 0; j < std::max(v[0].size(), v[1].size()) && !stop; j++) {
          std::vector<Op> gr;
          uint64_t gid = r.next() | 1;
          for (int k = 0; k < 2; k++)
            if (j < v[k].size()) {
              gr.push_back(v[k][j]);
              gr.back().group = gid;
            }
          if (gr.size() == 1) gr[0].group = 0;
          bool kk = gr.size() == 1 ? ex.apply(gr[0]) : ex.apply_group(gr);
          if (!kk) stop = true;
        }
      } else {
        use(r.i(2));
        act();
        if (r.p(0.02)) boot(F_crash_restart);
      }
      for (int k = 0; k < 2 && !stop; k++) {
        use(k);
        if (!finite_obs(obs(), 1e5)) lost();
      }
    }
    ex.end();
  }
};
Profile p15() {
  Profile p;
  p.cfg.p_noise = 0.6;
  p.cfg.p_imu_noise = 0.6;
  p.max_ops = 260;
  p.big = 0;
  return p;
}
RegProp r15({"P15", p15(), mk_checker<C15>, mk_world<W15>, 40000, 1000000, 2,
             "A run is two vehicles (30% twins of the same configuration and seeds) in one process whose operations are interleaved by the "
             "seed, most of them also preempted inside library calls at any memory access (one thread per vehicle, exactly one runs, the "
             "seed decides where it is stopped, with a bias to variables with static storage). An "
             "evaluation executes the operations of one vehicle alone and demands bit-identical observations after each. Distinct by the "
             "hash of operations and observations."});

// ======================================================================= P16
struct C16 : Rec {
  struct Slot {
    bool have = false;
    Obs o;
    std::vector<int> eff;
  } slot[3];
  std::vector<int> eff;  // the history the present node should be indistinguishable from
  int restores = 0;
  int last_restore = 0;  // position in eff
  struct Check { std::vector<int> eff; int from; };
  std::vector<Check> todo;
  bool lost = false;
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    note(post, r);
    int i = (int)hs.size() - 1;
    switch (op.kind) {
      case OP_BOOT:
        flush();
        eff.clear();
        eff.push_back(i);
        lost = false;
        break;
      case OP_SNAP:
      case OP_PERSIST: {
        std::string d = obs_diff(pre, post);
        if (!d.empty())
          return fail(op.kind == OP_SNAP ? "snapshot-disturbs" : "copy-disturbs", "%s changed the vehicle it copies: %s", op.kind == OP_SNAP ? "taking a snapshot" : "copying a component out and back", d.c_str());
        ok();
        if (op.kind == OP_PERSIST) { probe("component copied, copy used, put back"); break; }
        Slot &s = slot[(int)op.a[0]];
        s.have = !r.exc;
        if (r.exc) { probe("snapshot failed for lack of memory"); break; }
        s.o    = post;
        s.eff  = eff;
        probe("snapshot");
        break;
      }
      case OP_RESTORE: {
        Slot &s = slot[(int)op.a[0]];
        if (!s.have) break;
        Obs x = masked(post, PT_ALL & ~PT_SIDE), y = masked(s.o, PT_ALL & ~PT_SIDE);
        std::string d = obs_diff(x, y);
        if (!d.empty()) return fail("restore-differs", "a restored vehicle is not the one that was saved: %s", d.c_str());
        ok();
        probe(op.a[1] == 0 ? "restored by copy" : "restored by assignment");
        flush();
        eff = s.eff;
        last_restore = (int)eff.size();
        restores++;
        break;
      }
      default: eff.push_back(i); break;
    }
  }
  void flush() {
    if (restores && (int)eff.size() > last_restore && todo.size() < 6) todo.push_back({eff, last_restore});
    restores = 0;
  }
  void finish(const std::vector<Op> &ops) override {
    flush();
    for (auto &t : todo) {
      if (!same_as("restored-future", "a restored vehicle against one that never went through the snapshot", ops, t.eff, PT_ALL, 0xA5, t.from)) return;
      ok();
      probe("future of a restored vehicle");
    }
  }
};
struct W16 : World {
  using World::World;
  std::vector<Op> after[3];
  bool have[3] = {false, false, false};
  void on_admin() override {
    if (r.p(0.45)) return World::on_admin();
    int k = r.i(3);
    if (!have[k] || r.p(0.4)) {
      int af = r.p(0.15) ? 1 + r.i(3) : 0;
      emit(OP_SNAP, {(double)k, (double)r.i(2)}, F_none, 0, af);
      have[k] = ex.res.exc == 0;
      mark[k] = ex.ops.size();
    } else {
      emit(OP_RESTORE, {(double)k, (double)r.i(2)}, F_snapshot_restore);
      if (r.p(0.4)) {  // live the same life again
        std::vector<Op> v;
        for (size_t i = mark[k]; i < ex.ops.size() && v.size() < 20; i++) {
          int kd = ex.ops[i].kind;
          if (kd == OP_BOOT || kd == OP_SNAP || kd == OP_RESTORE) break;
          v.push_back(ex.ops[i]);
        }
        for (auto &o : v)
          if (!stop) emit(o.kind, o.a, F_none, 0, o.alloc_fail);
      }
    }
  }
  size_t mark[3] = {0, 0, 0};
};
Profile p16() {
  Profile p;
  p.fp = true;
  p.lim = true;
  p.cfg.p_noise = 0.7;
  p.cfg.p_imu_noise = 0.7;
  p.max_ops = 200;
  p.hor_hi = 1.5;
  p.p_persist = 0.4;
  p.direct = 1;
  p.sensor = 1;
  p.reconf = 1;
  p.crash = 0.15;
  p.admin_x = 5;
  return p;
}
RegProp r16({"P16", p16(), mk_checker<C16>, mk_world<W16>, 60000, 1500000, 1,
             "A run is one seeded deployment that is snapshotted (copy or assignment, also with failing allocation) into three slots, lives "
             "on, crashes, and is restored, with components copied out, used and put back. An evaluation checks one snapshot, restore or "
             "copy (bit for bit), or re-executes the equivalent history without any snapshot and compares the whole future. Distinct by "
             "the hash of operations and observations."});

// ======================================================================= P17
bool is_sensor(const Op &o) {
  switch (o.kind) {
    case OP_IMU: case OP_ODOM: case OP_IMU_DIRECT: case OP_ODOM_DIRECT: case OP_SET_IMU: case OP_SET_ODOM: case OP_IMU_SEED: case OP_IMU_VAR:
    case OP_IMU_CORR: case OP_IMU_BIAS: case OP_IMU_ORI: case OP_IMU_RESET: case OP_ODOM_RESET: case OP_ODOM_INIT: return true;
    default: return false;
  }
}
bool is_observer(const Op &o) { return o.kind == OP_READ || o.kind == OP_LOG || o.kind == OP_PERSIST || o.kind == OP_TWIN; }
struct C17 : Rec {
  bool any = false;
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    note(post, r);
    unsigned allowed;
    if (op.kind == OP_IMU || op.kind == OP_IMU_DIRECT || op.kind == OP_SET_IMU || (op.kind >= OP_IMU_SEED && op.kind <= OP_IMU_RESET)) allowed = PT_IMU | PT_FIMU;
    else if (is_sensor(op)) allowed = PT_ODOM | PT_FODOM;
    else if (op.kind == OP_CTRL || (op.kind >= OP_ARM && op.kind <= OP_REF_YAWRATE)) {
      // flight control does not touch the sensors
      unsigned d = diff_parts(pre, post) & (PT_IMU | PT_ODOM | PT_TRUTH | PT_NOISE | PT_MODEL | PT_FDYN | PT_FIMU | PT_FODOM);
      if (d) fail("control-moves-vehicle", "operation %s changed the %s", op_name(op.kind), part_names(d).c_str());
      return;
    } else if (op.kind == OP_DYN || op.kind == OP_DYN_DIRECT) {
      // the vehicle moving does not touch references, modes or controllers
      unsigned d = diff_parts(pre, post) & (PT_REFS | PT_ACT | PT_FLAGS | PT_CTRL | PT_FCTRL | PT_MODEL | (op.kind == OP_DYN_DIRECT ? PT_EXT : 0) |
                                            (op.kind == OP_DYN_DIRECT || !contact_pattern(post) ? PT_IMU | PT_ODOM | PT_FIMU | PT_FODOM : 0));
      if (d) return fail("dynamics-disturbs", "operation %s changed the %s: %s", op_name(op.kind), part_names(d).c_str(), obs_diff(masked(pre, d), masked(post, d)).c_str());
      ok();
      return;
    } else return;
    any = true;
    unsigned d = diff_parts(pre, post) & ~allowed;
    if (d) return fail("sensor-disturbs", "operation %s changed the %s", op_name(op.kind), part_names(d).c_str());
    ok();
  }
  void finish(const std::vector<Op> &ops) override {
    if (!any) return;
    auto idx = all_but(ops, [](const Op &o, int) { return is_sensor(o); });
    if (idx.empty() || idx[0] != 0) return;
    std::vector<Op> sub;
    for (int i : idx) sub.push_back(ops[i]);
    const unsigned keep = PT_ALL & ~(PT_IMU | PT_ODOM | PT_FIMU | PT_FODOM);
    Replay a = rexec(h, ops, 0xA5, true), b = rexec(h, sub, 0xA5, true);
    for (size_t k = 0; k < idx.size(); k++)
      if (part_hash(a.obs[idx[k]], keep) != part_hash(b.obs[k], keep) || a.res[idx[k]].exc != b.res[k].exc) {
        cur = idx[k];
        return fail("sensing-changes-flight", "the flight with its sensors switched on differs from the one without: after operation %d (%s) %s", idx[k],
                    op_name(ops[idx[k]].kind), obs_diff(masked(a.obs[idx[k]], keep), masked(b.obs[k], keep)).c_str());
      }
    ok();
    probe("flight repeated without its sensors");
    // odometry off does not change the IMU
    auto idx2 = all_but(ops, [](const Op &o, int) {
      return o.kind == OP_ODOM || o.kind == OP_ODOM_DIRECT || o.kind == OP_SET_ODOM || o.kind == OP_ODOM_RESET || o.kind == OP_ODOM_INIT;
    });
    sub.clear();
    for (int i : idx2) sub.push_back(ops[i]);
    b = rexec(h, sub, 0xA5, true);
    for (size_t k = 0; k < idx2.size(); k++)
      if (part_hash(a.obs[idx2[k]], PT_IMU | PT_FIMU) != part_hash(b.obs[k], PT_IMU | PT_FIMU)) {
        cur = idx2[k];
        return fail("odometry-changes-imu", "the IMU measures something else when the odometry is switched off: after operation %d (%s) %s", idx2[k],
                    op_name(ops[idx2[k]].kind), obs_diff(masked(a.obs[idx2[k]], PT_IMU | PT_FIMU), masked(b.obs[k], PT_IMU | PT_FIMU)).c_str());
      }
    ok();
  }
};
struct W17 : World {
  using World::World;
  void on_admin() override {
    World::on_admin();
    if (stop || !r.p(0.4)) return;
    // sensors far off: an estimate that ran away, a broken accelerometer, a huge bias
    std::vector<double> a = {r.logu(0.1, 20)};
    double s = r.logu(1, 1e3);
    if (r.p(0.3)) {
      cat(a, v3(s));
      cat(a, v3(5));
      emit(OP_IMU_DIRECT, a);
    } else if (r.p(0.2)) emit(OP_IMU_BIAS, {s, -s, s, -s, s, s, 0, 0});
    else {
      cat(a, v3(5));
      cat(a, v3(s));
      for (int i = 0, m = 1 + r.i(3); i < m && !stop; i++) emit(OP_ODOM_DIRECT, a);
    }
  }
};
Profile p17() {
  Profile p;
  p.fp = true;
  p.cfg.p_noise = 0.5;
  p.cfg.p_imu_noise = 0.6;
  p.max_ops = 250;
  p.hor_hi = 1.5;
  p.sensor = 2;
  p.direct = 1;
  p.reconf = 0.8;
  p.p_floor = 0.5;
  return p;
}
RegProp r17({"P17", p17(), mk_checker<C17>, mk_world<W17>, 15000, 375000, 1,
             "A run is one seeded deployment with IMU and odometry on their own faulty timers, sensor administration, landings and direct "
             "calls. An evaluation checks that one sensor operation touched nothing but its sensor, or repeats the whole flight without any "
             "sensor operation (or without the odometry) and compares truth, commands, controllers, noise (or the IMU) bit for bit. "
             "Distinct by the hash of operations and observations."});

// ======================================================================= P18
struct C18 : Rec {
  Track t;
  bool swapped = false;  // reconfigured since the last dynamics update
  std::vector<int> refused;
  void begin() override { t.n = h.n; }
  bool model_is(const ModelCfg &m, const Obs &o) {
    const char *c = "config-not-applied";
    bool k = same(c, "mass", &o.mass, &m.mass, 1) && same(c, "inertia", o.I, m.I, 9) && same(c, "drag", &o.drag, &m.drag, 1) &&
             same(c, "aerodynamic moment", o.aero, m.aero, 9) && same(c, "gravity", o.g, m.g, 3) && same(c, "force noise", &o.qf, &m.qf, 1) &&
             same(c, "moment noise", &o.qm, &m.qm, 1);
    if (!k) return false;
    Vehicle v = make_vehicle(m, h.n);
    for (int i = 0; i < h.n && !failed; i++) {
      const Rotor &x = v.r[i];
      const MotorCfg &y = o.motor[i];
      same(c, "rotor thrust coefficient", &y.kt, &x.kt, 1);
      same(c, "rotor torque coefficient", &y.kq, &x.kq, 1);
      same(c, "rotor direction", &y.dir, &x.dir, 1);
      same(c, "rotor minimum speed", &y.wmin, &x.wmin, 1);
      same(c, "rotor maximum speed", &y.wmax, &x.wmax, 1);
      same(c, "rotor time constant", &y.tc, &x.tc, 1);
      same(c, "rotor inertia", &y.J, &x.J, 1);
      double pos[3] = {y.px, y.py, y.pz}, ax[3] = {y.qx, y.qy, y.qz};
      double e = 32 * eps();
      near3(c, "rotor position", pos, x.pos, e);
      near3(c, "rotor axis", ax, x.axis, e);
      // what the model derived from it
      V f = x.axis * R(x.kt);
      V tq = cross(x.pos, f) + x.axis * R(x.dir * x.kq);
      near3("mixer-stale", "force mixer", o.mixf + 3 * i, f, e * x.kt);
      near3("mixer-stale", "inertia mixer", o.mixi + 3 * i, x.axis * R(x.dir * x.J), e * x.J);
      near3("mixer-stale", "torque mixer", o.mixt + 3 * i, tq, e * (x.kt + x.kq));
      near("mixer-stale", "vertical force mixer", o.mixv[i], f[2], e * x.kt);
      near3("mixer-stale", "combined mixer (force rows)", o.mix6 + 6 * i, f, e * x.kt);
      near3("mixer-stale", "combined mixer (torque rows)", o.mix6 + 6 * i + 3, tq, e * (x.kt + x.kq));
    }
    return !failed;
  }
  bool pid_is(const char *w, const PidCfg &c, const PidObs &o) {
    const char *k = "config-not-applied";
    std::string s = w;
    ref::Pid e;
    e.init(c, 3);
    double z[3] = {0, 0, 0}, st = e.sat, pr = c.prop != 0;
    if (!same(k, (s + " saturation flag").c_str(), &o.satflag, &st, 1) || !same(k, (s + " upper limit").c_str(), o.par.up, e.sat ? e.c.up : z, 3) ||
        !same(k, (s + " lower limit").c_str(), o.par.lo, e.sat ? e.c.lo : z, 3) ||
        (e.sat && !same(k, (s + " proportional saturation").c_str(), &o.par.prop, &pr, 1)))
      return false;
    return same(k, (s + " kp").c_str(), o.par.kp, c.kp, 3) && same(k, (s + " ki").c_str(), o.par.ki, c.ki, 3) &&
           same(k, (s + " kd").c_str(), o.par.kd, c.kd, 3) && same(k, (s + " anti-windup").c_str(), o.par.aw, c.aw, 3) &&
           same(k, (s + " alpha").c_str(), o.par.alpha, c.alpha, 3) && same(k, (s + " reset flag").c_str(), &o.par.reset, &c.reset, 1);
  }
  bool ctrl_is(const CtrlCfg &c, const Obs &o, int which) {
    const char *k = "config-not-applied";
    auto in = [&](int part, int val) { return which < 0 || which == part || which == val; };
    if (in(0, 5) && !same(k, "controller mass", &o.acmass, &c.amass, 1)) return false;
    if (in(0, 6) && !same(k, "controller gravity", o.acg, c.ag, 3)) return false;
    if (in(0, 7) && !same(k, "attitude gains", o.ackp, c.kprot, 9)) return false;
    if (in(1, 8) && !same(k, "controller inertia", o.iinertia, c.inertia, 9)) return false;
    if (in(1, 9) && c.mixmode == 0 && !same(k, "mixer inverse", o.imix, c.mix, 6 * h.n)) return false;
    if (which < 0 || which == 1) {
      if (!pid_is("rate controller", c.indi, o.indi)) return false;
    }
    if (which < 0 || which == 2) if (!pid_is("position controller", c.pos, o.pos)) return false;
    if (which < 0 || which == 3) if (!pid_is("trajectory controller", c.traj, o.traj)) return false;
    if (which < 0 || which == 4) if (!pid_is("velocity controller", c.vel, o.vel)) return false;
    return true;
  }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    note(post, r);
    judge(op, pre, post, r);
    t.update(op, pre, post, r);
  }
  void judge(const Op &op, const Obs &pre, const Obs &post, const Result &r) {
    unsigned d = diff_parts(pre, post), allowed = PT_ALL;
    const double *a = op.a.data();
    if (op.kind == OP_DYN) {
      DynCall c = dyn_call(t, op, pre);
      if (swapped && !r.exc && c.dt > 0 && !c.unsure && !c.noise && (post.sf[0] != 0 || post.sf[1] != 0 || post.sf[2] != 0))
        return fail("contact-forgotten", "a reconfiguration after a landing made the vehicle forget it: process noise in the update that follows the contact");
      if (swapped && !c.noise) probe("reconfigured between a landing and the next update");
      if (!r.exc && c.dt > 0) swapped = false;
    }
    if (op.kind == OP_BOOT) swapped = false;
    else if (op.kind == OP_MODEL_PARAMS || op.kind == OP_SET_DYN || op.kind == OP_SET_CTRL || op.kind == OP_CTRL_PARAMS || op.kind == OP_SET_IMU ||
             op.kind == OP_SET_ODOM || op.kind == OP_CTRL_PART || op.kind == OP_MODEL_SWAP) swapped = true;
    if (r.exc == EX_BAD_ALLOC) {
      refused.push_back((int)hs.size() - 1);
      if (d) return fail("half-applied", "operation %s failed for lack of memory but changed the %s: %s", op_name(op.kind), part_names(d).c_str(), obs_diff(pre, post).c_str());
      ok();
      probe("reconfiguration failed for lack of memory");
      return;
    }
    if (!r.views_ok && !r.exc && (op.kind == OP_BOOT || op.kind == OP_SET_DYN || op.kind == OP_SET_CTRL || op.kind == OP_SET_IMU || op.kind == OP_SET_ODOM))
      return fail("config-not-applied", "the %s that was set up from parameters does not behave as a new one built from them", r.views_bad.c_str());
    switch (op.kind) {
      case OP_BOOT: {
        SimCfg c = unflat<SimCfg>(op.a);
        if (!same("config-not-applied", "initial state", (const double *)&post.st, (const double *)&c.dyn.st, sizeof(StateCfg) / 8)) return;
        if (!model_is(c.dyn.model, post) || !ctrl_is(c.ctrl, post, -1)) return;
        ok();
        return;
      }
      case OP_MODEL_PARAMS: {
        ModelCfg m = unflat<ModelCfg>(op.a);
        if (!valid_update(op, h.n)) {
          refused.push_back((int)hs.size() - 1);
          if (d) return fail("refused-config-applied", "invalid model parameters changed the %s: %s", part_names(d).c_str(), obs_diff(pre, post).c_str());
          ok();
          probe("refused model parameters");
          return;
        }
        allowed = PT_MODEL | PT_FDYN | PT_FSIM;
        if (!model_is(m, post)) return;
        probe("model parameters applied");
        break;
      }
      case OP_SET_DYN: {
        DynCfg c = unflat<DynCfg>(op.a);
        allowed = PT_MODEL | PT_TRUTH | PT_NOISE | PT_FDYN | PT_FSIM;
        if (!same("config-not-applied", "state", (const double *)&post.st, (const double *)&c.st, sizeof(StateCfg) / 8) || !model_is(c.model, post)) return;
        break;
      }
      case OP_SET_CTRL:
      case OP_CTRL_PARAMS:
        allowed = PT_CTRL | PT_FCTRL | PT_FSIM;
        if (!ctrl_is(unflat<CtrlCfg>(op.a), post, -1)) return;
        break;
      case OP_CTRL_PART: {
        static const unsigned pm[10] = {PT_ACRO, PT_INDI, PT_POS, PT_TRAJ, PT_VEL, PT_ACRO, PT_ACRO, PT_ACRO, PT_INDI, PT_INDI};
        allowed = pm[(int)a[0]] | PT_FCTRL | PT_FSIM;
        if (a[0] >= 5) {  // one value of the part
          Obs e = pre;
          memcpy(e.fp, post.fp, sizeof e.fp);
          if (a[0] == 5) e.acmass = post.acmass;
          if (a[0] == 6) memcpy(e.acg, post.acg, sizeof e.acg);
          if (a[0] == 7) memcpy(e.ackp, post.ackp, sizeof e.ackp);
          if (a[0] == 8) memcpy(e.iinertia, post.iinertia, sizeof e.iinertia);
          if (a[0] == 9) memcpy(e.imix, post.imix, sizeof e.imix);
          std::string x = obs_diff(e, post);
          if (!x.empty()) return fail("config-spills-over", "setting one value of the controller also changed: %s", x.c_str());
        }
        if (!ctrl_is(unflat<CtrlCfg>(op.a, 1), post, (int)a[0])) return;
        break;
      }
      case OP_CTRL_RESET: allowed = PT_CTRL | PT_FCTRL | PT_FSIM; break;
      case OP_TWIN:
        refused.push_back((int)hs.size() - 1);
        if (!r.views_ok) return fail("config-not-in-force", "%s is not what a new vehicle with the reported parameters computes", r.views_bad.c_str());
        if (d) return fail("twin", "comparing with a twin changed the %s", part_names(d).c_str());
        ok();
        probe("compared with a twin built from the reported parameters");
        return;
      case OP_REWRITE:
        refused.push_back((int)hs.size() - 1);
        if (d) return fail("rewrite-acts", "writing the parameters of part %d again as they are changed the %s: %s", (int)a[0], part_names(d).c_str(), obs_diff(pre, post).c_str());
        ok();
        probe("parameters written again as they are");
        return;
      case OP_TELEPORT: {
        allowed = PT_TRUTH | PT_FDYN | PT_FSIM;
        int how = op.a.size() > sizeof(StateCfg) / 8 ? (int)op.a[sizeof(StateCfg) / 8] : 0;
        StateCfg c = unflat<StateCfg>(op.a);
        if (how != 2 && !same("config-not-applied", "state", (const double *)&post.st, (const double *)&c, sizeof(StateCfg) / 8)) return;
        if (how == 2) allowed = 0;
        break;
      }
      case OP_MODEL_SWAP: allowed = 0; break;
      case OP_SET_IMU: {
        ImuCfg c = unflat<ImuCfg>(op.a);
        allowed = PT_IMU | PT_FIMU;
        // a new IMU: what the old one had accumulated is gone
        double z[3] = {0, 0, 0};
        if (!same("config-not-applied", "gyro measurement of the new IMU", post.gyro, z, 3) || !same("config-not-applied", "acceleration measurement of the new IMU", post.accel, z, 3)) return;
        if (c.gv == 0 && !same("config-not-applied", "gyro bias of the new IMU without noise", post.gbias, z, 3)) return;
        if (c.av == 0 && !same("config-not-applied", "acceleration bias of the new IMU without noise", post.abias, z, 3)) return;
        if (!same("config-not-applied", "gyro variance", &post.gvar, &c.gv, 1) || !same("config-not-applied", "accelerometer variance", &post.avar, &c.av, 1)) return;
        break;
      }
      case OP_IMU_SEED: case OP_IMU_CORR: case OP_IMU_ORI: allowed = PT_FIMU; break;
      case OP_IMU_VAR:
        allowed = PT_IMU | PT_FIMU;
        if (!same("config-not-applied", "gyro variance", &post.gvar, a, 1) || !same("config-not-applied", "accelerometer variance", &post.avar, a + 1, 1)) return;
        break;
      case OP_IMU_BIAS: case OP_IMU_RESET: allowed = PT_IMU | PT_FIMU; break;
      case OP_SET_ODOM: {
        OdomCfg c = unflat<OdomCfg>(op.a);
        allowed = PT_ODOM | PT_FODOM;
        for (int i = 0; i < 4; i++)
          if (!near("config-not-applied", "orientation of the new odometry", post.oq[i], R(c.q[i]), 64 * eps())) return;
        break;
      }
      case OP_ODOM_RESET: case OP_ODOM_INIT: allowed = PT_ODOM | PT_FODOM; break;
      default: return;
    }
    if (failed) return;
    if (d & ~allowed)
      return fail("config-spills-over", "operation %s also changed the %s: %s", op_name(op.kind), part_names(d & ~allowed).c_str(),
                  obs_diff(masked(pre, d & ~allowed), masked(post, d & ~allowed)).c_str());
    ok();
    probe("reconfiguration applied to its part only");
  }
  void finish(const std::vector<Op> &ops) override {
    if (refused.empty()) return;
    std::set<int> s(refused.begin(), refused.end());
    auto idx = all_but(ops, [&](const Op &, int i) { return s.count(i) > 0; });
    if (!same_as("refused-config-lingers", "the same life without the reconfigurations that were refused or changed nothing", ops, idx, PT_ALL)) return;
    ok();
    probe("life repeated without the refused reconfigurations");
  }
};
struct TwinWorld : World {
  using World::World;
  void twin_op() {
    std::vector<double> a = {(double)r.i(3)};
    for (int i = 0; i < 9; i++) a.push_back(g.val(3));
    for (int i = 0; i < 2 * MAXN; i++) a.push_back(r.u(-100, 1500));
    a.push_back(r.logu(1e-4, 0.01));
    a.push_back(g.val(3));
    emit(OP_TWIN, a);
  }
};
struct W18 : TwinWorld {
  using TwinWorld::TwinWorld;
  void on_admin() override {
    if (r.p(0.08)) {  // land, be reconfigured on the floor, go on
      emit(OP_FLOOR_ON, {obs().st.p[2] + r.logu(1e-3, 1)}, F_floor_moved);
      emit(OP_DYN, {r.logu(1e-4, 0.01)});
    }
    World::on_admin();
    if (!stop && r.p(0.3)) emit(OP_DYN, {r.logu(1e-4, 0.02)});
    if (!stop && r.p(0.3)) emit(OP_REWRITE, {(double)r.i(11)}, F_reconfigure);
    if (!stop && r.p(0.35)) twin_op();
  }
};
Profile p18() {
  Profile p;
  p.fp = true;
  p.cfg.p_nominal = 0.4;
  p.cfg.p_noise = 0.5;
  p.max_ops = 180;
  p.hor_hi = 1.5;
  p.reconf = 6;
  p.badcfg = 5;
  p.tele = 1.5;
  p.sensor = 2;
  p.floor = 0.5;
  p.alloc = true;
  p.admin_x = 3;
  return p;
}
RegProp r18({"P18", p18(), mk_checker<C18>, mk_world<W18>, 50000, 1250000, 1,
             "A run is one seeded deployment whose operator keeps reconfiguring it in flight: valid, invalid (negative masses, inertias, rotor "
             "limits..., wrong rotor counts) and with the k-th allocation failing. An evaluation checks one reconfiguration: applied completely "
             "(read back, derived mixers recomputed), to its component only, or not at all; or repeats the life without the refused ones. "
             "Distinct by the hash of operations and observations."});

// ======================================================================= P19
struct C19 : Rec {
  std::vector<int> rej;
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    note(post, r);
    bool dyn = op.kind == OP_DYN || op.kind == OP_DYN_DIRECT, imu = op.kind == OP_IMU || op.kind == OP_IMU_DIRECT;
    if (!dyn && !imu) return;
    double dt = h.flt ? (double)(float)op.a[0] : op.a[0];
    if (!(dt <= 0)) {
      if (dyn && r.exc) return fail("valid-step-refused", "a dynamics update of dt=%.17g was refused (%s)", dt, r.what.c_str());
      if (imu && r.exc) return fail("valid-step-refused", "an IMU update of dt=%.17g was refused (%s)", dt, r.what.c_str());
      // noise never repeats, so a measurement or a noise sample that stands still was not taken
      if (imu && pre.gvar > 0 && pre.avar > 0) {
        if (!memcmp(pre.gyro, post.gyro, sizeof pre.gyro) && !memcmp(pre.accel, post.accel, sizeof pre.accel))
          return fail("valid-step-ignored", "an IMU update of dt=%.17g took no measurement", dt);
        ok(false);
      }
      if (op.kind == OP_DYN_DIRECT && op.a[4] != 0 && pre.qf > 0) {
        if (!memcmp(pre.sf, post.sf, sizeof pre.sf)) return fail("valid-step-ignored", "a dynamics update of dt=%.17g drew no noise", dt);
        ok(false);
      }
      if (dt < 1e-8) probe("very short time step accepted");
      return;
    }
    rej.push_back((int)hs.size() - 1);
    if (dyn && r.exc != EX_INVALID_ARG)
      return fail("bad-step-accepted", "a dynamics update of dt=%.17g was not refused with an invalid argument error", dt);
    std::string d = obs_diff(pre, post);
    if (!d.empty()) return fail("rejected-step-acts", "%s with dt=%.17g changed the vehicle: %s", op_name(op.kind), dt, d.c_str());
    ok();
    probe(op.kind == OP_DYN ? "dynamics update" : op.kind == OP_DYN_DIRECT ? "direct dynamics update" : op.kind == OP_IMU ? "IMU update" : "direct IMU update");
    if (pre.floor_en && pre.st.p[2] < pre.floor_h && op.kind == OP_DYN) probe("refused while under the floor");
  }
  void finish(const std::vector<Op> &ops) override {
    if (rej.empty()) return;
    std::set<int> s(rej.begin(), rej.end());
    auto idx = all_but(ops, [&](const Op &, int i) { return s.count(i) > 0; });
    if (idx.empty() || idx[0] != 0) return;
    if (!same_as("rejected-step-lingers", "the same life without the refused updates", ops, idx, PT_ALL)) return;
    ok();
    probe("life repeated without the refused updates");
  }
};
struct W19 : World {
  using World::World;
  double bad_dt() {
    int k = r.i(8);
    if (k == 0) return 0;
    if (k == 1) return -0.0;
    if (k == 2) return -DBL_MIN;
    if (k == 3) return -r.logu(1, 1e6);
    if (k == 4) return -0.01;
    return -r.logu(1e-9, 1);
  }
  void on_admin() override {
    if (r.p(0.3)) return World::on_admin();
    if (r.p(0.35)) floor_admin();  // the floor force must not be left behind
    int m = 1 + r.i(4);
    for (int i = 0; i < m && !stop; i++) {
      double dt = bad_dt();
      if (r.p(0.2)) {
        dt = r.p(0.5) ? r.logu(1e-14, 1e-6) : r.p(0.5) ? r.logu(1e-36, 1e-14) : ex.h.flt ? 1.5e-38 : 3e-308;
        if (r.p(0.5)) { emit(OP_DYN, {dt}, F_task_burst); continue; }
      }
      int k = r.i(6);
      if (k < 3) emit(OP_DYN, {dt}, dt == 0 ? F_clock_freeze : F_clock_jump_back);
      else if (k == 3) {
        std::vector<double> a = {dt};
        cat(a, v3(2));
        a.push_back(r.p(0.5));
        cat(a, motors());
        emit(OP_DYN_DIRECT, a, F_clock_jump_back);
      } else if (k == 4) emit(OP_IMU, {dt}, F_clock_jump_back);
      else {
        std::vector<double> a = {dt};
        cat(a, v3(2));
        cat(a, v3(2));
        emit(OP_IMU_DIRECT, a, F_clock_jump_back);
      }
    }
  }
};
Profile p19() {
  Profile p;
  p.fp = true;
  p.cfg.p_noise = 0.6;
  p.cfg.p_imu_noise = 0.6;
  p.max_ops = 250;
  p.hor_hi = 1.5;
  p.p_floor = 0.6;
  p.floor = 1.5;
  p.direct = 1.5;
  p.tele = 1;
  p.admin_x = 2;
  return p;
}
RegProp r19({"P19", p19(), mk_checker<C19>, mk_world<W19>, 35000, 875000, 1,
             "A run is one seeded deployment on clocks that freeze and jump backwards, with updates asked for zero or negative time (also "
             "under the floor, in mid-flight, directly on the components). An evaluation checks one such update: refused, nothing changed; "
             "or repeats the whole life without them and compares it bit for bit (noise sequences included). Distinct by the hash of "
             "operations and observations."});

// ======================================================================= P20
struct C20 : Rec {
  std::vector<int> logs;
  static void k3(std::vector<std::string> &n, const char *b) {
    for (const char *x : {"_x", "_y", "_z"}) n.push_back(std::string(b) + x);
  }
  static void euler_names(std::vector<std::string> &n) {
    n.push_back("orientation_roll");
    n.push_back("orientation_pitch");
    n.push_back("orientation_yaw");
  }
  struct Field {
    std::string name;
    R v;
    bool ang = false;
  };
  std::vector<Field> expect(const Obs &o, int what) {
    std::vector<Field> f;
    auto v3 = [&](const char *b, const double *d) {
      std::vector<std::string> n;
      k3(n, b);
      for (int i = 0; i < 3; i++) f.push_back({n[i], R(d[i]), false});
    };
    auto eul = [&](const double *q) {
      R a, b, c;
      euler(Q(q), a, b, c);
      std::vector<std::string> n;
      euler_names(n);
      f.push_back({n[0], a, true});
      f.push_back({n[1], b, true});
      f.push_back({n[2], c, true});
    };
    auto kin = [&] {
      v3("position", o.st.p);
      eul(o.st.q);
      v3("linear_velocity", o.st.v);
      v3("angular_velocity", o.st.w);
      v3("linear_acceleration", o.st.a);
      v3("angular_acceleration", o.st.al);
    };
    auto dyn = [&] {
      v3("force", o.st.F);
      v3("torque", o.st.T);
    };
    auto act = [&] {
      for (int i = 0; i < h.n; i++) f.push_back({"motor_" + std::to_string(i) + "_angular_velocity", R(o.st.mw[i]), false});
      for (int i = 0; i < h.n; i++) f.push_back({"motor_" + std::to_string(i) + "_angular_acceleration", R(o.st.ma[i]), false});
    };
    switch (what) {
      case 0: case 6: kin(); dyn(); act(); break;
      case 1: case 7: kin(); break;
      case 2: case 8: dyn(); break;
      case 3: case 9: act(); break;
      default:
        v3("position", o.op);
        eul(o.oq);
        v3("linear_velocity", o.ov);
        v3("angular_velocity", o.ow);
        v3("linear_acceleration", o.oa);
    }
    return f;
  }
  static std::string trim(const std::string &s) {
    size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
  }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    note(post, r);
    if (op.kind != OP_LOG) return;
    logs.push_back((int)hs.size() - 1);
    std::string d = obs_diff(pre, post);
    if (!d.empty()) return fail("logging-disturbs", "writing a log record changed the vehicle: %s", d.c_str());
    int what = (int)op.a[0], prec = (int)op.a[1];
    bool healthy = op.a[2] < 0;
    if (r.out_ref.find("<stream failed") != std::string::npos) return fail("log-fails", "the record could not be written to a healthy device");
    if (!r.views_ok) return fail("log-format", "writing a record changed the number format of the stream: everything written to it afterwards looks different");
    if (healthy && (!r.stream_ok || r.out != r.out_ref)) return fail("log-differs", "two records of the same state differ, or the stream was left failed");
    if (!healthy) {
      if (r.out.size() > r.out_ref.size() || r.out_ref.compare(0, r.out.size(), r.out) != 0)
        return fail("log-corrupt", "what reached the failing device is not a prefix of the record: \"%.200s\"", r.out.c_str());
      if (r.out.size() < r.out_ref.size() && r.stream_ok)
        return fail("log-loss-hidden", "%zu of %zu bytes reached the device and the stream does not report a failure", r.out.size(), r.out_ref.size());
      if (r.out.size() < r.out_ref.size()) probe("record cut by a full device");
    }
    // the record, read back
    if (!finite_state(pre.st, 1e30)) return;
    for (int i = 0; i < 3; i++)
      if (!std::isfinite(pre.op[i]) || !std::isfinite(pre.ov[i]) || !std::isfinite(pre.ow[i]) || !std::isfinite(pre.oa[i])) return;
    double nq = 0, no = 0;
    for (int i = 0; i < 4; i++) { nq += pre.st.q[i] * pre.st.q[i]; no += pre.oq[i] * pre.oq[i]; }
    std::vector<Field> f = expect(pre, what);
    bool named = what == 1 || what == 2 || what == 3 || what == 5 || what == 6;
    std::vector<std::string> tok;
    {
      std::istringstream s(trim(r.out_ref));
      std::string x;
      while (std::getline(s, x, ',')) tok.push_back(trim(x));
    }
    if (tok.size() != f.size()) return fail("log-fields", "record kind %d has %zu fields, expected %zu: \"%.200s\"", what, tok.size(), f.size(), r.out_ref.c_str());
    for (size_t i = 0; i < tok.size(); i++) {
      std::string v = tok[i];
      if (named) {
        size_t c = v.find(':');
        if (c == std::string::npos || trim(v.substr(0, c)) != f[i].name)
          return fail("log-name", "field %zu is \"%s\", expected \"%s: ...\"", i, v.c_str(), f[i].name.c_str());
        v = trim(v.substr(c + 1));
      }
      char *e = nullptr;
      double x = strtod(v.c_str(), &e);
      if (v.empty() || *e) return fail("log-number", "field %zu (%s) is not a number: \"%s\"", i, f[i].name.c_str(), v.c_str());
      if (f[i].ang) {
        double q2 = what == 4 || what == 5 ? no : nq;
        if (!(q2 > 1e-20 && q2 < 1e20) || !(tol(f[i].v) < 0.05)) continue;
      }
      double t = tol(f[i].v) + std::pow(10.0, 1 - prec) * std::fabs(f[i].v.v) * 0.51 + 1e-300;
      double dlt = std::fabs(x - f[i].v.v);
      if (f[i].ang && f[i].name != "orientation_pitch") dlt = std::fabs(std::remainder(x - f[i].v.v, 2 * M_PI));
      if (f[i].ang) t += 1e-3 * std::pow(10.0, 4 - prec > 0 ? 4 - prec : 0) * 0 + std::pow(10.0, 1 - prec) * 4;
      if (dlt > t)
        return fail("log-value", "record kind %d, field %zu (%s) reads %.17g, the state holds %.17g (precision %d)", what, i, f[i].name.c_str(), x, f[i].v.v, prec);
    }
    ok();
    probe(named ? "named record read back" : "CSV record read back");
  }
  void finish(const std::vector<Op> &ops) override {
    if (logs.empty()) return;
    std::set<int> s(logs.begin(), logs.end());
    auto idx = all_but(ops, [&](const Op &, int i) { return s.count(i) > 0; });
    if (idx.empty() || idx[0] != 0) return;
    if (!same_as("logging-changes-flight", "the same flight without logging", ops, idx, PT_ALL)) return;
    ok();
    probe("flight repeated without logging");
  }
};
struct W20 : World {
  using World::World;
  void on_admin() override {
    if (r.p(0.3)) return World::on_admin();
    for (int i = 0, m = 1 + r.i(4); i < m && !stop; i++) {
      int what = r.i(10);
      double lim = r.p(0.4) ? (double)r.i(r.p(0.3) ? 4 : 800) : -1;
      emit(OP_LOG, {(double)what, (double)(std::vector<int>{1, 3, 6, 6, 9, 17, 17, 17})[(size_t)r.i(8)], lim, r.p(0.5) ? 1.0 : 0.0}, lim >= 0 ? F_log_device_full : F_none);
    }
  }
};
Profile p20() {
  Profile p;
  p.fp = true;
  p.max_ops = 200;
  p.hor_hi = 1.5;
  p.p_log = 0.7;
  p.stream = true;
  p.tele = 3;
  p.sensor = 1;
  p.cfg.p_nominal = 0.4;
  p.admin_x = 2;
  return p;
}
RegProp r20({"P20", p20(), mk_checker<C20>, mk_world<W20>, 50000, 1250000, 1,
             "A run is one seeded deployment that logs state, kinematics, dynamics, actuators and odometry (CSV and named) at several "
             "precisions to a device that fills up after a seeded number of bytes, with and without stream exceptions. An evaluation parses "
             "one record back (field count, names, values), checks that a failing device got a prefix and the failure is visible, that "
             "nothing changed, or repeats the flight without logging. Distinct by the hash of operations and observations."});

// ======================================================================= P21
struct C21 : Checker {
  bool run = false;
  double T = 0, need = 0, dt = 0, yawref = 0;
  int expect = OP_CTRL, kind = 0;
  long good = 0;
  double tgt[3], thr = 0, said[3];
  int said_mode = -1;  // the mode the last command was given in
  bool said_yaw = false;
  double yaw_said = 0;
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &) override {
    bool refc = (op.kind == OP_REF_POS && pre.mode == 5) || (op.kind == OP_REF_TRAJ && pre.mode == 3) || (op.kind == OP_REF_VEL && pre.mode == 4);
    if (refc) {
      said_mode = (int)pre.mode;
      for (int i = 0; i < 3; i++) said[i] = op.a[(size_t)i];
    } else if (op.kind == OP_REF_YAW && pre.ymode == 0) {
      said_yaw = true;
      yaw_said = op.a[0];
    } else if (op.kind != OP_NOTE && op.kind != OP_READ) said_mode = -1, said_yaw = false;
    if (op.kind == OP_NOTE) {
      run = false;
      if (!pre.armed || pre.mode == 1 || pre.mode == 2 || pre.ymode != 0) return;
      double lift = pre.rp[2] - pre.floor_h, clear = pre.st.p[2] - pre.floor_h;
      if (pre.floor_en && !(pre.mode == 5 && lift >= 0.28 && clear >= 0)) return;
      double q2 = pre.st.q[1] * pre.st.q[1] + pre.st.q[2] * pre.st.q[2];
      double sp = 0, rt = 0, far = 0;
      for (int i = 0; i < 3; i++) { sp += std::fabs(pre.st.v[i]); rt += std::fabs(pre.st.w[i]); far += std::fabs(pre.st.p[i] - pre.rp[i]); }
      if (2 * std::sqrt(q2) > 0.16 || sp > 1.1 || rt > 0.65) return;
      bool rest = pre.floor_en && clear == 0 && sp == 0 && rt == 0 && q2 < 1e-20;
      for (int i = 0; i < h.n && !rest; i++)
        if (!(pre.st.mw[i] >= 0.3 * pre.motor[i].wmax && pre.st.mw[i] <= 0.7 * pre.motor[i].wmax)) return;
      if (pre.mode == 4) {
        double s = 0;
        for (int i = 0; i < 3; i++) s += std::fabs(pre.rv[i]);
        if (s > 3.65) return;
        memcpy(tgt, said_mode == 4 ? said : pre.rv, sizeof tgt);
        need = 8;
      } else {
        if (far > 12.2 || (pre.mode == 3 && far > 0.95)) return;
        if (pre.mode == 3)
          for (int i = 0; i < 3; i++) if (pre.rv[i] != 0 || pre.ra[i] != 0) return;
        memcpy(tgt, said_mode == 5 || said_mode == 3 ? said : pre.rp, sizeof tgt);
        need = 16;
      }
      R y0 = yaw_of(Q(pre.st.q));
      if (!(std::fabs(pre.ryaw) < 50) || !(std::fabs(std::remainder(y0.v - pre.ryaw, 2 * M_PI)) < 2.6)) return;
      kind = (int)pre.mode;
      yawref = said_yaw ? yaw_said : pre.ryaw;  // what was asked for, whatever the vehicle made of it
      run = true;
      T = 0;
      dt = 0;
      expect = OP_CTRL;
      return;
    }
    if (!run) return;
    if (op.kind == OP_READ || op.kind == OP_LOG || op.kind == OP_IMU || op.kind == OP_ODOM) return;
    if (op.kind != expect || !(op.a[0] >= 0.0009 && op.a[0] <= 0.0031) || (dt && op.a[0] != dt)) { run = false; return; }
    dt = op.a[0];
    expect = expect == OP_CTRL ? OP_DYN : OP_CTRL;
    if (op.kind == OP_DYN) T += dt;
    if (T >= need && op.kind == OP_DYN) judge(post);
  }
  void judge(const Obs &o) {
    const double *x = kind == 4 ? o.st.v : o.st.p;
    double e = 0, sp = 0, rt = 0;
    for (int i = 0; i < 3; i++) {
      e  = std::max(e, std::fabs(x[i] - tgt[i]));
      sp = std::max(sp, std::fabs(o.st.v[i]));
      rt = std::max(rt, std::fabs(o.st.w[i]));
    }
    static const char *nm[] = {"hover", "", "", "trajectory", "velocity", "position"};
    double tl = 0.06;
    if (!(e <= tl))
      return fail("no-convergence", "%.1f s after the last fault the vehicle has not reached its %s reference: error %.4g (limit %.2f)", T, nm[kind], e, tl);
    if (kind != 4 && !(sp <= 0.03)) return fail("no-convergence", "%.1f s after the last fault the vehicle still moves at %.4g m/s (%s)", T, sp, nm[kind]);
    if (!(rt <= 0.02)) return fail("no-convergence", "%.1f s after the last fault the vehicle still turns at %.4g rad/s (%s)", T, rt, nm[kind]);
    R yaw = yaw_of(Q(o.st.q));
    double ye = std::fabs(std::remainder(yaw.v - yawref, 2 * M_PI));
    if (!(ye <= 0.02)) return fail("no-convergence", "%.1f s after the last fault the heading is off by %.4g rad (%s)", T, ye, nm[kind]);
    ok();
    probe(nm[kind]);
    run = false;
  }
};
struct W21 : World {
  using World::World;
  void simulate() override {
    setup();
    if (stop) return ex.end();
    // a short life with faults
    double storm = r.u(0.1, 0.8);
    horizon = storm;
    while (!stop && !q.empty()) {
      Ev e = q.top();
      q.pop();
      if (e.t > horizon || ex.ops.size() > 400) break;
      now = std::max(now, e.t);
      switch (e.type) {
        case EV_TASK:
          if (now < stall_until) at(stall_until + r.u(0, 1e-3), EV_TASK, e.idx, {}, F_task_stall);
          else tick(e);
          break;
        case EV_DELIVER: emit(e.m.kind, e.m.a, e.fault); break;
        case EV_CLIENT: send(client_msg()); at(now + r.expo(1 / pf.client), EV_CLIENT); break;
        case EV_FAULT: on_fault(); at(now + r.expo(1 / fault_rate), EV_FAULT); break;
        default: break;
      }
      if (!stop && !finite_obs(obs(), 1e4)) lost();
    }
    if (stop) return ex.end();
    bool ground = r.p(0.15), far = r.p(0.3), turn = r.p(0.3), watch = r.p(0.2);
    // the faults end: the vehicle is put into a survivable attitude, the controller is told to start over
    StateCfg s = obs().st;
    double yaw = r.u(-M_PI, M_PI), tq[4], q2[4] = {std::cos(yaw / 2), 0, 0, std::sin(yaw / 2)};
    g.small_tilt(tq, r.p(0.5) ? 0 : 0.15);
    Q m = mul(Q(q2), Q(tq));
    s.q[0] = m.w.v; s.q[1] = m.x.v; s.q[2] = m.y.v; s.q[3] = m.z.v;
    for (int i = 0; i < 3; i++) { s.p[i] = r.u(-2, 2); s.v[i] = r.p(0.5) ? 0 : r.u(-0.35, 0.35); s.w[i] = r.p(0.5) ? 0 : r.u(-0.2, 0.2); s.a[i] = s.al[i] = 0; }
    double wh = std::sqrt(cfg.dyn.model.mass * 9.81 / (ex.h.n * cfg.dyn.model.lkt));
    for (int i = 0; i < ex.h.n; i++) { s.mw[i] = wh * r.u(0.85, 1.15); s.ma[i] = 0; }
    if (ground) {
      for (int i = 0; i < 4; i++) s.q[i] = q2[i];
      for (int i = 0; i < 3; i++) s.v[i] = s.w[i] = 0;
      if (r.p(0.7)) for (int i = 0; i < ex.h.n; i++) s.mw[i] = 0;
    }
    std::vector<double> a = flat(s);
    a.push_back(0);
    emit(OP_TELEPORT, a, F_teleport);
    if (ground) emit(OP_FLOOR_ON, {obs().st.p[2]});
    else emit(OP_FLOOR_OFF);
    if (r.p(0.6)) emit(OP_CTRL_RESET);
    if (!obs().armed || r.p(0.5)) emit(OP_ARM);
    static const int modes[] = {5, 5, 4, 3, 0};
    int md = ground ? 5 : modes[r.i(5)];
    emit(OP_MODE, {1, 0});
    emit(OP_MODE, {(double)md, 0});
    if (md == 5 || md == 3) {
      double D = far ? 4 : 1.5;
      std::vector<double> t = {s.p[0] + r.u(-D, D), s.p[1] + r.u(-D, D), s.p[2] + (ground ? r.u(0.3, D) : r.u(-D, D))};
      if (md == 3) {
        for (int i = 0; i < 3; i++) t[i] = s.p[i] + r.u(-0.3, 0.3);
        t.resize(9, 0.0);
        emit(OP_REF_TRAJ, t);
      } else emit(OP_REF_POS, t);
    }
    if (md == 4) { double D = far ? 1.2 : 0.6; emit(OP_REF_VEL, {r.u(-D, D), r.u(-D, D), r.u(-D, D)}); }
    emit(OP_REF_YAW, {yaw + (r.p(0.4) ? 0.0 : r.u(-1, 1) * (turn ? 2.5 : 0.3)) + 2 * M_PI * (r.i(3) - 1)});
    emit(OP_NOTE);
    double dt = r.p(0.5) ? 0.002 : r.u(0.002, 0.003);
    pf.max_ops = 100000;
    int kmax = (int)((md == 4 ? 8.0 : 16.0) / dt) + 3;
    for (int k = 0; k < kmax && !stop; k++) {
      emit(OP_CTRL, {dt});
      emit(OP_DYN, {dt});
      now += dt;
      if (watch && r.p(0.05)) {
        int w = r.i(4);
        if (w == 0) emit(OP_IMU, {dt});
        if (w == 1) emit(OP_ODOM, {dt});
        if (w == 2) emit(OP_READ);
        if (w == 3) emit(OP_LOG, {(double)r.i(4), 8, 0, 0});
      }
    }
    ex.end();
  }
};
Profile p21() {
  Profile p;
  p.cfg.p_nominal = 1;
  p.cfg.p_noise = 0;
  p.cfg.tuned = true;
  p.p_float = 0.1;
  p.p_n6 = 0.15;
  p.reconf = p.tele = p.sensor = p.floor = p.direct = 0;
  p.long_dt = 0;
  p.crash = 0.05;
  p.imu = p.odom = false;
  p.max_ops = 100000;
  return p;
}
RegProp r21({"P21", p21(), mk_checker<C21>, mk_world<W21>, 1500, 37500, 1,
             "A run is one seeded life of a sensibly tuned vehicle under message and clock faults and crashes; then the faults stop, the vehicle "
             "is left in a survivable attitude, gets one reference and is updated at a steady rate. An evaluation checks that within 8 s "
             "(velocity) or 16 s (hover, position, trajectory) of simulated time it has reached reference and heading and is at rest. "
             "Distinct by the hash of operations and observations."});

// ======================================================================= P22
struct C22 : Rec {
  std::vector<int> reads;
  double var[2] = {0, 0};
  bool known = false;
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    note(post, r);
    // the noise variances an IMU reports are those it was given
    if (op.kind == OP_BOOT || op.kind == OP_SET_IMU) {
      ImuCfg c = op.kind == OP_BOOT ? unflat<SimCfg>(op.a).imu : unflat<ImuCfg>(op.a);
      known    = !r.exc;
      var[0] = c.gv, var[1] = c.av;
    } else if (op.kind == OP_IMU_VAR) known = !r.exc, var[0] = op.a[0], var[1] = op.a[1];
    else if (op.kind == OP_RESTORE) known = false;
    double rep[2] = {post.gvar, post.avar};
    if (known && !same("reported-not-in-force", "noise variance of the IMU", rep, var, 2)) return;
    if (!is_observer(op)) return;
    reads.push_back((int)hs.size() - 1);
    std::string d = obs_diff(pre, post);
    if (!d.empty()) return fail("reading-disturbs", "%s changed the vehicle: %s", op_name(op.kind), d.c_str());
    if (op.kind == OP_READ && !r.views_ok) return fail("views-disagree", "two ways of reading the same quantity disagree: %s", r.views_bad.c_str());
    if (op.kind == OP_TWIN && !r.views_ok) return fail("reported-not-in-force", "%s is not what a new vehicle with the parameters read from this one computes", r.views_bad.c_str());
    ok(op.kind == OP_READ);
    if (op.kind == OP_READ) probe("all views read");
    if (op.kind == OP_TWIN) probe("compared with a twin built from what was read");
  }
  void finish(const std::vector<Op> &ops) override {
    if (reads.empty()) return;
    std::set<int> s(reads.begin(), reads.end());
    auto idx = all_but(ops, [&](const Op &, int i) { return s.count(i) > 0; });
    if (idx.empty() || idx[0] != 0) return;
    if (!same_as("reading-changes-flight", "the same flight without anybody reading", ops, idx, PT_ALL)) return;
    ok();
    probe("flight repeated without reads");
    // ... and nobody looking at it at all before a moment of the flight, and before its end
    for (int cut : {(int)(h.seed % idx.size()), (int)idx.size() - 1}) {
      std::vector<Op> sub;
      for (int i = 0; i <= cut; i++) sub.push_back(ops[idx[i]]);
      Obs o;
      Result last;
      rexec_quiet(h, sub, 0xA5, o, last);
      if (step_hash(o, last) == hs[idx[cut]]) { ok(); continue; }
      Replay a = rexec(h, ops, 0xA5, true);
      std::string d = obs_diff(a.obs[idx[cut]], o);
      if (d.empty()) d = "another outcome or another log record";
      cur = idx[cut];
      return fail("looking-changes-flight", "the same flight that nobody looks at until operation %d (%s): %s", idx[cut], op_name(ops[idx[cut]].kind), d.c_str());
    }
    probe("flight repeated unobserved");
  }
};
struct W22 : TwinWorld {
  using TwinWorld::TwinWorld;
  void on_admin() override {
    World::on_admin();
    if (!stop) twin_op();
  }
};
Profile p22() {
  Profile p;
  p.fp = true;
  p.max_ops = 220;
  p.hor_hi = 1.5;
  p.p_read = 1;
  p.p_log = 0.4;
  p.p_persist = 0.3;
  p.sensor = 1;
  p.reconf = 1;
  p.direct = 0.5;
  p.cfg.p_noise = 0.5;
  p.cfg.p_imu_noise = 0.6;
  return p;
}
RegProp r22({"P22", p22(), mk_checker<C22>, mk_world<W22>, 25000, 625000, 1,
             "A run is one seeded deployment with a monitoring task that reads every getter overload (by value, by reference, through the "
             "component, through a copy) at seeded times; an evaluation checks that all views of every quantity agree and that reading "
             "changed nothing, or repeats the flight without the reads. Distinct by the hash of operations and observations."});
}  // namespace
}  // namespace dst
