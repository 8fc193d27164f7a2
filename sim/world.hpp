// The simulated deployment: a flight computer node running the real library, its periodic tasks on a
// faulty local clock, clients on a lossy link, an operator who reconfigures it, a log device.
#pragma once
#include <queue>
#include "exec.hpp"
#include "gen.hpp"

namespace dst {

struct Profile {
  CfgOpts cfg;
  double p_float = 0.12, p_n6 = 0.12;
  double hor_lo = 0.2, hor_hi = 2.5;  // simulated seconds
  int max_ops   = 400;
  double p_floor = 0.4, p_arm = 0.85;
  bool dyn = true, ctrl = true, imu = true, odom = true;
  double p_log = 0, p_read = 0, p_persist = 0, p_snap = 0;  // probability that the run has that task
  double client = 8;      // client commands per second
  double reconf = 0.5;    // valid reconfigurations per second
  bool lim = false;       // observe the stored PID limits as well
  double badcfg = 0;      // refused reconfigurations per second
  double tele = 0.3;      // teleports / external state changes per second
  double direct = 0;      // direct calls of the components per second
  double sensor = 0.3;    // IMU / odometry administration per second
  double floor = 0.4;     // floor administration per second
  double crash = 0.1;     // cold restarts per second
  bool clock = true;      // clock and task faults
  bool link = true;       // message faults
  bool alloc = false;     // allocation failures
  bool stream = false;    // log device faults
  double backward = 1;    // weight of backward / frozen clocks
  double big = 1;         // weight of long stalls
  double bad_boot = 0;     // probability that a node is started with vehicle parameters the model refuses
  double max_dt = 3;
  double long_dt = 0.004;  // probability that a sensor or control task was held up for long
  bool fp = false;        // fingerprints of hidden state in every observation
  double admin_x = 1;     // multiplies the rate of all administration
  double marathon = 1.0 / 300;  // probability of a run twenty times as long, mostly quiet
};

class World {
public:
  Exec &ex;
  Rng r;
  Gen g;
  Profile pf;
  SimCfg cfg;
  bool nominal = true;
  double now = 0, horizon = 1;
  uint64_t drops = 0, delays = 0, dups = 0, reorders = 0;

  World(Exec &e, uint64_t seed, const Profile &p) : ex(e), r(seed), g(r, e.h.n, e.h.flt), pf(p) {}

  int inst_ = 0;               // the node the workload is talking to
  std::vector<Op> *collect = nullptr;
  bool emit(int kind, std::vector<double> a = {}, int fault = F_none, int = 0, int alloc_fail = 0) {
    Op op;
    op.kind = kind;
    op.inst = inst_;
    op.fault = fault;
    op.alloc_fail = alloc_fail;
    op.t = now;
    op.a = std::move(a);
    if (collect) {
      collect->push_back(op);
      return true;
    }
    if ((int)ex.ops.size() >= pf.max_ops) stop = true;
    bool k = ex.apply(op);
    if (!k) stop = true;
    return k;
  }
  const Obs &obs() const { return ex.last[inst_]; }

  // ------------------------------------------------------------ pieces of workload
  void boot(int fault = F_none) {
    nominal = r.p(pf.cfg.p_nominal);
    cfg     = g.sim(pf.cfg, nominal);
    if (pf.bad_boot > 0 && r.p(pf.bad_boot)) {
      SimCfg c    = cfg;
      c.dyn.model = spoil(c.dyn.model);
      emit(OP_BOOT, flat(c), F_invalid_config);
      return;
    }
    emit(OP_BOOT, flat(cfg), fault);
  }
  std::vector<double> v3(double s) {
    double d[3];
    g.vec(d, s);
    return {d[0], d[1], d[2]};
  }
  std::vector<double> motors() {
    std::vector<double> c(ex.h.n);
    int k = r.i(8);
    double hi = cfg.dyn.model.lmax;
    double b  = r.u(0, hi);
    for (auto &x : c) {
      if (k == 0) x = 0;
      else if (k == 1) x = hi;
      else if (k == 2) x = r.u(-2 * hi, 3 * hi);
      else if (k == 3) x = b;
      else if (k == 4) x = r.sgn() * 1e6;
      else x = r.u(0, hi);
    }
    return c;
  }
  void cat(std::vector<double> &a, const std::vector<double> &b) { a.insert(a.end(), b.begin(), b.end()); }

  struct Msg {
    int kind;
    std::vector<double> a;
  };
  int fav_mode = -1;
  Msg client_msg() {
    const Obs &o = obs();
    int k = r.i(100);
    if (k < 7) return {OP_ARM, {}};
    if (k < 12) return {OP_DISARM, {}};
    if (k < 34) {
      int m = fav_mode >= 0 && r.p(0.5) ? fav_mode : r.i(6);
      int y = r.p(0.7) ? 0 : 1;
      if (r.p(0.2)) { m = (int)o.mode; y = (int)o.ymode; }  // a duplicate of the current mode
      else if (r.p(0.15)) { m = (int)o.mode; y = 1 - (int)o.ymode; }
      return {OP_MODE, {(double)m, (double)y}};
    }
    if (k < 42) return {OP_REF_MOTORS, motors()};
    if (k < 52) {
      std::vector<double> a = {r.p(0.2) ? g.val(5) : cfg.dyn.model.mass * 9.81 * r.u(0.5, 1.5)};
      cat(a, v3(1.5));
      return {OP_REF_ACRO, a};
    }
    if (k < 62) {
      std::vector<double> a = v3(3);
      cat(a, v3(1));
      cat(a, v3(1));
      return {OP_REF_TRAJ, a};
    }
    if (k < 72) return {OP_REF_VEL, v3(2)};
    if (k < 82) {
      if (r.p(0.15)) return {OP_REF_POS, {o.st.p[0], o.st.p[1], o.st.p[2]}};
      return {OP_REF_POS, v3(4)};
    }
    if (k < 91) return {OP_REF_YAW, {g.angle()}};
    return {OP_REF_YAWRATE, {g.val(1)}};
  }
  StateCfg tele_state() {
    const Obs &o = obs();
    StateCfg s = o.st;
    int k = r.i(8);
    if (k == 0) s = g.state(false);
    else if (k == 1) s = g.state(true);
    else if (k == 2) g.vec(s.p, r.p(0.25) ? r.logu(5, 8e3) : 5);
    else if (k == 3) { g.unit(s.q); }
    else if (k == 4) g.vec(s.v, r.p(0.15) ? r.logu(4, 300) : 4);
    else if (k == 5) g.vec(s.w, r.p(0.15) ? r.logu(4, 100) : 4);
    else if (k == 6) s.p[2] = o.floor_h + (r.p(0.3) ? 0.0 : r.p(0.5) ? -r.logu(1e-6, 2) : r.logu(1e-6, 2));
    else for (int i = 0; i < ex.h.n; i++) s.mw[i] = r.u(-500, 3000);
    return s;
  }
  void teleport() {
    StateCfg s = tele_state();
    std::vector<double> a = flat(s);
    a.push_back(r.p(0.6) ? 0 : r.p(0.8) ? 1 : 2);
    emit(OP_TELEPORT, a, F_teleport);
  }
  double any_dt(bool pos = false) {
    int k = r.i(20);
    if (!pos) {
      if (k == 0) return 0;
      if (k == 1) return -r.logu(1e-6, 1);
      if (k == 2) return -0.0;
    }
    if (k == 3) return 0.01;
    if (k == 4) return std::nextafter(0.01, 1);
    if (k == 5) return r.u(0.01, 0.03);
    if (k == 6) return 0.01 * (1 + r.i(12));
    if (k == 7 && pf.big > 0) return r.logu(0.05, 0.8);
    if (k == 8) return r.logu(1e-7, 1e-3);
    return r.logu(1e-4, 0.01);
  }
  void direct() {
    int k = r.i(4);
    if (k <= 1) {
      std::vector<double> a = {any_dt()};
      double e[3] = {0, 0, 0};
      if (r.p(0.6)) g.vec(e, 5 * cfg.dyn.model.mass);
      cat(a, {e[0], e[1], e[2], r.p(0.6) ? 1.0 : 0.0});
      cat(a, motors());
      emit(OP_DYN_DIRECT, a);
    } else if (k == 2) {
      std::vector<double> a = {any_dt()};
      cat(a, v3(5));
      cat(a, v3(2));
      emit(OP_IMU_DIRECT, a);
    } else {
      std::vector<double> a = {any_dt()};
      cat(a, v3(2));
      cat(a, v3(5));
      emit(OP_ODOM_DIRECT, a);
    }
  }
  void sensor_admin() {
    double q[4];
    switch (r.i(9)) {
      case 0: emit(OP_IMU_RESET); break;
      case 1: emit(OP_ODOM_RESET); break;
      case 2: g.unit(q); emit(OP_ODOM_INIT, {q[0], q[1], q[2], q[3]}); break;
      case 3: g.unit(q); emit(OP_IMU_ORI, {q[0], q[1], q[2], q[3]}); break;
      case 4: emit(OP_IMU_SEED, {g.seed()}); break;
      case 5: {
        bool nz = r.p(pf.cfg.p_imu_noise);
        emit(OP_IMU_VAR, {nz ? r.logu(1e-6, 0.1) : 0, nz ? r.logu(1e-6, 0.1) : 0});
        break;
      }
      case 6: {
        bool nz = r.p(pf.cfg.p_imu_noise);
        emit(OP_IMU_CORR, {nz ? r.logu(1e-8, 1e-3) : 0, nz ? r.logu(1e-8, 1e-3) : 0});
        break;
      }
      case 7: {
        std::vector<double> a = v3(0.1);
        cat(a, v3(0.1));
        bool nz = r.p(pf.cfg.p_imu_noise);
        a.push_back(nz ? r.logu(1e-8, 1e-3) : 0);
        a.push_back(nz ? r.logu(1e-8, 1e-3) : 0);
        emit(OP_IMU_BIAS, a);
        break;
      }
      default:
        if (r.p(0.5)) emit(OP_SET_IMU, flat(g.imu(pf.cfg)), F_reconfigure);
        else emit(OP_SET_ODOM, flat(g.odom(pf.cfg, r.p(0.5) ? obs().st.q : nullptr)), F_reconfigure);
    }
  }
  ModelCfg spoil(ModelCfg m) {  // a configuration the model refuses, otherwise as different as possible
    auto neg = [&](double hi) { return -(r.p(0.3) ? r.logu(1e-30, 1e-9) : r.logu(1e-9, hi)); };  // also by a hair
    switch (r.i(9)) {
      case 0: m.mass = neg(10); break;
      case 1:
        if (r.p(0.3)) {  // no negative entry anywhere: coupled too strongly
          double d[3] = {m.I[0], m.I[4], m.I[8]};
          int a = r.i(3), b = (a + 1) % 3;
          for (int i = 0; i < 9; i++) m.I[i] = i % 4 == 0 ? d[i / 4] : 0;
          m.I[3 * a + b] = m.I[3 * b + a] = r.u(1.2, 4) * std::sqrt(d[a] * d[b]);
        } else if (r.p(0.5)) for (int i = 0; i < 9; i++) m.I[i] = -m.I[i];
        else { int j = 4 * r.i(3); m.I[j] = -m.I[j]; }
        break;
      case 2: m.drag = neg(1); break;
      case 3:
        for (int i = 0; i < 9; i++) m.aero[i] = i % 4 == 0 ? -1e-3 : 0;
        if (r.p(0.6)) {
          int a = r.i(3), b = (a + 1) % 3;
          m.aero[0] = m.aero[4] = m.aero[8] = 1e-3;
          if (r.p(0.5)) m.aero[4 * a] = -1e-3;
          else m.aero[3 * a + b] = m.aero[3 * b + a] = r.u(1.2e-3, 5e-3);
        }
        break;
      default: {
        m = to_custom(m);
        int j = r.i(ex.h.n), w = r.i(5);
        if (w == 0) m.motor[j].wmax = m.motor[j].wmin - r.logu(1e-3, 100);
        if (w == 1) m.motor[j].tc = neg(1);
        if (w == 2) m.motor[j].J = neg(1);
        if (w == 3) m.motor[j].kt = neg(1);
        if (w == 4) m.motor[j].kq = neg(1);
      }
    }
    return m;
  }
  ModelCfg to_custom(ModelCfg m) {
    if (m.layout == 0) return m;
    ref::Vehicle v = ref::make_vehicle(m, ex.h.n);
    for (int i = 0; i < ex.h.n; i++) {
      auto &k = m.motor[i];
      k.dir = v.r[i].dir; k.kt = v.r[i].kt; k.kq = v.r[i].kq;
      k.px = v.r[i].pos[0].v; k.py = v.r[i].pos[1].v; k.pz = v.r[i].pos[2].v;
      k.qw = 1; k.qx = k.qy = k.qz = 0;
      k.wmin = v.r[i].wmin; k.wmax = v.r[i].wmax; k.tc = v.r[i].tc; k.J = v.r[i].J;
    }
    m.layout = 0;
    return m;
  }
  void reconfigure(bool bad, int af = 0) {
    int k = r.i(bad ? 1 : 6);
    if (k == 0 || (af && k <= 2)) {
      ModelCfg m = g.model(pf.cfg, nominal);
      if (bad && r.p(0.12)) {  // wrong number of motors
        std::vector<double> a = flat(m);
        int c = r.i(2 * ex.h.n);
        a.push_back(c == ex.h.n ? 2 * ex.h.n : c);
        emit(OP_MODEL_PARAMS, a, F_invalid_config, 0, af);
        return;
      }
      if (bad) m = spoil(m);
      else cfg.dyn.model = m;
      if (!bad && r.p(0.3)) {
        DynCfg d = cfg.dyn;
        d.model  = m;
        d.st     = r.p(0.5) ? obs().st : g.state(r.p(0.5));
        d.seed   = g.seed();
        emit(OP_SET_DYN, flat(d), F_reconfigure, 0, af);
      } else emit(OP_MODEL_PARAMS, flat(m), bad ? F_invalid_config : F_reconfigure, 0, af);
    } else if (k <= 3) {
      CtrlCfg c = g.ctrl(cfg.dyn.model, pf.cfg, nominal);
      std::vector<double> a = flat(c);
      cat(a, flat(cfg.dyn.model));
      if (k == 1) emit(OP_SET_CTRL, a, F_reconfigure, 0, af);
      else if (k == 2) emit(OP_CTRL_PARAMS, a, F_reconfigure);
      else {
        a.insert(a.begin(), (double)r.i(10));
        emit(OP_CTRL_PART, a, F_reconfigure);
      }
    } else if (k == 4) emit(OP_CTRL_RESET, {}, F_reconfigure);
    else emit(OP_MODEL_SWAP, {(double)r.i(3)}, F_reconfigure);
  }
  void floor_admin() {
    const Obs &o = obs();
    int k = r.i(10);
    if (k < 2) emit(OP_FLOOR_OFF);
    else if (k == 2) emit(OP_FLOOR_ON, {0.0});
    else if (k < 6) emit(OP_FLOOR_ON, {o.st.p[2] + (r.p(0.2) ? 0 : r.sgn() * r.logu(1e-5, 1))}, F_floor_moved);
    else if (k < 8) emit(OP_FLOOR_ON, {g.val(r.p(0.2) ? 2e3 : 2)}, F_floor_moved);
    else emit(OP_FLOOR_ON, {-std::fabs(g.val(r.p(0.2) ? 2e3 : 2))}, F_floor_moved);
  }

  // ------------------------------------------------------------ discrete event simulation
  bool stop = false;
  double clk_off = 0, clk_rate = 1, frozen_until = -1, frozen_at = 0;
  double local() const {
    if (now < frozen_until) return frozen_at;
    return clk_off + clk_rate * now;
  }
  struct Task {
    int kind;
    double period, jitter, lastl;
    bool fixed, on;
  };
  Task task[8];
  int ntask = 0;
  enum { EV_TASK, EV_DELIVER, EV_CLIENT, EV_ADMIN, EV_FAULT };
  struct Ev {
    double t;
    uint64_t seq;
    int type, idx;
    Msg m;
    int fault;
    bool operator<(const Ev &o) const { return t != o.t ? t > o.t : seq > o.seq; }
  };
  std::priority_queue<Ev> q;
  uint64_t seq = 0;
  void at(double t, int type, int idx = 0, Msg m = {}, int fault = 0) { q.push({t, seq++, type, idx, std::move(m), fault}); }
  double stall_until = -1;
  bool en_drop, en_dup, en_delay, en_stall, en_jump, en_freeze, en_back;
  double link_drop, link_dup, link_delay;

  void send(const Msg &m) {
    if (pf.link && en_drop && r.p(link_drop)) { drops++; return; }
    double d = 1e-4 + r.expo(1e-3);
    int f = F_none;
    if (pf.link && en_delay && r.p(link_delay)) { d += r.expo(0.15); f = F_msg_delay; }
    at(now + d, EV_DELIVER, 0, m, f);
    if (pf.link && en_dup && r.p(link_dup)) at(now + d + r.expo(0.05), EV_DELIVER, 0, m, F_msg_dup);
  }
  void add_task(int kind, double period) {
    Task &t = task[ntask];
    t.kind = kind;
    t.period = period;
    t.jitter = r.p(0.3) ? 0 : r.u(0, 0.9);
    t.fixed = r.p(0.3);
    t.on = true;
    t.lastl = 0;
    at(r.u(0, period), EV_TASK, ntask);
    ntask++;
  }
  double period() {
    static const double std_p[] = {0.001, 0.002, 0.004, 0.005, 0.01, 0.02};
    return r.p(0.5) ? std_p[r.i(6)] : r.logu(0.0008, 0.03);
  }
  void run_task(int i, int fault = F_none) {
    Task &t   = task[i];
    double l  = local();
    double dt = t.fixed ? t.period : l - t.lastl;
    t.lastl   = l;
    if (t.kind == OP_DYN && dt > pf.max_dt) dt = pf.max_dt;
    if (pf.long_dt > 0 && (t.kind == OP_IMU || t.kind == OP_ODOM || t.kind == OP_CTRL) && r.p(pf.long_dt)) {
      dt    = r.logu(0.3, t.kind == OP_CTRL ? 3 : 20);
      fault = F_task_stall;
    }
    if (dt < 0 && !t.fixed) fault = fault ? fault : F_clock_jump_back;
    switch (t.kind) {
      case OP_DYN:
      case OP_CTRL:
      case OP_IMU:
      case OP_ODOM: emit(t.kind, {dt}, fault); break;
      case OP_LOG: {
        double lim = pf.stream && r.p(0.4) ? (double)r.i(700) : -1;
        emit(OP_LOG, {(double)r.i(10), r.p(0.5) ? 17.0 : 6.0, lim, r.p(0.5) ? 1.0 : 0.0}, lim >= 0 ? F_log_device_full : F_none);
        break;
      }
      case OP_READ: emit(OP_READ); break;
      case OP_PERSIST: emit(OP_PERSIST, {(double)r.i(6)}); break;
      default: break;
    }
  }
  void lost() {  // the vehicle left the useful envelope: recover it by an external state change
    if (r.p(0.7)) {
      StateCfg s = g.state(true);
      std::vector<double> a = flat(s);
      a.push_back(0);
      emit(OP_TELEPORT, a, F_teleport);
      if (!finite_obs(obs(), 1e7)) boot(F_crash_restart);
    } else boot(F_crash_restart);
  }
  virtual ~World() {}
  virtual void on_admin() {
    double tot = pf.reconf + pf.badcfg + pf.tele + pf.direct + pf.sensor + pf.floor + (pf.alloc ? 2.0 : 0);
    double x = r.u(0, tot);
    if ((x -= pf.reconf) < 0) return reconfigure(false);
    if ((x -= pf.badcfg) < 0) return reconfigure(true);
    if ((x -= pf.tele) < 0) return teleport();
    if ((x -= pf.direct) < 0) return direct();
    if ((x -= pf.sensor) < 0) return sensor_admin();
    if ((x -= pf.floor) < 0) return floor_admin();
    reconfigure(r.p(0.2), 1 + r.i(6));
  }
  virtual void on_fault() {
    int k = r.i(10);
    double l = local();
    switch (k) {
      case 0:
      case 1:
        if (en_stall && pf.clock) {
          double d = r.logu(0.02, pf.big > 0 ? 0.7 : 0.1);
          stall_until = now + d;  // every task is late; the next run sees one long step (or a burst)
          stall_burst = r.p(0.3);
          ex.faults[F_task_stall]++;
        }
        break;
      case 2:
        if (en_jump && pf.clock) { clk_off += r.logu(0.005, pf.big > 0 ? 0.8 : 0.05); ex.faults[F_clock_jump_fwd]++; }
        break;
      case 3:
        if (en_back && pf.clock && pf.backward > 0) { clk_off -= r.logu(0.001, 0.3); ex.faults[F_clock_jump_back]++; }
        break;
      case 4:
        if (en_freeze && pf.clock && pf.backward > 0) {
          frozen_at = l;
          frozen_until = now + r.logu(0.005, 0.1);
          ex.faults[F_clock_freeze]++;
        }
        break;
      case 5:
        if (pf.clock) {
          double nr = r.u(0.8, 1.25);
          clk_off += (clk_rate - nr) * now;
          clk_rate = nr;
          ex.faults[F_clock_skew]++;
        }
        break;
      case 6:
        if (pf.clock && ntask) { run_task(r.i(ntask), F_task_burst); }
        break;
      case 7:
        if (pf.clock && ntask) { skip_task = r.i(ntask); ex.faults[F_task_skip]++; }
        break;
      default:
        if (r.p(pf.crash)) {
          boot(F_crash_restart);
          for (int i = 0; i < ntask; i++) task[i].lastl = local();
          after_boot();
        }
    }
  }
  bool stall_burst = false;
  int skip_task = -1;
  virtual void after_boot() {
    if (r.p(pf.p_floor)) emit(OP_FLOOR_ON, {r.p(0.6) ? obs().st.p[2] - r.logu(0.001, 2) : r.p(0.5) ? obs().st.p[2] : g.val(1)});
    if (r.p(pf.p_arm)) emit(OP_ARM);
    if (r.p(0.7)) emit(OP_MODE, {(double)r.i(6), r.p(0.7) ? 0.0 : 1.0});
    if (r.p(0.5)) {
      Msg m = client_msg();
      emit(m.kind, m.a);
    }
  }
  virtual void setup() {
    horizon = r.u(pf.hor_lo, pf.hor_hi);
    if (r.p(pf.marathon)) {
      double q = r.logu(0.01, 1);
      pf.max_ops *= 20;
      horizon = 20 * pf.hor_hi;
      pf.crash *= q; pf.admin_x *= q; pf.client *= q;
      marathon = true;
    }
    if (r.p(0.5)) fav_mode = r.i(6);
    en_drop = r.p(0.5); en_dup = r.p(0.5); en_delay = r.p(0.5); en_stall = r.p(0.5);
    en_jump = r.p(0.4); en_freeze = r.p(0.4); en_back = r.p(0.4);
    link_drop = r.u(0.02, 0.4); link_dup = r.u(0.02, 0.4); link_delay = r.u(0.05, 0.5);
    boot();
    if (stop) return;
    after_boot();
    bool sync = r.p(0.2);
    double p0 = period();
    if (pf.dyn) add_task(OP_DYN, p0);
    if (pf.ctrl && r.p(0.9)) add_task(OP_CTRL, sync ? p0 : period());
    if (pf.imu && r.p(0.8)) add_task(OP_IMU, sync ? p0 : period());
    if (pf.odom && r.p(0.8)) add_task(OP_ODOM, sync ? p0 : period());
    if (r.p(pf.p_log)) add_task(OP_LOG, r.logu(0.01, 0.2));
    if (r.p(pf.p_read)) add_task(OP_READ, r.logu(0.01, 0.2));
    if (r.p(pf.p_persist)) add_task(OP_PERSIST, r.logu(0.02, 0.2));
    if (pf.client > 0) at(r.expo(1 / pf.client), EV_CLIENT);
    at(r.expo(0.3 / pf.admin_x), EV_ADMIN);
    at(r.expo(0.2), EV_FAULT);
    admin_rate = pf.admin_x * (pf.reconf + pf.badcfg + pf.tele + pf.direct + pf.sensor + pf.floor + (pf.alloc ? 2.0 : 0));
    fault_rate = r.logu(0.5, 8) * (marathon ? 0.1 : 1);
  }
  double admin_rate = 1, fault_rate = 2;
  bool marathon = false;
  virtual void simulate() {
    setup();
    double rate_adj = r.logu(0.3, 3);
    while (!stop && !q.empty()) {
      Ev e = q.top();
      q.pop();
      if (e.t > horizon) break;
      now = std::max(now, e.t);
      switch (e.type) {
        case EV_TASK: {
          if (now < stall_until) {  // the node is stalled: the timer fires when it wakes up
            if (stall_burst) {      // missed ticks are all delivered in a burst
              at(stall_until + 1e-9, EV_TASK, e.idx, {}, F_task_burst);
              if (e.idx < 100) at(stall_until + 2e-9, EV_TASK, e.idx + 100, {}, F_task_burst);
              break;
            }
            at(stall_until + r.u(0, 1e-3), EV_TASK, e.idx, {}, F_task_stall);
            break;
          }
          tick(e);
          break;
        }
        case EV_DELIVER: emit(e.m.kind, e.m.a, e.fault); break;
        case EV_CLIENT: {
          int k = r.p(0.2) ? 2 + r.i(3) : 1;  // bursts of commands
          while (k--) send(client_msg());
          at(now + r.expo(1 / pf.client), EV_CLIENT);
          break;
        }
        case EV_ADMIN:
          if (admin_rate > 0) on_admin();
          at(now + r.expo(1 / std::max(1e-3, admin_rate * rate_adj)), EV_ADMIN);
          break;
        case EV_FAULT:
          on_fault();
          at(now + r.expo(1 / fault_rate), EV_FAULT);
          break;
      }
      if (!stop && !finite_obs(obs(), 1e5)) lost();
    }
    ex.faults[F_msg_drop] += drops;
    ex.end();
  }
  void tick(const Ev &e) {
    int i = e.idx % 100;
    bool extra = e.idx >= 100;
    if (skip_task == i) skip_task = -1;
    else run_task(i, e.fault);
    if (!extra) at(now + task[i].period * (1 + task[i].jitter * r.u(-1, 1)), EV_TASK, i);
  }
};

}  // namespace dst
