// P07 references and modes, P08 control cascade, P09 PID, P10 control allocation
#include "track.hpp"
namespace dst {
using namespace ref;
namespace {

double wrap(double a) { return std::remainder(a, 2 * M_PI); }
// an angle that only has to be right modulo a turn; near the poles yaw is not defined
bool yaw_near(Checker &c, const char *cls, const char *what, double got, R want, double scale) {
  if (!std::isfinite(want.v) || !(tol(want) < 0.05)) return true;
  double t = tol(want) + 64 * c.eps() * (4 + std::fabs(got) + scale);
  if (std::fabs(wrap(got - want.v)) <= t) return true;
  c.fail(cls, "%s: got %.17g rad, expected %.17g rad (tolerance %.3g)", what, got, want.v, t);
  return false;
}

// ======================================================================= P07
struct C07 : Checker {
  struct Reg {
    double armed = 0, mode = 1, ymode = 0, fen = 0, fh = 0;
    double rmot[MAXN] = {0}, rthr = 0, rw[3] = {0}, rp[3] = {0}, rv[3] = {0}, ra[3] = {0}, ryaw = 0, ryr = 0;
  } s;
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    const double *a = op.a.data();
    bool adopt = false;
    auto set = [](double *d, const double *x) { for (int i = 0; i < 3; i++) d[i] = x[i]; };
    auto zero = [](double *d) { d[0] = d[1] = d[2] = 0; };
    switch (op.kind) {
      case OP_BOOT: s = Reg(); break;
      case OP_ARM:
        s.armed = 1;
        s.rthr  = h.flt ? (double)9.81f : 9.81;
        zero(s.rw);
        s.rp[2] = s.fh;
        break;
      case OP_DISARM: s.armed = 0; break;
      case OP_FLOOR_ON: s.fen = 1; s.fh = a[0]; break;
      case OP_FLOOR_OFF: s.fen = 0; break;
      case OP_MODE:
        if (s.mode == a[0] && s.ymode == a[1]) { probe("same mode again"); break; }
        if (s.mode == a[0]) probe("only the yaw mode changes");
        s.mode  = a[0];
        s.ymode = a[1];
        set(s.rp, pre.st.p);
        zero(s.rv);
        zero(s.ra);
        zero(s.rw);
        s.rthr = 0;
        if (finite_state(pre.st, 1e12)) {
          if (!yaw_near(*this, "mode-yaw", "yaw reference after the mode switch (the current heading)", post.ryaw, yaw_of(Q(pre.st.q)), 0)) return;
        }
        adopt = true;
        probe("mode switch");
        break;
      case OP_REF_MOTORS: for (int i = 0; i < h.n; i++) s.rmot[i] = a[i]; break;
      case OP_REF_ACRO: s.rthr = a[0]; set(s.rw, a + 1); break;
      case OP_REF_TRAJ: set(s.rp, a); set(s.rv, a + 3); set(s.ra, a + 6); break;
      case OP_REF_VEL: set(s.rv, a); break;
      case OP_REF_POS: set(s.rp, a); break;
      case OP_REF_YAW: s.ryaw = a[0]; break;
      case OP_REF_YAWRATE: s.ryr = a[0]; break;
      case OP_CTRL:
        if (s.armed && s.ymode == 1) {
          if (finite_state(pre.st, 1e12) && std::isfinite(pre.ackp[8])) {
            R w = yaw_of(Q(pre.st.q));
            if (pre.ackp[8] != 0) w = w + R(s.ryr) / R(pre.ackp[8]);
            if (!yaw_near(*this, "yaw-rate", "yaw reference of the yaw rate mode (heading + rate/gain)", post.ryaw, w, std::fabs(w.v))) return;
          }
          adopt = true;
          probe("yaw rate update");
        }
        break;
      default: break;
    }
    if (adopt) s.ryaw = post.ryaw;
    bool cmd = op.kind <= OP_REF_YAWRATE;
    const char *n = op_name(op.kind);
    char c[64];
    auto ck = [&](const char *what, const double *g, const double *w, int m) {
      if (failed) return;
      for (int i = 0; i < m; i++)
        if (!(g[i] == w[i]) && memcmp(g + i, w + i, 8)) {
          snprintf(c, sizeof c, "register-%s", what);
          fail(c, "after %s the %s[%d] is %.17g, the commands delivered so far make it %.17g", n, what, i, g[i], w[i]);
          return;
        }
    };
    ck("armed-flag", &post.armed, &s.armed, 1);
    ck("control-mode", &post.mode, &s.mode, 1);
    ck("yaw-mode", &post.ymode, &s.ymode, 1);
    ck("floor-enabled", &post.floor_en, &s.fen, 1);
    ck("floor-height", &post.floor_h, &s.fh, 1);
    ck("motor-reference", post.rmot, s.rmot, h.n);
    ck("thrust-reference", &post.rthr, &s.rthr, 1);
    ck("rate-reference", post.rw, s.rw, 3);
    ck("position-reference", post.rp, s.rp, 3);
    ck("velocity-reference", post.rv, s.rv, 3);
    ck("acceleration-reference", post.ra, s.ra, 3);
    ck("yaw-reference", &post.ryaw, &s.ryaw, 1);
    ck("yaw-rate-reference", &post.ryr, &s.ryr, 1);
    if (failed) return;
    // a command never reaches into the vehicle, the sensors or the controller
    if (cmd && op.kind != OP_BOOT) {
      Obs x = post;
      memcpy(x.rmot, pre.rmot, (char *)x.act - (char *)x.rmot);
      memcpy(x.ext, pre.ext, sizeof x.ext);
      x.armed = pre.armed; x.floor_en = pre.floor_en; x.floor_h = pre.floor_h; x.mode = pre.mode; x.ymode = pre.ymode;
      if (op.kind == OP_DISARM) memcpy(x.act, pre.act, sizeof x.act);
      x.fp[4] = pre.fp[4];  // what the vehicle does next follows its references
      if (!obs_equal(x, pre)) return fail("command-leak", "command %s also changed %s", n, obs_diff(pre, x).c_str());
    }
    ok(cmd);
  }
};
Profile p07() {
  Profile p;
  p.fp = true;
  p.cfg.p_nominal = 0.6;
  p.client = 40;
  p.reconf = 0.6;
  p.tele = 1;
  p.max_ops = 350;
  p.p_float = 0.15;
  return p;
}
RegProp r07({"P07", p07(), mk_checker<C07>, plain_world, 80000, 2000000, 1,
             "A run is one seeded deployment with clients whose commands are lost, duplicated, delayed and reordered, and crashes; after "
             "every operation all command registers must equal a shadow that only applies the commands delivered, in the order delivered. "
             "Non-trivial: at least one command delivered; distinct by the hash of operations and observations."});

// ======================================================================= P08
// shadow of the controller configuration and of its memory, driven by what the vehicle really did
struct Shadow {
  Ctrl k;
  bool bad[4] = {false, false, false, false};  // indi, pos, traj, vel: out of the domain of the reference
  int n = 4;
  SimCfg cfg;
  void boot(const SimCfg &c, int nn) {
    n   = nn;
    cfg = c;
    k.init(c.ctrl, make_vehicle(c.dyn.model, n), n);
    clear();
  }
  void clear() { for (bool &b : bad) b = false; }
  void update(const Op &op, const Result &r) {
    size_t cs = sizeof(CtrlCfg) / 8;
    switch (op.kind) {
      case OP_BOOT: boot(unflat<SimCfg>(op.a), n); break;
      case OP_SET_CTRL:
        if (r.exc) break;
        k.init(unflat<CtrlCfg>(op.a), make_vehicle(unflat<ModelCfg>(op.a, cs), n), n);
        clear();
        break;
      case OP_CTRL_PARAMS: k.update(unflat<CtrlCfg>(op.a), make_vehicle(unflat<ModelCfg>(op.a, cs), n), -1); break;
      case OP_CTRL_PART: k.update(unflat<CtrlCfg>(op.a, 1), make_vehicle(unflat<ModelCfg>(op.a, 1 + cs), n), (int)op.a[0]); break;
      case OP_CTRL_RESET:
        k.reset();
        clear();
        break;
      default: break;
    }
  }
};
struct C08 : Checker {
  Shadow s;
  void begin() override { s.n = h.n; }
  bool fin(const double *d, int m, double lim = 1e9) {
    for (int i = 0; i < m; i++)
      if (!(std::fabs(d[i]) < lim)) return false;
    return true;
  }
  // runs one PID of the shadow; true if its output may be compared
  bool pid(int idx, Pid &p, double dt, const V &e, const V *ed) {
    if (s.bad[idx]) return false;
    for (int i = 0; i < 3; i++)
      if (!(std::fabs(e[i].v) < 1e9) || (ed && !(std::fabs((*ed)[i].v) < 1e9))) { s.bad[idx] = true; return false; }
    p.run(dt, e.x, ed ? ed->x : nullptr);
    for (int i = 0; i < 3; i++)
      if (!std::isfinite(p.out[i].v) || !std::isfinite(p.I[i].v) || std::fabs(p.out[i].v) > 1e12) s.bad[idx] = true;
    if (p.ambiguous) {
      p.ambiguous = false;
      s.bad[idx]  = true;
      probe("ambiguous integrator reset, stage not judged until the next reset");
    }
    return !s.bad[idx];
  }
  void untouched(const Obs &pre, const Obs &post, int mode, bool rate) {
    Obs x = post;
    memcpy(x.act, pre.act, sizeof x.act);
    if (rate) x.ryaw = pre.ryaw;
    x.fp[4] = pre.fp[4];
    if (mode != 1) {
      x.fp[1] = pre.fp[1];
      x.fp[8] = pre.fp[8];
      if (mode == 3) x.fp[6] = pre.fp[6];
      else if (mode != 2) x.fp[7] = pre.fp[7];
      if (mode == 5 || mode == 0) x.fp[5] = pre.fp[5];
      memcpy(x.dmot, pre.dmot, sizeof x.dmot);
      x.dthr = pre.dthr;
      memcpy(x.dw, pre.dw, sizeof x.dw);
      memcpy(x.itorque, pre.itorque, sizeof x.itorque);
      memcpy(x.ithrust, pre.ithrust, sizeof x.ithrust);
      memcpy(x.imotor, pre.imotor, sizeof x.imotor);
      x.acthr = pre.acthr;
      x.indi = pre.indi;
      if (mode != 2) {
        memcpy(x.da, pre.da, sizeof x.da);
        memcpy(x.dv, pre.dv, sizeof x.dv);
        memcpy(x.acw, pre.acw, sizeof x.acw);
        if (mode == 3) x.traj = pre.traj;
        else x.vel = pre.vel;
        if (mode != 4) memcpy(x.dp, pre.dp, sizeof x.dp);
        if (mode == 5 || mode == 0) x.pos = pre.pos;
      }
    }
    if (!obs_equal(x, pre)) fail("stage-leak", "a controller update in mode %d changed %s", mode, obs_diff(pre, x).c_str());
  }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    if (op.kind == OP_CTRL && !r.exc) ctrl(op, pre, post);
    else if (op.kind == OP_DYN || op.kind == OP_MODE || op.kind == OP_ARM || op.kind == OP_DISARM || op.kind == OP_IMU || op.kind == OP_ODOM ||
             op.kind == OP_TELEPORT || op.kind == OP_FLOOR_ON || op.kind == OP_FLOOR_OFF) {
      Obs x = pre;
      memcpy(x.dmot, post.dmot, (char *)x.sf - (char *)x.dmot);
      x.fp[1] = post.fp[1];
      if (!obs_equal(x, pre)) return fail("controller-moved", "operation %s changed the controller: %s", op_name(op.kind), obs_diff(pre, x).c_str());
    }
    s.update(op, r);
  }
  void ctrl(const Op &op, const Obs &pre, const Obs &post) {
    double dt = op.a[0];
    int mode  = (int)pre.mode;
    if (!pre.armed) {
      double z[MAXN] = {0};
      if (!same("disarmed", "motor command", post.act, z, h.n)) return;
      untouched(pre, post, 1, false);
      ok(false);
      return;
    }
    bool rate = pre.ymode == 1;
    untouched(pre, post, mode, rate);
    if (failed) return;
    bool fs = finite_state(pre.st, 1e8);
    if (mode == 1) {
      if (!same("motor-mode", "motor command", post.act, pre.rmot, h.n)) return;
      ok();
      probe("motor mode");
      return;
    }
    if (!fs) { for (bool &b : s.bad) b = true; return; }
    if (!same("actuation", "motor command", post.act, post.dmot, h.n)) return;
    const StateCfg &st = pre.st;
    M Rm = rotm(Q(st.q));
    V p(st.p), v(st.v), w(st.w);
    double scale = 1;
    V thr_w;
    if (mode == 2) {
      if (!same("acro-thrust", "thrust of the acro stage", &post.dthr, &pre.rthr, 1)) return;
      if (!same("acro-rate", "rate of the acro stage", post.dw, pre.rw, 3)) return;
    } else {
      if (mode == 3) {
        if (!same("traj-p", "position of the trajectory stage", post.dp, pre.rp, 3)) return;
        if (!same("traj-v", "velocity of the trajectory stage", post.dv, pre.rv, 3)) return;
        V e = V(pre.rp) - p, ed = V(pre.rv) - v;
        if (pid(2, s.k.traj, dt, e, &ed)) {
          V a = V(s.k.traj.out[0], s.k.traj.out[1], s.k.traj.out[2]) + V(pre.ra);
          if (!near3("trajectory-stage", "commanded acceleration", post.da, a)) return;
          probe("trajectory stage");
          ok();
        }
      } else {
        if (mode == 5 || mode == 0) {
          if (!same("pos-p", "position of the position stage", post.dp, pre.rp, 3)) return;
          if (pid(1, s.k.pos, dt, V(pre.rp) - p, nullptr)) {
            if (!near3("position-stage", "commanded velocity", post.dv, V(s.k.pos.out[0], s.k.pos.out[1], s.k.pos.out[2]))) return;
            probe("position stage");
            ok();
          }
        } else if (!same("vel-v", "velocity of the velocity stage", post.dv, pre.rv, 3)) return;
        if (!fin(post.dv, 3)) s.bad[3] = true;
        else if (pid(3, s.k.vel, dt, V(post.dv) - v, nullptr)) {
          if (!near3("velocity-stage", "commanded acceleration", post.da, V(s.k.vel.out[0], s.k.vel.out[1], s.k.vel.out[2]))) return;
          probe("velocity stage");
          ok();
        }
      }
      double yaw = post.ryaw;
      if (rate) {
        R want = yaw_of(Q(st.q));
        double kp = s.k.c.kprot[8];
        if (kp != 0) want = want + R(pre.ryr) / R(kp);
        if (!yaw_near(*this, "yaw-rate", "yaw reference of the yaw rate mode", post.ryaw, want, std::fabs(want.v))) return;
        probe("yaw rate mode");
      } else if (!same("yaw", "yaw reference", &post.ryaw, &pre.ryaw, 1)) return;
      if (fin(post.da, 3) && std::fabs(yaw) < 1e6) {
        s.k.ambiguous = false;
        s.k.accel_stage(Rm, V(post.da), R(yaw));
        if (!s.k.ambiguous) {
          if (!near("thrust-stage", "collective thrust", post.dthr, s.k.thr)) return;
          if (!near3("attitude-stage", "commanded body rate", post.dw, s.k.w)) return;
          if (s.k.thr.v == 0) probe("thrust command pointing down: rotors idle, no rotation");
          else probe("attitude stage");
          ok();
        } else probe("attitude undefined by the command (not judged)");
        s.k.ambiguous = false;
      }
    }
    (void)scale;
    (void)thr_w;
    if (!fin(post.dw, 3) || !fin(&post.dthr, 1)) { s.bad[0] = true; return; }
    // rate loop and allocation, from the observed command
    bool cmp = pid(0, s.k.indi, dt, V(post.dw) - w, nullptr);
    if (!cmp) return;
    V al(s.k.indi.out[0], s.k.indi.out[1], s.k.indi.out[2]), wd(post.dw);
    M I(s.k.c.inertia);
    V tq = I * al + cross(wd, I * wd);
    if (!near3("rate-stage", "commanded torque", post.itorque, tq)) return;
    R d[6] = {R(0), R(0), R(post.dthr), R(post.itorque[0]), R(post.itorque[1]), R(post.itorque[2])};
    for (int i = 0; i < h.n; i++) {
      R x(0);
      for (int j = 0; j < 6; j++) x = x + s.k.mix[i][j] * d[j];
      if (!near("allocation-stage", "commanded rotor speed", post.dmot[i], sqrt_sign(x))) return;
    }
    ok();
    probe("rate stage");
    if (dt == 0) probe("zero time step");
    if (dt < 0) probe("negative time step");
    if (dt > 0.05) probe("late controller");
  }
};
struct W08 : World {
  using World::World;
  void on_admin() override {
    if (r.p(0.6)) return World::on_admin();
    // a controller running at its own, disturbed pace, hopping between modes while its integrators are loaded
    for (int i = 0, k = 2 + r.i(8); i < k && !stop; i++) {
      if (r.p(0.25)) { Msg m = client_msg(); emit(m.kind, m.a); }
      emit(OP_CTRL, {any_dt()}, F_task_burst);
      if (r.p(0.5)) emit(OP_DYN, {any_dt(true)});
      if (r.p(0.1)) teleport();
      if (r.p(0.08)) reconfigure(false);
    }
  }
};
Profile p08() {
  Profile p;
  p.fp = true;
  p.cfg.p_nominal = 0.4;
  p.imu = p.odom = false;
  p.client = 10;
  p.sensor = 0;
  p.tele = 1;
  p.reconf = 1;
  p.p_arm = 0.97;
  p.max_ops = 320;
  p.p_float = 0.15;
  p.p_n6 = 0.15;
  return p;
}
RegProp r08({"P08", p08(), mk_checker<C08>, mk_world<W08>, 80000, 2000000, 1,
             "A run is one seeded deployment; the checker keeps a reference controller whose memory only follows the executed controller "
             "updates. An evaluation judges one stage of one controller update (position, velocity, trajectory, thrust, attitude, rate, "
             "allocation) from the measured input of that stage, and that unused stages kept their memory. Non-trivial: at least one "
             "stage judged; distinct by the hash of operations and observations."});

// ======================================================================= P09
struct C09 : Checker {
  Pid pid[4];
  bool bad4[4] = {true, true, true, true}, up4[4] = {false, false, false, false};
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &) override {
    if (op.kind < OP_PID_NEW || op.kind > OP_PID_SET) {
      if (memcmp(&pre.side, &post.side, sizeof pre.side))
        fail("pid-moved", "operation %s changed a stand-alone PID", op_name(op.kind));
      return;
    }
    int w = (int)op.a[0];
    judge(op, w, pid[w], bad4[w], up4[w], pre, post);
  }
  void judge(const Op &op, int which, Pid &p, bool &bad, bool &up, const Obs &pre, const Obs &post) {
    const double *a = op.a.data();
    const PidObs &o = post.side[which], &o0 = pre.side[which];
    static const int dims[4] = {3, 1, 6, 2};
    bool one = which == 1;
    int dim = dims[which];
    // the stand-alone controllers do not know each other
    for (int k = 0; k < 4; k++)
      if (k != which && memcmp(&pre.side[k], &post.side[k], sizeof pre.side[k]) != 0)
        return fail("pid-crosstalk", "operation %s on one PID changed another", op_name(op.kind));
    switch (op.kind) {
      case OP_PID_NEW: {
        PidCfg c = unflat<PidCfg>(op.a, 1);
        if (one) c.prop = 0;
        p.init(c, dim);
        bad = false;
        up  = true;
        break;
      }
      case OP_PID_PARAMS:
        if (!up) return;
        if (a[1] == 0) {
          PidCfg c = unflat<PidCfg>(op.a, 2);
          if (one) c.prop = 0;
          p.set_params(c);
        } else {
          if (!same("params-roundtrip", "parameters written back unchanged", (const double *)&o.par, (const double *)&o0.par, sizeof(PidCfg) / 8)) return;
          if (!same("params-roundtrip", "saturation flag", &o.satflag, &o0.satflag, 1)) return;
          probe("parameters read and written back");
        }
        break;
      case OP_PID_SAT: if (up) p.set_sat(a + 1, a + 1 + PD, !one && a[1 + 2 * PD] != 0); break;
      case OP_PID_NOSAT: p.sat = false; break;
      case OP_PID_RESET:
        p.first = true;
        bad     = false;
        probe("reset");
        break;
      case OP_PID_SET: {
        int f = (int)a[1];
        double *d = f == 0 ? p.c.kp : f == 1 ? p.c.ki : f == 2 ? p.c.kd : f == 3 ? p.c.aw : f == 4 ? p.c.alpha : nullptr;
        if (d) for (int i = 0; i < dim; i++) d[i] = a[2 + i];
        if (f == 7)
          for (int i = 0; i < dim; i++) { p.c.kp[i] = a[2 + i]; p.c.ki[i] = a[2 + PD + i]; p.c.kd[i] = a[2 + 2 * PD + i]; }
        if (f == 5) p.c.reset = a[2] != 0;
        if (f == 6 && !one) p.c.prop = a[2] != 0;
        break;
      }
      case OP_PID_RUN:
      case OP_PID_RUND: {
        if (!up) return;
        R e[PD], ed[PD];
        for (int i = 0; i < dim; i++) e[i] = R(a[2 + i]);
        for (int i = 0; i < dim; i++) ed[i] = R(a[2 + PD + i]);
        const double *ret = post.side_ret[which];
        if (!same("return", "returned command (against get_output)", ret, o.out, dim)) return;
        // limits hold whatever the memory of the controller
        bool scalable = true;  // scaling towards zero can only reach intervals that contain zero
        for (int i = 0; i < dim; i++) scalable = scalable && p.c.lo[i] < 0 && p.c.up[i] > 0;
        if (p.sat && (p.c.prop == 0 || scalable))
          for (int i = 0; i < dim; i++) {
            double sl = p.c.prop != 0 ? 16 * eps() * (std::fabs(p.c.up[i]) + std::fabs(p.c.lo[i])) : 0;
            if (std::isfinite(o.out[i]) && !(o.out[i] <= p.c.up[i] + sl && o.out[i] >= p.c.lo[i] - sl))
              return fail("limits", "output[%d]=%.17g outside its limits [%.17g, %.17g]", i, o.out[i], p.c.lo[i], p.c.up[i]);
            if (std::fabs(o.out[i]) > 0 && (o.out[i] == p.c.up[i] || o.out[i] == p.c.lo[i])) probe("saturated output");
          }
        if (bad) return;
        p.run(a[1], e, op.kind == OP_PID_RUND ? ed : nullptr);
        for (int i = 0; i < dim; i++)
          if (!std::isfinite(p.out[i].v) || std::fabs(p.out[i].v) > (h.flt ? 1e12 : 1e30) || !std::isfinite(p.I[i].v) || !std::isfinite(p.fd[i].v)) bad = true;
        if (p.ambiguous) { bad = true; p.ambiguous = false; probe("ambiguous integrator reset"); }
        if (bad) return;
        static const char *nm[5] = {"proportional part", "integral part", "derivative part", "output", "error"};
        for (int i = 0; i < dim; i++) {
          if (!near("proportional", nm[0], o.pc[i], p.pc[i])) return;
          if (!near("integral", nm[1], o.ic[i], p.ic[i])) return;
          if (!near("derivative", nm[2], o.dc[i], p.dc[i])) return;
          if (!near("output", nm[3], o.out[i], p.out[i])) return;
          if (!near("error", nm[4], o.perr[i], e[i])) return;
          if (op.kind == OP_PID_RUND && !near("error", "error rate", o.derr[i], ed[i])) return;
          if (p.c.aw[i] != 0 && std::fabs(p.I[i].v) == p.c.aw[i]) probe("integrator at its limit");
        }
        ok();
        static const char *dn[4] = {"3D update", "1D update", "6D update", "2D update"};
        probe(dn[which]);
        if (a[1] == 0) probe("zero time step");
        if (a[1] < 0) probe("negative time step");
        break;
      }
      default: break;
    }
    if (!up) return;
    // configuration reported = configuration in force
    double z[PD] = {0};
    same("params", "kp", o.par.kp, p.c.kp, dim);
    same("params", "ki", o.par.ki, p.c.ki, dim);
    same("params", "kd", o.par.kd, p.c.kd, dim);
    same("params", "anti-windup", o.par.aw, p.c.aw, dim);
    same("params", "alpha", o.par.alpha, p.c.alpha, dim);
    double rs = p.c.reset != 0, st = p.sat;
    same("params", "integral reset flag", &o.par.reset, &rs, 1);
    same("params", "saturation flag", &o.satflag, &st, 1);
    same("params", "upper limit", o.par.up, p.sat ? p.c.up : z, dim);
    same("params", "lower limit", o.par.lo, p.sat ? p.c.lo : z, dim);
    if (!one && p.sat) {
      double pr = p.c.prop != 0;
      same("params", "proportional saturation flag", &o.par.prop, &pr, 1);
    }
    // only an update moves the output
    if (!failed && op.kind != OP_PID_RUN && op.kind != OP_PID_RUND && op.kind != OP_PID_NEW)
      same("output-moved", "output", o.out, o0.out, dim);
    ok(false);
  }
};
struct W09 : World {
  using World::World;
  void simulate() override {
    boot();
    static const int pairs[4][2] = {{0, 1}, {0, 1}, {2, 1}, {3, 2}};
    const int *which = pairs[r.i(4)];
    for (int k = 0; k < 2; k++) {
      std::vector<double> a = {(double)which[k]};
      cat(a, flat(g.pid_wild(dim_of(which[k]))));
      emit(OP_PID_NEW, a);
    }
    int style = r.i(4);
    double e[2][PD] = {{0}}, per = r.logu(0.0005, 0.05), sc = r.logu(0.1, 20);
    for (auto &x : e) for (double &y : x) y = g.val(sc);
    double p_rund = r.p(0.3) ? 0 : r.p(0.5) ? 1 : 0.3, p_admin = r.logu(0.005, 0.2);
    int steps = 40 + r.i(260);
    if (r.p(0.008)) { steps = 1000 + r.i(7000); p_admin = r.logu(1e-4, 1e-2); pf.max_ops = 10000; }
    for (int i = 0; i < steps && !stop; i++) {
      now += per;
      int k2 = r.i(2), w = which[k2];
      for (double &y : e[k2]) {
        if (style == 0) y = g.val(sc);
        else if (style == 1) y += 0.1 * sc * r.normal();
        else if (style == 2) { if (r.p(0.05)) y = -y; }
        else { y *= 0.97; if (r.p(0.02)) y = g.val(sc); }
        if (r.p(0.01)) y = 0;
        if (r.p(0.005)) y = -0.0;
      }
      if (r.p(p_admin)) { admin(w); continue; }
      double dt = per * (1 + r.u(-0.3, 0.3));
      int f = F_none;
      int k = r.i(60);
      if (k == 0) { dt = 0; f = F_clock_freeze; }
      if (k == 1) { dt = -dt; f = F_clock_jump_back; }
      if (k == 2) { dt = r.logu(0.05, 5); f = F_task_stall; }
      if (k == 3) { dt = -0.0; f = F_clock_freeze; }
      if (k == 4) { dt = 1e-7; f = F_task_burst; }
      std::vector<double> a = {(double)w, dt};
      for (double y : e[k2]) a.push_back(y);
      for (int j = 0; j < PD; j++) a.push_back(g.val(sc));
      emit(r.p(p_rund) ? OP_PID_RUND : OP_PID_RUN, a, f);
    }
    ex.end();
  }
  static int dim_of(int w) { return w == 0 ? 3 : w == 1 ? 1 : w == 2 ? 6 : 2; }
  void admin(int w) {
    std::vector<double> a = {(double)w};
    int dim = dim_of(w);
    switch (r.i(9)) {
      case 0: cat(a, flat(g.pid_wild(dim))); emit(OP_PID_NEW, a, F_crash_restart); break;
      case 1:
      case 2: a.push_back(0); cat(a, flat(g.pid_wild(dim))); emit(OP_PID_PARAMS, a, F_reconfigure); break;
      case 3: a.push_back(1); emit(OP_PID_PARAMS, a, F_reconfigure); break;
      case 4: {
        PidCfg c = g.pid_wild(dim);
        for (int i = 0; i < dim; i++) if (c.up[i] == 0 && c.lo[i] == 0) { c.up[i] = 1; c.lo[i] = -1; }
        for (double x : c.up) a.push_back(x);
        for (double x : c.lo) a.push_back(x);
        a.push_back(c.prop);
        if (r.p(0.15)) { int j = r.i(dim); a[1 + PD + j] = a[1 + j] + (r.p(0.5) ? 0.0 : 1.0); emit(OP_PID_SAT, a, F_invalid_config); }
        else emit(OP_PID_SAT, a, F_reconfigure);
        break;
      }
      case 5: emit(OP_PID_NOSAT, a, F_reconfigure); break;
      case 6: emit(OP_PID_RESET, a, F_reconfigure); break;
      default: {
        static const int fs[8] = {0, 1, 2, 3, 4, 5, 7, 6};
        int f = fs[r.i(7 + (w != 1))];
        PidCfg c = g.pid_wild(dim);
        const double *d = f == 0 ? c.kp : f == 1 ? c.ki : f == 2 ? c.kd : f == 3 ? c.aw : c.alpha;
        a.push_back(f);
        for (int i = 0; i < PD; i++) a.push_back(f == 5 || f == 6 ? (double)r.i(2) : f == 7 ? c.kp[i] : d[i]);
        if (f == 7) { for (double x : c.ki) a.push_back(x); for (double x : c.kd) a.push_back(x); }
        // an interval that does not contain zero cannot be scaled into
        if (f == 6 && a[2] != 0) a[2] = 0;
        emit(OP_PID_SET, a, F_reconfigure);
      }
    }
  }
};
Profile p09() {
  Profile p;
  p.p_float = 0.25;
  p.p_n6 = 0;
  p.max_ops = 400;
  return p;
}
RegProp r09({"P09", p09(), mk_checker<C09>, mk_world<W09>, 90000, 3000000, 1,
             "A run is one seeded schedule of two PID controllers (of one, two, three or six axes) under clock faults (zero, negative, tiny and "
             "huge time steps), re-tuning, resets, saturation changes and restarts; an evaluation compares one update (each contribution, "
             "the output, its limits, the reported parameters) with the reference PID. Non-trivial: at least one update judged; distinct "
             "by the hash of operations and observations."});

// ======================================================================= P10
struct C10 : Checker {
  Track t;
  bool match = false;
  R mix[MAXN][6];
  void begin() override { t.n = h.n; }
  bool same_vehicle(const ModelCfg &a, const ModelCfg &b) {
    Vehicle x = make_vehicle(a, h.n), y = make_vehicle(b, h.n);
    for (int i = 0; i < h.n; i++) {
      if (x.r[i].kt != y.r[i].kt || x.r[i].kq != y.r[i].kq || x.r[i].dir != y.r[i].dir) return false;
      for (int j = 0; j < 3; j++)
        if (x.r[i].pos[j].v != y.r[i].pos[j].v || x.r[i].axis[j].v != y.r[i].axis[j].v) return false;
    }
    return true;
  }
  void adopt(const CtrlCfg &c, const ModelCfg &m) {
    match = false;
    if (!ref::valid_model(m, h.n)) return;
    if (c.mixmode != 0 && h.n == 4) {
      quad_mixer_inverse(make_vehicle(m, h.n), mix);
      match = true;
    } else {
      // explicit allocation: consistent if it inverts the mixer of the vehicle
      Vehicle v = make_vehicle(m, h.n);
      match = true;
      for (int i = 0; i < h.n; i++)
        for (int j = 0; j < 6; j++) mix[i][j] = R(c.mix[6 * i + j], std::fabs(c.mix[6 * i + j]) * ref::eps);
      for (int r = 0; r < 4 && match; r++)
        for (int col = 2; col < 6; col++) {
          double s = 0, mag = 0;
          for (int i = 0; i < h.n; i++) {
            double a = row(v, i, r).v;
            s += a * c.mix[6 * i + col];
            mag += std::fabs(a * c.mix[6 * i + col]);
          }
          if (std::fabs(s - (r == col - 2)) > 64 * ref::eps * (1 + mag)) match = false;
        }
    }
    ctl_model = m;
  }
  ModelCfg ctl_model;
  double inertia[9] = {0};
  static R row(const Vehicle &v, int i, int r) {
    V f = v.r[i].axis * R(v.r[i].kt);
    V q = cross(v.r[i].pos, f) + v.r[i].axis * R(v.r[i].dir * v.r[i].kq);
    return r == 0 ? f[2] : q[r - 1];
  }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    size_t cs = sizeof(CtrlCfg) / 8;
    if (op.kind == OP_BOOT) memcpy(inertia, unflat<SimCfg>(op.a).ctrl.inertia, sizeof inertia);
    if ((op.kind == OP_SET_CTRL && !r.exc) || op.kind == OP_CTRL_PARAMS) memcpy(inertia, unflat<CtrlCfg>(op.a).inertia, sizeof inertia);
    if (op.kind == OP_CTRL_PART && (op.a[0] == 1 || op.a[0] == 8)) memcpy(inertia, unflat<CtrlCfg>(op.a, 1).inertia, sizeof inertia);
    if (op.kind == OP_BOOT) { SimCfg c = unflat<SimCfg>(op.a); adopt(c.ctrl, c.dyn.model); }
    if ((op.kind == OP_SET_CTRL && !r.exc) || op.kind == OP_CTRL_PARAMS) adopt(unflat<CtrlCfg>(op.a), unflat<ModelCfg>(op.a, cs));
    if (op.kind == OP_CTRL_PART && (op.a[0] == 1 || op.a[0] == 9)) adopt(unflat<CtrlCfg>(op.a, 1), unflat<ModelCfg>(op.a, 1 + cs));
    t.update(op, pre, post, r);
    if (op.kind != OP_CTRL || r.exc || !pre.armed || pre.mode == 1 || !match) return;
    if (!same_vehicle(ctl_model, t.cfg.dyn.model)) return;
    double d[4] = {post.dthr, post.itorque[0], post.itorque[1], post.itorque[2]};
    for (double x : d) if (!(std::fabs(x) < 1e9)) return;
    for (int i = 0; i < 3; i++) if (!(std::fabs(post.indi.out[i]) < 1e9 && std::fabs(post.dw[i]) < 1e6)) return;
    {  // the demanded torque is what the inertia the controller was last given needs for the demanded rotation
      M I(inertia);
      V wd(post.dw);
      if (!near3("demanded-torque", "demanded torque", post.itorque, I * V(post.indi.out) + cross(wd, I * wd))) return;
    }
    const Vehicle &v = t.veh;
    R x[MAXN];
    bool neg = false;
    for (int i = 0; i < h.n; i++) {
      R s(0);
      for (int j = 0; j < 4; j++) s = s + mix[i][2 + j] * R(d[j]);
      R m = sqrt_sign(s);
      if (!std::isfinite(post.act[i])) return;
      x[i] = sq_sign(R(post.act[i], m.e + 2 * ref::eps * std::fabs(post.act[i])));
      if (post.act[i] < 0) neg = true;
    }
    static const char *nm[4] = {"thrust", "roll torque", "pitch torque", "yaw torque"};
    for (int k = 0; k < 4; k++) {
      R s(0);
      for (int i = 0; i < h.n; i++) s = s + row(v, i, k) * x[i];
      if (!(std::fabs(d[k] - s.v) <= tol(s)))
        return fail("allocation", "%s: the commanded rotor speeds produce %.12g on this vehicle, the controller asked for %.12g (tolerance %.3g)",
                    nm[k], s.v, d[k], tol(s));
    }
    ok();
    probe("allocation judged");
    if (neg) probe("a rotor is commanded backwards");
    // at these speeds the vehicle really feels that thrust: the model's own mixer agrees with its geometry
  }
};
Profile p10() {
  Profile p;
  p.cfg.p_nominal = 0.45;
  p.cfg.p_consistent = 0.95;
  p.imu = p.odom = false;
  p.client = 10;
  p.sensor = 0;
  p.reconf = 0.8;
  p.p_arm = 0.98;
  p.p_n6 = 0.25;
  p.max_ops = 300;
  return p;
}
struct W10 : World {
  using World::World;
  void on_admin() override {
    if (r.p(0.5)) return World::on_admin();
    // the operator swaps the vehicle and retunes the controller for it, in either order
    ModelCfg m = g.model(pf.cfg, nominal);
    CfgOpts o = pf.cfg;
    CtrlCfg c = g.ctrl(m, o, true);
    std::vector<double> a = flat(c);
    cat(a, flat(m));
    bool first = r.p(0.5);
    cfg.dyn.model = m;
    if (first) emit(OP_MODEL_PARAMS, flat(m), F_reconfigure);
    int k = r.i(3);
    if (k == 0) emit(OP_SET_CTRL, a, F_reconfigure);
    else if (k == 1) emit(OP_CTRL_PARAMS, a, F_reconfigure);
    else { a.insert(a.begin(), 1.0); emit(OP_CTRL_PART, a, F_reconfigure); }
    emit(OP_CTRL, {any_dt()});
    if (!first) emit(OP_MODEL_PARAMS, flat(m), F_reconfigure);
    for (int i = 0, n = 1 + r.i(5); i < n && !stop; i++) { emit(OP_CTRL, {any_dt()}); emit(OP_DYN, {any_dt(true)}); }
  }
};
RegProp r10({"P10", p10(), mk_checker<C10>, mk_world<W10>, 80000, 2000000, 1,
             "A run is one seeded deployment whose vehicle and controller are reconfigured at runtime; an evaluation puts the motor "
             "command of one armed controller update through the geometry of the vehicle (recomputed from its parameters, not by the "
             "library) and compares thrust and torques with what the controller asked for. Only judged while the controller is "
             "configured for the vehicle it flies. Distinct by the hash of operations and observations."});
}  // namespace
}  // namespace dst
