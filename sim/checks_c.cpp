// P11 IMU, P12 inertial odometry, P13 process noise
#include "law.hpp"
namespace dst {
namespace {

// Successive samples of a noise are new: never nothing at all, never the last one again (unscaled or scaled)
struct Fresh {
  bool have = false;
  double z0[3], x0[3];
  void forget() { have = false; }
  const char *next(const double *z, const double *x) {
    bool none = true, zsame = have, xsame = have;
    for (int i = 0; i < 3; i++) {
      none  = none && std::fabs(z[i]) < 1e-5;
      zsame = zsame && std::fabs(z[i] - z0[i]) < 1e-5;
      xsame = xsame && std::fabs(x[i] - x0[i]) <= 1e-5 * std::fabs(x0[i]);
      z0[i] = z[i];
      x0[i] = x[i];
    }
    have = true;
    return none ? "missing" : zsame || xsame ? "that of the update before" : nullptr;
  }
};
// ======================================================================= P11
struct C11 : Checker {
  Track t;
  Stat st[12];  // gyro white, accel white, gyro bias step, accel bias step (three axes each)
  Cross cr[66];
  Fresh fr[4];
  bool fine[12];  // rounding is far below the noise
  void begin() override { t.n = h.n; }
  static bool unit(const double *q) {
    return std::fabs(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] - 1) < 1e-5;
  }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    judge(op, pre, post, r);
    t.update(op, pre, post, r);
  }
  void judge(const Op &op, const Obs &pre, const Obs &post, const Result &r) {
    static const double zero[3] = {0, 0, 0};
    if (op.kind == OP_BOOT || op.kind == OP_SET_IMU || op.kind == OP_IMU_SEED || op.kind == OP_RESTORE || op.kind == OP_PERSIST)
      for (Fresh &f : fr) f.forget();
    switch (op.kind) {
      case OP_IMU:
      case OP_IMU_DIRECT: {
        double dt = op.a[0];
        if (!(dt > 0)) {
          if (!kept(op, pre, post)) return;
          ok();
          probe("time step not positive");
          return;
        }
        if (!finite_state(pre.st, 1e9) || !unit(t.cfg.imu.q)) return;
        for (int i = 0; i < 3; i++)
          if (!(std::fabs(pre.gbias[i]) < 1e6) || !(std::fabs(pre.abias[i]) < 1e6)) return;
        V f, w;
        if (op.kind == OP_IMU) {
          double n2 = pre.st.q[0] * pre.st.q[0] + pre.st.q[1] * pre.st.q[1] + pre.st.q[2] * pre.st.q[2] + pre.st.q[3] * pre.st.q[3];
          if (std::fabs(n2 - 1) > 1e-5) return;
          f = rot(conj(Q(pre.st.q)), V(pre.st.F)) / R(t.veh.mass);
          w = V(pre.st.w);
        } else {
          f = V(op.a[1], op.a[2], op.a[3]);
          w = V(op.a[4], op.a[5], op.a[6]);
        }
        Q qi = conj(Q(t.cfg.imu.q));
        V gm = rot(qi, w) + V(post.gbias), am = rot(qi, f) + V(post.abias);
        double z[12];
        bool have[12];
        for (int i = 0; i < 12; i++) have[i] = fine[i] = false;
        for (int i = 0; i < 3; i++) {
          if (!noise("gyro", i, post.gyro[i], gm[i], t.gv, z[i], have[i], fine[i])) return;
          if (!noise("accelerometer", i, post.accel[i], am[i], t.av, z[3 + i], have[3 + i], fine[3 + i])) return;
          if (!noise("gyro bias", i, post.gbias[i], R(pre.gbias[i], 4 * eps() * std::fabs(pre.gbias[i])), t.gb * dt, z[6 + i], have[6 + i], fine[6 + i])) return;
          if (!noise("accelerometer bias", i, post.abias[i], R(pre.abias[i], 4 * eps() * std::fabs(pre.abias[i])), t.ab * dt, z[9 + i],
                     have[9 + i], fine[9 + i]))
            return;
          if (t.gb == 0 && post.gbias[i] != pre.gbias[i]) return fail("bias-drift", "gyro bias moved with zero drift intensity");
          if (t.ab == 0 && post.abias[i] != pre.abias[i]) return fail("bias-drift", "accelerometer bias moved with zero drift intensity");
        }
        for (int c = 0; c < 4; c++) {
          if (!fine[3 * c] || !fine[3 * c + 1] || !fine[3 * c + 2]) { fr[c].forget(); continue; }
          double sg = std::sqrt(c == 0 ? t.gv : c == 1 ? t.av : (c == 2 ? t.gb : t.ab) * dt), raw[3] = {z[3 * c] * sg, z[3 * c + 1] * sg, z[3 * c + 2] * sg};
          if (const char *v = fr[c].next(z + 3 * c, raw))
            return fail("noise-stuck", "the %s noise (%.9g, %.9g, %.9g) of an update of %.6g s is %s",
                        c == 0 ? "gyro" : c == 1 ? "accelerometer" : c == 2 ? "gyro bias" : "accelerometer bias", raw[0], raw[1], raw[2], dt, v);
        }
        int k = 0;
        for (int i = 0; i < 12; i++) {
          if (have[i]) st[i].add(z[i]);
          for (int j = 0; j < i; j++, k++)
            if (have[i] && have[j]) cr[k].add(z[i], z[j]);
        }
        ok();
        probe(op.kind == OP_IMU ? "measurement of the vehicle" : "direct measurement");
        if (t.gv || t.av) probe("noisy measurement");
        if (t.gb || t.ab) probe("drifting bias");
        if (std::fabs(t.cfg.imu.q[0]) < 0.9999) probe("rotated mounting");
        return;
      }
      case OP_IMU_RESET:
        if (!same("reset", "gyro", post.gyro, zero, 3) || !same("reset", "accel", post.accel, zero, 3) ||
            !same("reset", "gyro bias", post.gbias, zero, 3) || !same("reset", "accel bias", post.abias, zero, 3))
          return;
        same("reset", "variances", &post.gvar, &pre.gvar, 2);
        ok();
        return;
      case OP_IMU_BIAS:
        if (!same("set-bias", "gyro bias", post.gbias, op.a.data(), 3) || !same("set-bias", "accel bias", post.abias, op.a.data() + 3, 3))
          return;
        same("set-bias", "gyro", post.gyro, pre.gyro, 6);
        ok();
        return;
      case OP_IMU_VAR:
        if (!same("set-variances", "variance", &post.gvar, op.a.data(), 2)) return;
        same("set-variances", "measurement and bias", pre.gyro, post.gyro, 12);
        ok();
        return;
      case OP_BOOT:
      case OP_SET_IMU: {
        ImuCfg c = op.kind == OP_BOOT ? unflat<SimCfg>(op.a).imu : unflat<ImuCfg>(op.a);
        if (!same("construct", "gyro", post.gyro, zero, 3) || !same("construct", "accel", post.accel, zero, 3)) return;
        double v[2] = {c.gv, c.av};
        if (!same("construct", "variance", &post.gvar, v, 2)) return;
        for (int i = 0; i < 3; i++)
          if (std::fabs(post.gbias[i]) > 9 * std::sqrt(c.gv) || std::fabs(post.abias[i]) > 9 * std::sqrt(c.av))
            return fail("initial-bias", "initial bias (%.6g, %.6g) against noise variances (%.6g, %.6g)", post.gbias[i], post.abias[i], c.gv, c.av);
        ok();
        return;
      }
      case OP_IMU_SEED:
      case OP_IMU_CORR:
      case OP_IMU_ORI: {
        Obs x = post;  // shows only in what comes next
        x.fp[2] = pre.fp[2];
        kept(op, pre, x);
        return;
      }
      case OP_RESTORE: return;
      case OP_DYN:
        if (!r.exc && contact_pattern(post)) return;  // landing restarts the sensors (P05)
        kept(op, pre, post);
        return;
      default: kept(op, pre, post); return;
    }
  }
  bool kept(const Op &op, const Obs &pre, const Obs &post) {
    if (memcmp(pre.gyro, post.gyro, 12 * 8) == 0 && memcmp(&pre.gvar, &post.gvar, 16) == 0 && pre.fp[2] == post.fp[2]) return true;
    fail("imu-moved", "operation %s changed the IMU: %s", op_name(op.kind), obs_diff(pre, post).c_str());
    return false;
  }
  bool noise(const char *w, int ax, double got, R mean, double var, double &z, bool &have, bool &fine) {
    double tl = tol(mean), d = got - mean.v, s = std::sqrt(var);
    if (!std::isfinite(mean.v) || !std::isfinite(mean.e)) return true;
    if (std::fabs(d) > tl + 9 * s) {
      fail(var > 0 ? "noise-magnitude" : "measurement-law", "%s axis %d: %.12g, expected %.12g plus noise of sigma %.6g (tolerance %.3g)", w, ax,
           got, mean.v, s, tl);
      return false;
    }
    if (var > 0 && s > 50 * tl) {
      z    = d / s;
      have = true;
      fine = s > 1e5 * tl;
    }
    return true;
  }
  void finish(const std::vector<Op> &) override {
    static const char *nm[12] = {"gyro x",      "gyro y",      "gyro z",      "accel x",      "accel y",      "accel z",
                                 "gyro bias x", "gyro bias y", "gyro bias z", "accel bias x", "accel bias y", "accel bias z"};
    std::string d;
    for (int i = 0; i < 12; i++) {
      if (const char *v = st[i].verdict(d)) return fail("noise-statistics", "%s noise, %s: %s", nm[i], v, d.c_str());
      if (st[i].n >= 200) { ok(); probe("noise channel judged statistically"); }
    }
    int k = 0;
    for (int i = 0; i < 12; i++)
      for (int j = 0; j < i; j++, k++) {
        if (cr[k].bad(d)) return fail("noise-correlation", "%s and %s noise: %s", nm[i], nm[j], d.c_str());
        if (cr[k].n >= 200) probe("pair of noise channels judged for independence");
      }
  }
};
struct W11 : World {
  using World::World;
  void simulate() override {
    if (!r.p(0.12)) return World::simulate();
    // long recording of one IMU: enough samples to judge the noise
    pf.max_ops = 2600;
    pf.cfg.p_imu_noise = 1;
    boot();
    after_boot();
    double dt = r.p(0.6) ? r.logu(1e-4, 0.02) : r.p(0.7) ? r.logu(0.02, 2) : r.logu(1e-7, 1e-4);  // also slow and very fast sensors
    bool direct = r.p(0.4), jit = r.p(0.5);
    int n = 300 + r.i(1800);
    if (r.p(0.1)) { n = 5000; pf.max_ops = 7000; }  // enough for the tails
    for (int i = 0; i < n && !stop; i++) {
      double d = jit ? dt * r.u(0.2, 3) : dt;
      now += d;
      if (r.p(0.02)) d = any_dt();
      if (direct) {
        std::vector<double> a = {d};
        cat(a, v3(5));
        cat(a, v3(2));
        emit(OP_IMU_DIRECT, a);
      } else {
        if (i % 4 == 0) emit(OP_DYN, {std::min(std::fabs(dt) + 1e-5, 0.01)});
        emit(OP_IMU, {d});
      }
      if (r.p(0.01)) emit(OP_IMU_VAR, {r.p(0.2) ? 0 : r.logu(1e-6, 0.1), r.p(0.2) ? 0 : r.logu(1e-6, 0.1)});
      if (r.p(0.01)) emit(OP_IMU_CORR, {r.p(0.2) ? 0 : r.logu(1e-8, 1e-3), r.p(0.2) ? 0 : r.logu(1e-8, 1e-3)});
      if (r.p(0.004)) emit(OP_IMU_RESET);
      if (!finite_obs(obs(), 1e5)) lost();
    }
    ex.end();
  }
};
Profile p11() {
  Profile p;
  p.fp = true;
  p.cfg.p_noise     = 0.15;
  p.cfg.p_imu_noise = 0.6;
  p.cfg.p_imu_rot   = 0.6;
  p.odom = false;
  p.ctrl = true;
  p.client = 3;
  p.sensor = 4;
  p.direct = 1.5;
  p.tele = 1;
  p.max_ops = 350;
  return p;
}
RegProp r11({"P11", p11(), mk_checker<C11>, mk_world<W11>, 36000, 1250000, 1,
             "A run is one seeded deployment with IMU administration (mounting, variances, drift, bias, seed, reset), clock faults and "
             "landings, or one long recording. An evaluation judges one IMU update (true rate and specific force, rotated into the sensor "
             "frame, plus the reported bias, plus noise within 9 sigma; bias drift; no-op for dt <= 0), one administration call, or, with "
             "200 samples, one noise channel statistically (mean, variance, whiteness, independence at 8 sigma). Non-trivial: at least one; "
             "distinct by the hash of operations and observations."});

// ======================================================================= P12
struct C12 : Checker {
  Track t;
  V af;               // shadow of the filtered accelerometer
  bool known = false;
  // tracking of the true motion
  int phase = -1;     // -1 off, 0 expects DYN, 1 IMU, 2 ODOM
  long k = 0;
  double tdt = 0, v0[3], p1[3], amax = 0, err = 0;
  void begin() override { t.n = h.n; }
  bool ideal(const Obs &o) {
    for (int i = 0; i < 3; i++)
      if (o.gbias[i] != 0 || o.abias[i] != 0) return false;
    const double *q = t.cfg.imu.q;
    return t.gv == 0 && t.av == 0 && t.gb == 0 && t.ab == 0 && std::fabs(q[0]) == 1 && q[1] == 0 && q[2] == 0 && q[3] == 0 &&
           t.cfg.odom.alpha == 1;
  }
  void anchor(const Obs &o) {
    phase = -1;
    if (!ideal(o)) return;
    for (int i = 0; i < 3; i++)
      if (o.st.w[i] != 0 || o.ov[i] != 0 || o.op[i] != 0 || o.ow[i] != 0) return;
    for (int i = 0; i < 4; i++)
      if (o.oq[i] != o.st.q[i]) return;
    double n2 = o.st.q[0] * o.st.q[0] + o.st.q[1] * o.st.q[1] + o.st.q[2] * o.st.q[2] + o.st.q[3] * o.st.q[3];
    if (std::fabs(n2 - 1) > 64 * eps()) return;
    phase = 0;
    k = 0;
    tdt = 0;
    amax = 0;
    for (int i = 0; i < 3; i++) v0[i] = o.st.v[i];
  }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    law(op, pre, post, r);
    if (failed) return;
    t.update(op, pre, post, r);
    track(op, pre, post, r);
  }
  void track(const Op &op, const Obs &pre, const Obs &post, const Result &r) {
    switch (op.kind) {
      case OP_DYN:
        if (r.exc) return;
        if (t.contact || t.unsure) return anchor(post);
        if (phase == 0) {
          double dt = op.a[0];
          if (k == 0) {
            tdt = dt;
            for (int i = 0; i < 3; i++) p1[i] = post.st.p[i];
          }
          phase = dt == tdt && dt <= (h.flt ? 0.00999 : 0.01) && finite_obs(post, 1e4) ? 1 : -1;
          for (int i = 0; i < 3; i++) amax = std::max(amax, std::fabs(post.st.a[i]) + std::fabs(post.st.w[i]));
        } else phase = -1;
        return;
      case OP_IMU:
        if (phase == 1) phase = op.a[0] > 0 && ideal(post) ? 2 : -1;
        else phase = -1;
        return;
      case OP_ODOM:
        if (phase != 2 || op.a[0] != tdt) { phase = -1; return; }
        phase = 0;
        k++;
        for (int i = 0; i < 3; i++) {
          double T = k * tdt, sc = 1 + std::fabs(post.st.v[i]) + std::fabs(v0[i]) + amax * (1 + T);
          double tl = 200 * eps() * (k + 4) * sc * (1 + T);
          double wv = post.st.v[i] - v0[i];
          double wp = post.st.p[i] + post.st.v[i] * tdt - p1[i] - k * v0[i] * tdt;
          double tp = tl * (1 + T) + 200 * eps() * (k + 4) * (std::fabs(post.st.p[i]) + std::fabs(p1[i]));
          if (tl > 0.1 || tp > 0.1) { phase = -1; return; }
          if (std::fabs(post.ov[i] - wv) > tl)
            return fail("tracking", "after %ld synchronous cycles with an ideal IMU the odometry velocity[%d] is %.12g, the true change is %.12g", k, i,
                        post.ov[i], wv);
          if (std::fabs(post.op[i] - wp) > tp)
            return fail("tracking", "after %ld synchronous cycles with an ideal IMU the odometry position[%d] is %.12g, the true displacement is %.12g",
                        k, i, post.op[i], wp);
        }
        ok();
        probe(k > 20 ? "true motion tracked, more than 20 cycles" : "true motion tracked");
        return;
      case OP_BOOT:
      case OP_SET_ODOM:
      case OP_ODOM_RESET:
      case OP_ODOM_INIT: return anchor(post);
      case OP_ARM: case OP_DISARM: case OP_MODE: case OP_REF_MOTORS: case OP_REF_ACRO: case OP_REF_TRAJ: case OP_REF_VEL: case OP_REF_POS:
      case OP_REF_YAW: case OP_REF_YAWRATE: case OP_CTRL: case OP_READ: case OP_LOG: case OP_CTRL_RESET: case OP_SET_CTRL: case OP_CTRL_PARAMS:
      case OP_CTRL_PART: case OP_FLOOR_OFF: case OP_PERSIST: return;
      case OP_FLOOR_ON: return;
      default: phase = -1;
    }
    (void)pre;
  }
  void law(const Op &op, const Obs &pre, const Obs &post, const Result &r) {
    static const double zero[15] = {0};
    switch (op.kind) {
      case OP_ODOM:
      case OP_ODOM_DIRECT: {
        double dt = op.a[0];
        V gy, ac;
        if (op.kind == OP_ODOM) {
          gy = V(pre.gyro);
          ac = V(pre.accel);
        } else {
          gy = V(op.a[1], op.a[2], op.a[3]);
          ac = V(op.a[4], op.a[5], op.a[6]);
        }
        R al(t.cfg.odom.alpha), be = R(1) - al;
        V w = gy * al + V(pre.ow) * be;
        double n2 = pre.oq[0] * pre.oq[0] + pre.oq[1] * pre.oq[1] + pre.oq[2] * pre.oq[2] + pre.oq[3] * pre.oq[3];
        bool fine = std::fabs(n2 - 1) < 1e-5 && std::fabs(dt) < 1e3;
        for (int i = 0; i < 3; i++)
          if (!(std::fabs(pre.ov[i]) < 1e12) || !(std::fabs(pre.op[i]) < 1e12) || !(std::fabs(gy[i].v) < 1e9) || !(std::fabs(ac[i].v) < 1e9))
            fine = false;
        if (known) af = ac * al + af * be;
        if (!fine) { known = false; return; }
        if (!near3("filter", "filtered angular velocity", post.ow, w)) return;
        if (known && !near3("acceleration", "world acceleration", post.oa, rot(Q(pre.oq), af))) return;
        V v = V(pre.ov) + V(post.oa) * R(dt);
        if (!near3("integration", "velocity", post.ov, v)) return;
        V p = V(pre.op) + V(post.ov) * R(dt);
        if (!near3("integration", "position", post.op, p)) return;
        Q q = qstep(Q(pre.oq), V(post.ow), R(dt));
        if (!near("integration", "qw", post.oq[0], q.w) || !near("integration", "qx", post.oq[1], q.x) || !near("integration", "qy", post.oq[2], q.y) ||
            !near("integration", "qz", post.oq[3], q.z))
          return;
        ok();
        probe(dt > 0 ? "update" : dt == 0 ? "update with a frozen clock" : "update with a clock that went back");
        if (known && t.cfg.odom.alpha < 1) probe("low-pass filter active");
        return;
      }
      case OP_BOOT:
      case OP_SET_ODOM:
      case OP_ODOM_RESET: {
        af    = V();
        known = true;
        double q[4];
        if (op.kind == OP_ODOM_RESET) memcpy(q, t.cfg.odom.q, sizeof q);
        else {
          OdomCfg c = op.kind == OP_BOOT ? unflat<SimCfg>(op.a).odom : unflat<OdomCfg>(op.a);
          memcpy(q, c.q, sizeof q);
        }
        if (!same("reset", "position", post.op, zero, 3) || !same("reset", "velocities and acceleration", post.ov, zero, 9)) return;
        if (!same("reset", "orientation", post.oq, q, 4)) return;
        ok();
        return;
      }
      case OP_ODOM_INIT:
        if (!same("set-orientation", "orientation", post.oq, op.a.data(), 4)) return;
        if (!same("set-orientation", "position", post.op, pre.op, 3) || !same("set-orientation", "velocities", post.ov, pre.ov, 9)) return;
        ok();
        return;
      case OP_DYN:
        if (!r.exc && is_contact(pre, post, op.a[0])) {
          if (!same("landing", "position", post.op, zero, 3) || !same("landing", "velocities and acceleration", post.ov, zero, 9) ||
              !same("landing", "orientation", post.oq, post.st.q, 4))
            return;
          af    = V();
          known = true;
          ok();
          probe("restart at a landing");
          return;
        }
        if (!r.exc && contact_pattern(post)) { known = false; return; }  // looks like a landing, cannot tell
        break;
      case OP_RESTORE: known = false; return;
      default: break;
    }
    if (memcmp(pre.op, post.op, 16 * 8) != 0 || pre.fp[3] != post.fp[3])
      return fail("odometry-moved", "operation %s changed the odometry: %s", op_name(op.kind), obs_diff(pre, post).c_str());
  }
};
struct W12 : World {
  using World::World;
  void simulate() override {
    if (!r.p(0.35)) return World::simulate();
    pf.cfg.imu_ideal = true;
    pf.max_ops = 600;
    boot();
    if (stop) return;
    StateCfg s = obs().st;
    for (int i = 0; i < 3; i++) s.w[i] = 0;
    std::vector<double> a = flat(s);
    a.push_back(0);
    emit(OP_TELEPORT, a);
    if (r.p(0.3)) emit(OP_FLOOR_ON, {obs().st.p[2] - r.logu(0.001, 2)});
    if (r.p(0.9)) emit(OP_ARM);
    double dt = r.logu(2e-4, 0.0099);
    emit(OP_ODOM_INIT, {s.q[0], s.q[1], s.q[2], s.q[3]});
    emit(OP_ODOM_RESET);
    int n = 10 + r.i(150);
    for (int i = 0; i < n && !stop; i++) {
      now += dt;
      if (r.p(0.1)) { Msg m = client_msg(); emit(m.kind, m.a); }
      if (r.p(0.7)) emit(OP_CTRL, {dt});
      emit(OP_DYN, {dt});
      emit(OP_IMU, {dt});
      emit(OP_ODOM, {dt});
      if (!finite_obs(obs(), 1e5)) lost();
    }
    ex.end();
  }
};
Profile p12() {
  Profile p;
  p.fp = true;
  p.cfg.p_noise     = 0.3;
  p.cfg.p_imu_noise = 0.4;
  p.client = 3;
  p.sensor = 3;
  p.direct = 3;
  p.tele = 0.7;
  p.max_ops = 320;
  return p;
}
RegProp r12({"P12", p12(), mk_checker<C12>, mk_world<W12>, 70000, 1750000, 1,
             "A run is one seeded deployment (IMU and odometry on their own faulty timers, administration, landings, direct calls), or "
             "synchronous flight with an ideal IMU. An evaluation judges one odometry update against the low-pass filter and the "
             "integration law (any dt), one restart, or one cycle of exact tracking of the true motion. Non-trivial: at least one; distinct "
             "by the hash of operations and observations."});

// ======================================================================= P13
struct C13 : Checker {
  Track t;
  Stat st[6], dv[3];
  Fresh fr[2];
  Cross cr[15];
  void begin() override { t.n = h.n; }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    DynCall d = dyn_call(t, op, pre);
    if (op.kind == OP_BOOT || op.kind == OP_SET_DYN || op.kind == OP_RESTORE || op.kind == OP_MODEL_SWAP || op.kind == OP_PERSIST) fr[0].forget(), fr[1].forget();
    if (d.is && !r.exc && d.dt > 0 && !d.unsure && finite_obs(pre, 1e5)) judge(d, pre, post);
    if (!failed) t.update(op, pre, post, r);
  }
  void judge(const DynCall &d, const Obs &pre, const Obs &post) {
    double qf = d.noise ? t.veh.qf : 0, qm = d.noise ? t.veh.qm : 0;
    for (int i = 0; i < 3; i++) {
      if (qf == 0 && post.sf[i] != 0)
        return fail("silent-force", "force noise %.9g on an update that must be free of it (intensity %.3g, %s)", post.sf[i], t.veh.qf,
                    d.noise ? "noise on" : "noise off");
      if (qm == 0 && post.sm[i] != 0)
        return fail("silent-moment", "moment noise %.9g on an update that must be free of it (intensity %.3g, %s)", post.sm[i], t.veh.qm,
                    d.noise ? "noise on" : "noise off");
    }
    if (!d.noise && t.stoch) probe("noise switched off for this update");
    bool one = d.dt <= (h.flt ? 0.00999 : 0.01);
    if (one) {
      double z[6];
      bool have[6];
      for (int i = 0; i < 6; i++) {
        double q = i < 3 ? qf : qm, x = i < 3 ? post.sf[i] : post.sm[i - 3];
        have[i] = q > 0;
        if (!have[i]) continue;
        z[i] = x / std::sqrt(q / d.dt);
        if (!(std::fabs(z[i]) < 9))
          return fail("noise-magnitude", "process noise of %.6g on an update of %.6g s, intensity %.6g: %.3g sigma", x, d.dt, q, z[i]);
        st[i].add(z[i]);
      }
      for (int c = 0; c < 2; c++) {
        if (!have[3 * c]) continue;
        if (const char *v = fr[c].next(z + 3 * c, c ? post.sm : post.sf))
          return fail("noise-stuck", "the %s noise (%.9g, %.9g, %.9g) of a step of %.6g s is %s", c ? "moment" : "force", (c ? post.sm : post.sf)[0],
                      (c ? post.sm : post.sf)[1], (c ? post.sm : post.sf)[2], d.dt, v);
      }
      int k = 0;
      for (int i = 0; i < 6; i++)
        for (int j = 0; j < i; j++, k++)
          if (have[i] && have[j]) cr[k].add(z[i], z[j]);
      // the noise really acts on the vehicle
      St s = make_state(pre.st, h.n), alt = s;
      V sf(post.sf), sm(post.sm);
      ref::step(t.veh, s, d.cmd, R(d.dt), d.ext, sf, sm);
      ref::step(t.veh, alt, d.cmd, R(d.dt), d.ext, sf, sf);
      bool amb = !d.direct && pre.floor_en && (contact_pattern(post) || s.p[2].v < pre.floor_h + tol(s.p[2]));
      if (!amb) {
        if (!near3("force-law", "total force", post.st.F, s.F)) return;
        bool good = true, known_dev = true;
        for (int i = 0; i < 3; i++) {
          good      = good && std::fabs(post.st.T[i] - s.T[i].v) <= tol(s.T[i]);
          known_dev = known_dev && std::fabs(post.st.T[i] - alt.T[i].v) <= tol(alt.T[i]);
        }
        if (!good) {
          if (!known_dev) {
            near3("moment-law", "total torque", post.st.T, s.T);
            return;
          }
          known["moment-noise-is-force-noise"] =
              "Dynamics::process_euler_explicit feeds the process noise of the force, not that of the moment, into the rotational dynamics";
          probe("known finding met");
        }
        ok();
        if (t.stoch && d.noise) probe("noisy step judged");
      } else ok(false);
    } else {
      ok(false);
      // long step, free fall without drag: the velocity change has variance q dt / m^2 for any partition into steps
      if (qf > 0 && t.veh.drag == 0) {
        for (int i = 0; i < h.n; i++) {
          double c = std::max(t.veh.r[i].wmin, std::min(t.veh.r[i].wmax, d.cmd[i]));
          if (c != 0 || pre.st.mw[i] != 0) return;
        }
        if (!d.direct && pre.floor_en) return;
        double s = std::sqrt(qf * d.dt) / t.veh.mass;
        for (int i = 0; i < 3; i++) {
          double z = (post.st.v[i] - pre.st.v[i] - (t.veh.g[i].v + d.ext[i].v / t.veh.mass) * d.dt) / s;
          double rnd = eps() * (std::fabs(pre.st.v[i]) + std::fabs(post.st.v[i])) * (d.dt / 0.01 + 2);
          if (rnd > 0.01 * s) continue;
          if (!(std::fabs(z) < 9)) return fail("noise-magnitude", "velocity noise of %.3g sigma over a step of %.6g s", z, d.dt);
          dv[i].add(z);
        }
        ok();
        probe("long noisy step judged");
      }
    }
  }
  void finish(const std::vector<Op> &) override {
    static const char *nm[6] = {"force x", "force y", "force z", "moment x", "moment y", "moment z"};
    std::string d;
    for (int i = 0; i < 6; i++) {
      if (const char *v = st[i].verdict(d)) return fail("noise-statistics", "%s noise, %s: %s", nm[i], v, d.c_str());
      if (st[i].n >= 200) { ok(); probe("noise channel judged statistically"); }
    }
    for (int i = 0; i < 3; i++) {
      if (const char *v = dv[i].verdict(d)) return fail("noise-statistics", "velocity noise of long steps, axis %d, %s: %s", i, v, d.c_str());
      if (dv[i].n >= 200) { ok(); probe("long step noise judged statistically"); }
    }
    int k = 0;
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < i; j++, k++)
        if (cr[k].bad(d)) return fail("noise-correlation", "%s and %s noise: %s", nm[i], nm[j], d.c_str());
  }
};
struct W13 : World {
  using World::World;
  void simulate() override {
    if (!r.p(0.15)) return World::simulate();
    pf.max_ops = 2600;
    pf.cfg.p_noise = 1;
    nominal = r.p(0.6);
    cfg = g.sim(pf.cfg, nominal);
    bool fall = r.p(0.5);
    if (fall) {
      cfg.dyn.model.drag = 0;
      if (cfg.dyn.model.layout == 0) for (auto &m : cfg.dyn.model.motor) m.wmin = 0;
      cfg.dyn.model.lmin = 0;
      for (double &x : cfg.dyn.st.mw) x = 0;
    }
    emit(OP_BOOT, flat(cfg));
    if (!fall) emit(OP_ARM);
    double dt = fall && r.p(0.6) ? r.logu(0.0101, 0.06) : r.p(0.75) ? r.logu(1e-4, 0.0099) : r.logu(1e-7, 1e-4);
    bool jit = r.p(0.5), direct = r.p(0.4);
    int n = 250 + r.i(1500);
    if (r.p(0.12)) { n = 6000; pf.max_ops = 9000; }  // enough for the tails
    for (int i = 0; i < n && !stop; i++) {
      double d = jit ? dt * r.u(0.5, 1.5) : dt;
      now += d;
      if (i % 60 == 59 || !finite_obs(obs(), 1e3)) {  // bring it back
        StateCfg s = g.state(true);
        if (fall) for (double &x : s.mw) x = 0;
        std::vector<double> a = flat(s);
        a.push_back(0);
        emit(OP_TELEPORT, a, F_teleport);
      }
      if (direct) {
        std::vector<double> a = {d, 0, 0, 0, 1};
        for (int j = 0; j < ex.h.n; j++) a.push_back(0);
        emit(OP_DYN_DIRECT, a);
      } else {
        emit(OP_DYN, {d});
        if (!fall && i % 3 == 0) emit(OP_CTRL, {d});
      }
    }
    ex.end();
  }
};
Profile p13() {
  Profile p;
  p.cfg.p_noise = 0.85;
  p.imu = p.odom = false;
  p.client = 4;
  p.reconf = 1;
  p.direct = 2;
  p.tele = 1;
  p.sensor = 0;
  p.floor = 1;
  p.p_floor = 0.5;
  p.max_ops = 300;
  return p;
}
RegProp r13({"P13", p13(), mk_checker<C13>, mk_world<W13>, 40000, 1000000, 1,
             "A run is one seeded deployment with process noise, landings, reconfigurations and noise switched off by the caller, or one "
             "long recording. An evaluation judges one dynamics update (noise absent exactly when it must be, within 9 sigma, and acting on "
             "the total force and torque; velocity noise of long steps), or with 200 samples one noise channel statistically (8 sigma). "
             "Non-trivial: at least one single step or statistic; distinct by the hash of operations and observations."});
}  // namespace
}  // namespace dst
