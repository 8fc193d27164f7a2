// Seeded generators of configurations and values (swarm style: every run draws its own mix).
#pragma once
#include "core.hpp"
#include "ref.hpp"

namespace dst {

struct CfgOpts {
  double p_nominal   = 0.6;   // physically sensible vehicle with a working controller
  double p_noise     = 0.3;   // process noise on
  double p_imu_noise = 0.3;   // IMU noise on
  double p_imu_rot   = 0.5;   // IMU not aligned with the body
  double p_consistent = 0.85; // controller configured for the vehicle it flies
  bool imu_ideal = false;
  bool unit_mass_never = false;
  bool fast = false;          // also rotors far faster and slower than usual
  bool tuned = false;         // motors fast enough for the nominal gains
};

struct Gen {
  Rng &r;
  int n;
  bool flt;
  Gen(Rng &rng, int nn, bool f) : r(rng), n(nn), flt(f) {}

  double val(double s) {  // a signed value of scale s, biased towards corner values
    int k = r.i(20);
    if (k == 0) return 0;
    if (k == 1) return -0.0;
    if (k == 2) return s * 1e-9 * r.normal();
    if (k == 3) return r.sgn();
    if (k == 4) return s * 10 * r.normal();
    return s * r.normal();
  }
  double seed() {
    static const double odd[8] = {0, 1, 2, -1, -7, 2147483647.0, 2147483646.0, -2147483648.0};
    int k = r.i(10);
    if (k == 0) return flt ? odd[r.i(5)] : odd[r.i(8)];
    if (k < 4) return r.i(1000);
    return r.i(2000000000);
  }
  void vec(double *d, double s, int m = 3) {
    int k = r.i(8);
    for (int i = 0; i < m; i++) d[i] = k == 0 ? 0.0 : val(s);
  }
  double angle() {
    int k = r.i(12);
    if (k == 0) return 0;
    if (k == 1) return M_PI;
    if (k == 2) return -M_PI;
    if (k == 3) return M_PI / 2;
    if (k <= 5) return r.u(-20, 20);
    return r.u(-M_PI, M_PI);
  }
  void unit(double *q) {
    int k = r.i(10);
    if (k == 0) { q[0] = 1; q[1] = q[2] = q[3] = 0; return; }
    if (k <= 3) {  // pure yaw
      double a = angle() / 2;
      q[0] = std::cos(a); q[1] = q[2] = 0; q[3] = std::sin(a);
      return;
    }
    double s;
    do {
      s = 0;
      for (int i = 0; i < 4; i++) { q[i] = r.normal(); s += q[i] * q[i]; }
    } while (s < 1e-3);
    s = std::sqrt(s);
    for (int i = 0; i < 4; i++) q[i] /= s;
  }
  void small_tilt(double *q, double amax) {
    double ax[3] = {r.normal(), r.normal(), r.normal()}, s = 0;
    for (double x : ax) s += x * x;
    s = std::sqrt(s) + 1e-12;
    double a = r.u(0, amax) / 2;
    q[0] = std::cos(a);
    for (int i = 0; i < 3; i++) q[1 + i] = std::sin(a) * ax[i] / s;
  }
  void spd(double *m, double a, double b, double c, double off) {
    // diag(a,b,c) plus a symmetric coupling small enough to stay positive definite
    for (int i = 0; i < 9; i++) m[i] = 0;
    m[0] = a; m[4] = b; m[8] = c;
    double lim = off * std::min(a, std::min(b, c));
    m[1] = m[3] = lim * r.u(-1, 1);
    m[2] = m[6] = lim * r.u(-1, 1);
    m[5] = m[7] = lim * r.u(-1, 1);
  }
  ModelCfg model(const CfgOpts &o, bool nominal) {
    ModelCfg c;
    memset(&c, 0, sizeof c);
    c.mass = r.p(0.12) ? 1.0 : (nominal ? r.logu(0.3, 4) : r.logu(0.05, 20));
    if (o.unit_mass_never && std::fabs(c.mass - 1) < 0.05) c.mass = 1.6;
    double g0 = 9.81;
    c.g[2] = -g0;
    if (!nominal) {
      int k = r.i(6);
      if (k == 0) c.g[2] = -r.u(1, 25);
      if (k == 1) { c.g[0] = r.normal(); c.g[1] = r.normal(); c.g[2] = -r.u(3, 15); }
      if (k == 2) c.g[2] = 0;
    }
    double l = o.tuned ? r.u(0.07, 0.12) : r.logu(0.06, 0.4), wh = r.u(500, 1400);
    double kt = c.mass * g0 / (n * wh * wh), kq = kt * (o.tuned ? r.u(0.2, 0.35) * l : r.u(0.01, 0.15));
    double wmax = wh * (o.tuned ? r.u(2, 2.4) : r.u(1.6, 2.4)), wmin = nominal || r.p(0.6) ? 0.0 : (r.p(0.5) ? wh * r.u(0.02, 0.2) : -wh * r.u(0.05, 1.5));
    double tc = nominal ? r.u(0.015, o.tuned ? 0.022 : 0.05) : r.logu(0.004, 0.3);
    if (o.fast && !nominal && r.p(0.2)) tc = r.logu(1e-4, 5);
    double J = r.p(0.15) ? 0.0 : o.tuned ? c.mass * l * l * r.u(0, 2e-4) : r.logu(1e-7, 2e-5);
    c.lkt = kt; c.lkq = kq; c.lx = l; c.ly = r.p(0.4) ? l : l * r.u(0.6, 1.6);
    c.lmin = wmin; c.lmax = wmax; c.ltc = tc; c.lJ = J;
    if (n == 4) c.layout = 1 + r.i(2);
    else if (n == 6) c.layout = 3;
    else c.layout = 0;
    if (!nominal && r.p(0.5)) {
      c.layout = 0;
      int flip = r.p(0.5) ? 1 : -1, dead = n > 4 && r.p(0.15) ? r.i(n) : -1;
      for (int i = 0; i < n; i++) {
        MotorCfg &m = c.motor[i];
        double a = 2 * M_PI * (i + 0.5) / n + r.u(-0.2, 0.2), li = l * r.u(0.7, 1.4);
        m.dir = i % 2 == 0 ? flip : -flip;
        m.kt = kt * r.u(0.5, 2); m.kq = kq * r.u(0.5, 2);
        m.px = li * std::cos(a); m.py = li * std::sin(a); m.pz = r.p(0.5) ? 0 : l * r.u(-0.5, 0.5);
        if (i == dead) (r.p(0.5) ? m.kt : m.kq) = 0;
        double q[4] = {1, 0, 0, 0};
        if (r.p(0.6)) small_tilt(q, 0.6);
        m.qw = q[0]; m.qx = q[1]; m.qy = q[2]; m.qz = q[3];
        m.wmin = wmin * r.u(0.5, 1.5); m.wmax = wmax * r.u(0.7, 1.5);
        m.tc = tc * r.u(0.6, 1.8); m.J = J * r.u(0.5, 2);
      }
    }
    double I = c.mass * l * l * (o.tuned ? r.u(0.35, 0.55) : r.u(0.35, 0.8));
    if (nominal || r.p(0.4)) spd(c.I, I, I * r.u(0.8, 1.25), I * r.u(1.1, 1.8), 0);
    else spd(c.I, I * r.u(0.5, 2), I * r.u(0.5, 2), I * r.u(0.8, 2), 0.35);
    c.drag = r.p(0.3) ? 0 : (nominal ? r.u(0.02, 0.25) * c.mass : r.logu(0.001, 1.0) * c.mass);
    double A = r.p(0.3) ? 0 : I * r.u(0.05, 1);
    if (nominal || r.p(0.5)) spd(c.aero, A, A, A, 0);
    else spd(c.aero, A * r.u(0.5, 2), A * r.u(0.5, 2), A * r.u(0.5, 2), 0.3);
    if (r.p(o.p_noise)) {
      c.qf = r.p(0.85) ? r.logu(1e-5, 1e-2) * c.mass * c.mass : 0;
      c.qm = r.p(0.85) ? r.logu(1e-7, 1e-3) * I * I * 50 : 0;
    }
    return c;
  }
  StateCfg state(bool level, double scale = 3) {
    StateCfg s;
    memset(&s, 0, sizeof s);
    s.q[0] = 1;
    if (level) {
      vec(s.p, scale);
      double a = angle() / 2;
      if (r.p(0.7)) { s.q[0] = std::cos(a); s.q[3] = std::sin(a); }
      return s;
    }
    vec(s.p, scale);
    unit(s.q);
    if (r.p(0.04)) {  // nose straight up or down, exactly
      double h = r.p(0.5) ? 0.70710678118654757 : 0.70710678118654746;
      s.q[0] = h; s.q[1] = 0; s.q[2] = r.sgn() * 0.70710678118654757; s.q[3] = 0;
    }
    vec(s.v, scale);
    vec(s.w, scale);
    vec(s.a, scale);
    vec(s.al, scale);
    vec(s.F, scale);
    vec(s.T, 0.1 * scale);
    for (int i = 0; i < n; i++) { s.mw[i] = r.p(0.3) ? 0 : r.u(0, 1500); s.ma[i] = val(50); }
    return s;
  }
  PidCfg pid_zero() {
    PidCfg p;
    memset(&p, 0, sizeof p);
    return p;
  }
  PidCfg pid_wild(int dim = 3) {
    PidCfg p = pid_zero();
    int k = r.i(6);
    for (int i = 0; i < dim; i++) {
      p.kp[i] = r.p(0.1) ? 0 : r.logu(0.05, 20);
      p.ki[i] = r.p(0.25) ? 0 : r.logu(0.01, 5);
      p.kd[i] = r.p(0.25) ? 0 : r.logu(0.01, 2);
      if (r.p(0.03)) { double *x[3] = {p.kp, p.ki, p.kd}; x[r.i(3)][i] *= -1; }
      p.alpha[i] = r.p(0.15) ? 0 : r.p(0.2) ? 1 : r.u();
      p.aw[i] = k < 2 ? 0 : (k == 2 && r.p(0.4)) ? 0 : r.logu(0.02, 3);
    }
    p.reset = r.p(0.5);
    int s = r.i(8);
    if (s >= 2) {
      for (int i = 0; i < dim; i++) {
        p.up[i] = r.logu(0.1, 20);
        p.lo[i] = s <= 4 ? -p.up[i] : -r.logu(0.1, 20);
      }
      p.prop = r.p(0.4);
      if (s == 7 && !p.prop)  // an interval that does not contain zero
        for (int i = 0; i < dim; i++)
          if (r.p(0.4)) { p.lo[i] = r.u(0.1, 2); p.up[i] = p.lo[i] + r.u(0.2, 3); }
      if (r.p(0.1)) {  // one-sided: nothing below zero, or nothing above it
        double *z = r.p(0.5) ? p.lo : p.up;
        for (int i = 0; i < dim; i++) z[i] = 0;
        for (int i = 0; i < dim; i++)
          if (p.lo[i] >= p.up[i]) { p.lo[i] = z == p.lo ? 0 : -1; p.up[i] = z == p.up ? 0 : 1; }
        p.prop = 0;
      } else if (r.p(0.1)) {  // narrow
        double f = r.logu(1e-4, 0.1);
        for (int i = 0; i < dim; i++) { p.lo[i] *= f; p.up[i] *= f; }
      }
      if (s == 6 && r.p(0.4)) {  // refused: an empty interval on one axis
        int j = r.i(dim);
        p.lo[j] = r.p(0.5) ? p.up[j] : p.up[j] + 1;
      }
    }
    return p;
  }
  void set3(double *d, double a, double b, double c) { d[0] = a; d[1] = b; d[2] = c; }
  CtrlCfg ctrl(const ModelCfg &m, const CfgOpts &o, bool nominal) {
    CtrlCfg c;
    memset(&c, 0, sizeof c);
    bool cons = nominal || r.p(o.p_consistent);
    c.amass = cons ? m.mass : m.mass * r.u(0.5, 1.6);
    for (int i = 0; i < 3; i++) c.ag[i] = cons ? m.g[i] : m.g[i] + r.normal();
    if (cons) memcpy(c.inertia, m.I, sizeof c.inertia);
    else spd(c.inertia, m.I[0] * r.u(0.5, 2), m.I[4] * r.u(0.5, 2), m.I[8] * r.u(0.5, 2), 0.3);
    if (nominal) {
      c.kprot[0] = c.kprot[4] = r.u(14, 20);
      c.kprot[8] = r.u(5, 9);
      double s = r.u(0.8, 1.1);
      set3(c.indi.kp, 9 * s, 9 * s, 9 * s); set3(c.indi.ki, 3, 3, 3); set3(c.indi.kd, .3, .3, .3);
      set3(c.indi.alpha, .6, .6, .6); set3(c.indi.aw, 1, 1, 1);
      set3(c.traj.kp, 10, 10, 10); set3(c.traj.ki, .005, .005, .005); set3(c.traj.kd, 6, 6, 6);
      set3(c.traj.aw, 1, 1, 1);
      set3(c.vel.kp, 6, 6, 10); set3(c.vel.ki, 1, 1, 2); set3(c.vel.kd, .4, .4, 0);
      set3(c.vel.alpha, .05, .05, 0); set3(c.vel.aw, 1, 1, 1);
      set3(c.vel.up, 4, 4, 4); set3(c.vel.lo, -4, -4, -4);
      set3(c.pos.kp, 1, 1, 1); set3(c.pos.ki, .01, .01, .01); set3(c.pos.alpha, .1, .1, 0);
      set3(c.pos.aw, .5, .5, .5);
      double vl = r.u(2, 10);
      set3(c.pos.up, vl, vl, vl); set3(c.pos.lo, -vl, -vl, -vl);
      c.pos.prop = r.p(0.5);
      c.vel.prop = 0;
    } else {
      int k = r.i(5);
      for (int i = 0; i < 9; i++) c.kprot[i] = (i % 4 == 0) ? r.u(1, 20) : (k == 0 ? r.u(-1, 1) : 0);
      if (k == 1) c.kprot[8] = 0;
      if (r.p(0.08)) { double f = r.logu(1, 30); for (double &x : c.kprot) x *= f; }
      if (r.p(0.03)) memset(c.inertia, 0, sizeof c.inertia);
      if (r.p(0.02)) memset(c.kprot, 0, sizeof c.kprot);
      if (r.p(0.02)) memset(c.ag, 0, sizeof c.ag);
      c.indi = pid_wild(); c.pos = pid_wild(); c.traj = pid_wild(); c.vel = pid_wild();
    }
    c.mixmode = (!flt && n == 4 && (cons || r.p(0.5))) ? 1 : 0;
    mix_of(m, c.mix);
    if (!cons && r.p(0.3))
      for (int i = 0; i < n; i++)
        for (int j = 2; j < 6; j++) c.mix[6 * i + j] *= r.u(0.5, 1.5);
    return c;
  }
  // least-squares inverse of the mixer of a vehicle, computed here (not by the library)
  void mix_of(const ModelCfg &m, double *out) {
    ref::Vehicle v = ref::make_vehicle(m, n);
    double A[4][MAXN], G[4][8];
    for (int i = 0; i < n; i++) {
      ref::V f = v.r[i].axis * ref::R(v.r[i].kt);
      ref::V t = cross(v.r[i].pos, f) + v.r[i].axis * ref::R(v.r[i].dir * v.r[i].kq);
      A[0][i] = f[2].v; A[1][i] = t[0].v; A[2][i] = t[1].v; A[3][i] = t[2].v;
    }
    double sc[4];
    for (int i = 0; i < 4; i++) {  // rows scaled: the normal equations stay well conditioned
      sc[i] = 0;
      for (int k = 0; k < n; k++) sc[i] = std::max(sc[i], std::fabs(A[i][k]));
      if (sc[i] == 0) sc[i] = 1;
      for (int k = 0; k < n; k++) A[i][k] /= sc[i];
    }
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++) {
        G[i][j] = 0;
        for (int k = 0; k < n; k++) G[i][j] += A[i][k] * A[j][k];
        G[i][4 + j] = i == j;
      }
    for (int c = 0; c < 4; c++) {
      int p = c;
      for (int i = c + 1; i < 4; i++) if (std::fabs(G[i][c]) > std::fabs(G[p][c])) p = i;
      for (int j = 0; j < 8; j++) std::swap(G[c][j], G[p][j]);
      double d = G[c][c];
      for (int j = 0; j < 8; j++) G[c][j] /= d;
      for (int i = 0; i < 4; i++) if (i != c) {
        double f = G[i][c];
        for (int j = 0; j < 8; j++) G[i][j] -= f * G[c][j];
      }
    }
    for (int i = 0; i < MAXN * 6; i++) out[i] = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < 4; j++) {
        double s = 0;
        for (int k = 0; k < 4; k++) s += A[k][i] * G[k][4 + j];
        out[6 * i + 2 + j] = s / sc[j];
      }
  }
  ImuCfg imu(const CfgOpts &o) {
    ImuCfg c;
    memset(&c, 0, sizeof c);
    c.q[0] = 1;
    c.seed = seed();
    if (o.imu_ideal) return c;
    if (r.p(o.p_imu_rot)) unit(c.q);
    if (r.p(o.p_imu_noise)) {
      c.gv = r.p(0.2) ? 0 : r.logu(1e-6, 1e-1);
      c.av = r.p(0.2) ? 0 : r.logu(1e-6, 1e-1);
      c.gb = r.p(0.4) ? 0 : r.logu(1e-8, 1e-3);
      c.ab = r.p(0.4) ? 0 : r.logu(1e-8, 1e-3);
    }
    return c;
  }
  OdomCfg odom(const CfgOpts &o, const double *q0) {
    OdomCfg c;
    c.alpha = o.imu_ideal || r.p(0.4) ? 1.0 : r.u(0.05, 1);
    if (q0) memcpy(c.q, q0, sizeof c.q);
    else unit(c.q);
    return c;
  }
  SimCfg sim(const CfgOpts &o, bool nominal) {
    SimCfg c;
    memset(&c, 0, sizeof c);
    c.dyn.model = model(o, nominal);
    c.dyn.st    = state(nominal || r.p(0.4));
    c.dyn.seed  = seed();
    c.ctrl      = ctrl(c.dyn.model, o, nominal);
    c.imu       = imu(o);
    c.odom      = odom(o, r.p(0.7) ? c.dyn.st.q : nullptr);
    return c;
  }
};

}  // namespace dst
