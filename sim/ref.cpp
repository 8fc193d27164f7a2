#include "ref.hpp"
namespace dst {
namespace ref {
thread_local double eps = DBL_EPSILON;

Vehicle make_vehicle(const ModelCfg &c, int n) {
  Vehicle v;
  v.n    = n;
  int lay = (int)c.layout;
  if ((lay == 1 || lay == 2) && n != 4) lay = 0;
  if (lay == 3 && n != 6) lay = 0;
  for (int i = 0; i < n; i++) {
    Rotor &r = v.r[i];
    if (lay == 0) {
      const MotorCfg &m = c.motor[i];
      r.pos  = V(m.px, m.py, m.pz);
      r.axis = rot(Q(R(m.qw), R(m.qx), R(m.qy), R(m.qz)), V(0, 0, 1));
      r.dir  = m.dir < 0 ? -1 : 1;
      r.kt   = m.kt;
      r.kq   = m.kq;
      r.wmin = m.wmin;
      r.wmax = m.wmax;
      r.tc   = m.tc;
      r.J    = m.J;
    } else {
      r.axis = V(0, 0, 1);
      r.dir  = i % 2 == 0 ? 1 : -1;  // rotors alternate their sense of rotation
      r.kt   = c.lkt;
      r.kq   = c.lkq;
      r.wmin = c.lmin;
      r.wmax = c.lmax;
      r.tc   = c.ltc;
      r.J    = c.lJ;
      if (lay == 1) {  // docs/CommonConfigurations.md, Quadrotor X
        static const double sx[4] = {1, 1, -1, -1}, sy[4] = {-1, 1, 1, -1};
        r.pos = V(sx[i] * c.lx, sy[i] * c.ly, 0);
      } else if (lay == 2) {  // Quadrotor +
        static const double sx[4] = {1, 0, -1, 0}, sy[4] = {0, 1, 0, -1};
        r.pos = V(sx[i] * c.lx, sy[i] * c.ly, 0);
      } else {  // Hexarotor: one rotor every 60 degrees, the first one ahead
        double a = i * M_PI / 3, e = 4 * eps * std::fabs(c.lx);
        r.pos = V(R(c.lx * std::cos(a), e), R(c.lx * std::sin(a), e), 0);
      }
    }
  }
  v.mass = c.mass;
  v.I    = M(c.I);
  v.Iinv = inv(v.I);
  v.aero = M(c.aero);
  v.drag = c.drag;
  v.g    = V(c.g);
  v.qf   = c.qf;
  v.qm   = c.qm;
  return v;
}

static double det9(const double *m) {
  return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
}
bool valid_model(const ModelCfg &c, int n) {
  if (c.mass < 0 || det9(c.I) < 0 || c.drag < 0 || det9(c.aero) < 0) return false;
  int lay = (int)c.layout;
  if ((lay == 1 || lay == 2) && n != 4) lay = 0;
  if (lay == 3 && n != 6) lay = 0;
  if (lay) return !(c.lmax < c.lmin || c.ltc < 0 || c.lJ < 0 || c.lkt < 0 || c.lkq < 0);
  for (int i = 0; i < n; i++) {
    const MotorCfg &m = c.motor[i];
    if (m.wmax < m.wmin || m.tc < 0 || m.J < 0 || m.kt < 0 || m.kq < 0) return false;
  }
  return true;
}

St make_state(const StateCfg &c, int n) {
  St s;
  s.p  = V(c.p);
  s.v  = V(c.v);
  s.w  = V(c.w);
  s.a  = V(c.a);
  s.al = V(c.al);
  s.F  = V(c.F);
  s.T  = V(c.T);
  s.q  = Q(c.q);
  for (int i = 0; i < n; i++) {
    s.mw[i] = c.mw[i];
    s.ma[i] = c.ma[i];
  }
  return s;
}

V thrust_body(const Vehicle &m, const R *w) {
  V f;
  for (int i = 0; i < m.n; i++) f = f + m.r[i].axis * (R(m.r[i].kt) * sq_sign(w[i]));
  return f;
}
V torque_body(const Vehicle &m, const R *w, const R *wd) {
  V t;
  for (int i = 0; i < m.n; i++) {
    const Rotor &r = m.r[i];
    R s            = sq_sign(w[i]);
    t = t + cross(r.pos, r.axis * R(r.kt)) * s + r.axis * (R(r.dir * r.kq) * s);
    if (wd) t = t + r.axis * (R(r.dir * r.J) * wd[i]);
  }
  return t;
}

void step(const Vehicle &m, St &s, const double *cmd, R dt, const V &ext, const V &sf, const V &sm) {
  // rotors: first order lag towards the clamped command
  for (int i = 0; i < m.n; i++) {
    double d = std::max(m.r[i].wmin, std::min(m.r[i].wmax, cmd[i]));
    s.ma[i]  = (R(d) - s.mw[i]) / R(m.r[i].tc);
  }
  V aero = -(m.aero * s.w) * norm(s.w);
  s.T    = torque_body(m, s.mw, s.ma) + aero + sm - cross(s.w, m.I * s.w);
  s.al   = m.Iinv * s.T;
  V drag(-(R(m.drag) * sq_sign(s.v[0])), -(R(m.drag) * sq_sign(s.v[1])), -(R(m.drag) * sq_sign(s.v[2])));
  s.F = rot(s.q, thrust_body(m, s.mw)) + m.g * R(m.mass) + drag + sf + ext;
  s.a = s.F / R(m.mass);
  Q qn = qstep(s.q, s.w, dt);
  for (int i = 0; i < m.n; i++) s.mw[i] = clamp(s.mw[i] + s.ma[i] * dt, m.r[i].wmin, m.r[i].wmax);
  s.p = s.p + s.v * dt;
  s.v = s.v + s.a * dt;
  s.q = qn;
  s.w = s.w + s.al * dt;
}

// ------------------------------------------------------------------------------------- PID
void Pid::set_sat(const double *up, const double *lo, bool prop) {
  for (int i = 0; i < dim; i++) {
    if (std::fabs(up[i] - lo[i]) < eps || up[i] < lo[i]) {
      sat = false;
      return;
    }
  }
  for (int i = 0; i < dim; i++) {
    c.up[i] = up[i];
    c.lo[i] = lo[i];
  }
  c.prop = prop;
  sat    = true;
}
void Pid::set_params(const PidCfg &p) {
  PidCfg old = c;
  c          = p;
  for (int i = 0; i < PD; i++) {  // limits only change through set_sat
    c.up[i] = old.up[i];
    c.lo[i] = old.lo[i];
  }
  bool any = false;
  for (int i = 0; i < dim; i++)
    if (p.up[i] != 0 || p.lo[i] != 0) any = true;
  if (any) set_sat(p.up, p.lo, p.prop != 0);
  else sat = false;
}
void Pid::run(double dt, const R *e, const R *ed) {
  if (first) {
    first = false;
    for (int i = 0; i < dim; i++) {
      I[i]    = 0;
      fd[i]   = 0;
      last[i] = e[i];
    }
  }
  bool anyaw = false;
  for (int i = 0; i < dim; i++)
    if (c.aw[i] != 0) anyaw = true;
  for (int i = 0; i < dim; i++) {
    pc[i] = R(c.kp[i]) * e[i];
    if (c.reset != 0) {
      // an integrator at (or beyond) its limit is cleared when the error has the opposite sign
      double margin = std::fabs(I[i].v) - c.aw[i];
      if (I[i].e > 0 && std::fabs(margin) <= tol(I[i])) ambiguous = true;
      if (std::fabs(e[i].v) <= tol(e[i]) && e[i].e > 0 && I[i].v != 0 && margin >= 0) ambiguous = true;
      if (std::fabs(I[i].v) <= tol(I[i]) && I[i].e > 0 && c.aw[i] == 0 && I[i].v != 0) ambiguous = true;
      if (margin >= 0 && std::signbit(I[i].v) != std::signbit(e[i].v)) I[i] = 0;
    }
    I[i] = I[i] + e[i] * R(dt);
    if (anyaw) {
      // once limited the integrator holds exactly the limit
      double lo = -c.aw[i], hi = c.aw[i];
      if (I[i].v > hi) I[i] = R(hi, I[i].v - tol(I[i]) > hi ? 0 : I[i].e);
      else if (I[i].v < lo) I[i] = R(lo, I[i].v + tol(I[i]) < lo ? 0 : I[i].e);
    }
    ic[i] = R(c.ki[i]) * I[i];
    if (ed) {
      dc[i]    = R(c.kd[i]) * ed[i];
      lastd[i] = ed[i];
    } else {
      if (dt != 0) {
        R rate = (e[i] - last[i]) / R(dt);
        fd[i]  = R(c.alpha[i]) * rate + (R(1) - R(c.alpha[i])) * fd[i];
      }
      dc[i] = R(c.kd[i]) * fd[i];
    }
    last[i] = e[i];
    out[i]  = pc[i] + ic[i] + dc[i];
  }
  if (sat) {
    if (c.prop == 0) {
      for (int i = 0; i < dim; i++) out[i] = clamp(out[i], c.lo[i], c.up[i]);
    } else {
      // scale the whole vector, axis after axis, until every axis is inside its limits
      for (int i = 0; i < dim; i++) {
        R f(1);
        if (out[i].v > c.up[i]) f = R(c.up[i]) / out[i];
        else if (out[i].v < c.lo[i]) f = R(c.lo[i]) / out[i];
        else {  // an axis that rounding may put beyond its limit scales the others a little
          double o1 = out[i].v + KTOL * out[i].e - c.up[i], o2 = c.lo[i] - out[i].v + KTOL * out[i].e;
          if (o1 > 0 && c.up[i] != 0) f.e = std::max(f.e, o1 / std::fabs(c.up[i]) / KTOL);
          if (o2 > 0 && c.lo[i] != 0) f.e = std::max(f.e, o2 / std::fabs(c.lo[i]) / KTOL);
        }
        for (int j = 0; j < dim; j++) out[j] = out[j] * f;
      }
    }
  }
}

// ------------------------------------------------------------------------------------- controller
void quad_mixer_inverse(const Vehicle &v, R out[MAXN][6]) {
  // rows: Fz, Tx, Ty, Tz of a unit squared speed of each rotor
  R a[4][8];
  for (int i = 0; i < 4; i++) {
    V f = v.r[i].axis * R(v.r[i].kt);
    V t = cross(v.r[i].pos, f) + v.r[i].axis * R(v.r[i].dir * v.r[i].kq);
    a[0][i] = f[2];
    a[1][i] = t[0];
    a[2][i] = t[1];
    a[3][i] = t[2];
    for (int j = 0; j < 4; j++) a[i][4 + j] = R(i == j ? 1.0 : 0.0);
  }
  // row scaling does not change the inverse and keeps the error bound meaningful
  for (int c = 0; c < 4; c++) {
    int p = c;
    for (int r = c + 1; r < 4; r++)
      if (std::fabs(a[r][c].v) > std::fabs(a[p][c].v)) p = r;
    for (int j = 0; j < 8; j++) std::swap(a[c][j], a[p][j]);
    R d = a[c][c];
    for (int j = 0; j < 8; j++) a[c][j] = a[c][j] / d;
    for (int r = 0; r < 4; r++)
      if (r != c) {
        R f = a[r][c];
        if (f.v == 0 && f.e == 0) continue;
        for (int j = 0; j < 8; j++) a[r][j] = a[r][j] - f * a[c][j];
      }
  }
  for (int i = 0; i < 4; i++) {
    out[i][0] = out[i][1] = R(0);
    for (int j = 0; j < 4; j++) out[i][2 + j] = a[i][4 + j];
  }
}
void Ctrl::update(const CtrlCfg &k, const Vehicle &veh, int which) {
  if (which == -1 || which == 0 || which == 5) c.amass = k.amass;
  if (which == -1 || which == 0 || which == 7) memcpy(c.kprot, k.kprot, sizeof k.kprot);
  if (which == -1 || which == 0 || which == 6) memcpy(c.ag, k.ag, sizeof k.ag);
  if (which == -1 || which == 1 || which == 8) memcpy(c.inertia, k.inertia, sizeof k.inertia);
  if (which == -1 || which == 1 || which == 9) {
    c.mixmode = k.mixmode;
    if (k.mixmode != 0 && n == 4) {
      quad_mixer_inverse(veh, mix);
    } else {
      for (int i = 0; i < n; i++)
        for (int j = 0; j < 6; j++) mix[i][j] = R(k.mix[6 * i + j]);
    }
  }
  if (which == -1 || which == 1) indi.set_params(k.indi);
  if (which == -1 || which == 2) pos.set_params(k.pos);
  if (which == -1 || which == 3) traj.set_params(k.traj);
  if (which == -1 || which == 4) vel.set_params(k.vel);
}
void Ctrl::init(const CtrlCfg &k, const Vehicle &veh, int nn) {
  *this = Ctrl();
  memset(&c, 0, sizeof c);
  n = nn;
  PidCfg z;
  memset(&z, 0, sizeof z);
  indi.init(z, 3);
  pos.init(z, 3);
  traj.init(z, 3);
  vel.init(z, 3);
  update(k, veh, -1);
}
void Ctrl::reset() { indi.first = pos.first = traj.first = vel.first = true; }

void Ctrl::acro(const V &w_now, R thrust, const V &w_des, double dt) {
  thr   = thrust;
  w     = w_des;
  V err = w_des - w_now;
  indi.run(dt, err.x, nullptr);
  V al(indi.out[0], indi.out[1], indi.out[2]);
  M I(c.inertia);
  torque = I * al + cross(w_des, I * w_des);
  R d[6] = {R(0), R(0), thrust, torque[0], torque[1], torque[2]};
  for (int i = 0; i < n; i++) {
    R s(0);
    for (int j = 2; j < 6; j++) s = s + mix[i][j] * d[j];
    mot[i] = sqrt_sign(s);
  }
}
void Ctrl::accel_stage(const M &Rm, const V &a_des, R yaw) {
  a      = a_des;
  V f    = (a_des - V(c.ag)) * R(c.amass);
  R fn   = norm(f);
  V xc(cos(yaw), sin(yaw), R(0));
  V zb   = f / fn;
  V yc   = cross(zb, xc);
  R yn   = norm(yc);
  if (!(fn.v > 1e-3) || !(yn.v > 1e-3)) ambiguous = true;  // attitude not defined by the command
  V yb = yc / yn;
  V xb = cross(yb, zb);
  xb   = xb / norm(xb);
  M D;
  for (int i = 0; i < 3; i++) {
    D.m[i][0] = xb[i];
    D.m[i][1] = yb[i];
    D.m[i][2] = zb[i];
  }
  M A = mul(tr(D), Rm), B = mul(tr(Rm), D);
  auto E = [&](int i, int j) { return A.m[i][j] - B.m[i][j]; };
  V err(R(0.5) * E(2, 1), R(0.5) * E(0, 2), R(0.5) * E(1, 0));
  V wd = -(M(c.kprot) * err);
  acw        = wd;
  acro_valid = true;
  V z(Rm.m[0][2], Rm.m[1][2], Rm.m[2][2]);
  R tb = dot(f, z) / norm(z);
  if (std::fabs(tb.v) <= tol(tb)) ambiguous = true;  // the sign of the thrust is not decided
  if (tb.v < 0) {
    tb = R(0);
    wd = V();
  }
  thr = tb;
  w   = wd;
}
void Ctrl::accel(const M &Rm, const V &w_now, const V &a_des, R yaw, double dt) {
  accel_stage(Rm, a_des, yaw);
  acro(w_now, thr, w, dt);
}
void Ctrl::velocity(const V &v_now, const M &Rm, const V &w_now, const V &v_des, R yaw, double dt) {
  v     = v_des;
  V err = v_des - v_now;
  vel.run(dt, err.x, nullptr);
  accel(Rm, w_now, V(vel.out[0], vel.out[1], vel.out[2]), yaw, dt);
}
void Ctrl::position(const V &p_now, const M &Rm, const V &v_now, const V &w_now, const V &p_des, R yaw, double dt) {
  p     = p_des;
  V err = p_des - p_now;
  pos.run(dt, err.x, nullptr);
  velocity(v_now, Rm, w_now, V(pos.out[0], pos.out[1], pos.out[2]), yaw, dt);
}
void Ctrl::trajectory(const V &p_now, const V &v_now, const M &Rm, const V &w_now, const V &p_des, const V &v_des,
                      const V &a_des, R yaw, double dt) {
  p    = p_des;
  v    = v_des;
  V e  = p_des - p_now;
  V ed = v_des - v_now;
  traj.run(dt, e.x, ed.x);
  accel(Rm, w_now, V(traj.out[0], traj.out[1], traj.out[2]) + a_des, yaw, dt);
}
}  // namespace ref
}  // namespace dst
