// Independent executable reference model. Written from the documentation and the header comments,
// without Eigen and without any library code. Every number carries a first-order bound of the
// rounding error a correct implementation of precision `eps` may accumulate on the way, so that an
// implementation that merely re-associates its arithmetic is never reported.
#pragma once
#include <algorithm>
#include <cfloat>
#include <cmath>
#include "core.hpp"

namespace dst {
namespace ref {

extern thread_local double eps;  // unit roundoff of the precision under test
inline double tiny() { return eps > 1e-10 ? 3e-45 : 1e-300; }  // gradual underflow

struct R {
  double v = 0, e = 0;
  R() {}
  R(double x) : v(x), e(0) {}
  R(double x, double y) : v(x), e(y) {}
};
inline R operator+(R a, R b) { return R(a.v + b.v, a.e + b.e + eps * (std::fabs(a.v) + std::fabs(b.v))); }
inline R operator-(R a, R b) { return R(a.v - b.v, a.e + b.e + eps * (std::fabs(a.v) + std::fabs(b.v))); }
inline R operator-(R a) { return R(-a.v, a.e); }
inline R operator*(R a, R b) {
  double p = a.v * b.v;
  return R(p, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e + eps * std::fabs(p) + tiny());
}
inline R operator/(R a, R b) {
  double q = a.v / b.v, d = std::fabs(b.v);
  double m = d > 2 * b.e ? d - b.e : d * 0.5;
  return R(q, (a.e + std::fabs(q) * b.e) / m + eps * std::fabs(q) + tiny());
}
inline R &operator+=(R &a, R b) { return a = a + b; }
inline R &operator-=(R &a, R b) { return a = a - b; }
inline R sqrt(R a) {
  double x = a.v > 0 ? std::sqrt(a.v) : 0;
  double e = std::min(std::sqrt(a.e + (a.v < 0 ? -a.v : 0)), x > 0 ? a.e / x : 1e300);
  return R(x, e + eps * x);
}
inline R fabs(R a) { return R(std::fabs(a.v), a.e); }
inline R sin(R a) { return R(std::sin(a.v), a.e + 2 * eps + eps * std::fabs(a.v)); }
inline R cos(R a) { return R(std::cos(a.v), a.e + 2 * eps + eps * std::fabs(a.v)); }
constexpr double KTOL = 48;  // safety factor over the first-order bound
inline R atan2(R y, R x) {
  double h = x.v * x.v + y.v * y.v;
  double e = h > 0 ? (std::fabs(x.v) * y.e + std::fabs(y.v) * x.e) / h : 8;
  if (std::sqrt(h) <= KTOL * (x.e + y.e)) e = 8;  // no direction left (gimbal lock): any angle
  return R(std::atan2(y.v, x.v), e + 8 * eps);
}
inline R sq_sign(R a) { return a * fabs(a); }                       // sign(a) * a^2
inline R sqrt_sign(R a) {                                           // sign(a) * sqrt|a|
  R s = sqrt(fabs(a));
  return R(a.v < 0 ? -s.v : a.v > 0 ? s.v : 0.0, s.e);
}
inline R clamp(R a, double lo, double hi) {
  if (a.v < lo) return R(lo, std::max(0.0, a.e - (lo - a.v)));
  if (a.v > hi) return R(hi, std::max(0.0, a.e - (a.v - hi)));
  return a;
}

inline double tol(R r) { return KTOL * r.e + (eps > 1e-10 ? 1e-15 : 1e-30); }
inline bool near(double sut, R r) {
  if (!std::isfinite(r.v)) return true;  // outside the domain of the reference
  return std::fabs(sut - r.v) <= tol(r);
}

struct V {
  R x[3];
  V() {}
  V(R a, R b, R c) {
    x[0] = a;
    x[1] = b;
    x[2] = c;
  }
  explicit V(const double *p) {
    for (int i = 0; i < 3; i++) x[i] = R(p[i]);
  }
  R &operator[](int i) { return x[i]; }
  const R &operator[](int i) const { return x[i]; }
};
inline V operator+(const V &a, const V &b) { return V(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V operator-(const V &a, const V &b) { return V(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V operator-(const V &a) { return V(-a[0], -a[1], -a[2]); }
inline V operator*(const V &a, R s) { return V(a[0] * s, a[1] * s, a[2] * s); }
inline V operator/(const V &a, R s) { return V(a[0] / s, a[1] / s, a[2] / s); }
inline R dot(const V &a, const V &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V cross(const V &a, const V &b) {
  return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
inline R norm(const V &a) { return sqrt(dot(a, a)); }
struct M {
  R m[3][3];
  M() {}
  explicit M(const double *p) {
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) m[i][j] = R(p[3 * i + j]);
  }
};
inline V operator*(const M &a, const V &v) {
  V r;
  for (int i = 0; i < 3; i++) r[i] = a.m[i][0] * v[0] + a.m[i][1] * v[1] + a.m[i][2] * v[2];
  return r;
}
inline M mul(const M &a, const M &b) {
  M r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r.m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
  return r;
}
inline M tr(const M &a) {
  M r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r.m[i][j] = a.m[j][i];
  return r;
}
inline M inv(const M &a) {
  M c;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      int a1 = (i + 1) % 3, a2 = (i + 2) % 3, b1 = (j + 1) % 3, b2 = (j + 2) % 3;
      c.m[j][i] = a.m[a1][b1] * a.m[a2][b2] - a.m[a1][b2] * a.m[a2][b1];
    }
  R det = a.m[0][0] * c.m[0][0] + a.m[0][1] * c.m[1][0] + a.m[0][2] * c.m[2][0];
  for (auto &row : c.m)
    for (auto &x : row) x = x / det;
  return c;
}
struct Q {  // w x y z
  R w, x, y, z;
  Q() : w(1) {}
  Q(R a, R b, R c, R d) : w(a), x(b), y(c), z(d) {}
  explicit Q(const double *p) : w(p[0]), x(p[1]), y(p[2]), z(p[3]) {}
};
inline Q mul(const Q &a, const Q &b) {
  return Q(a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
           a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w);
}
inline Q conj(const Q &a) { return Q(a.w, -a.x, -a.y, -a.z); }
inline Q normalized(const Q &a) {
  R n = sqrt(a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z);
  return Q(a.w / n, a.x / n, a.y / n, a.z / n);
}
// rotation by a unit quaternion
inline M rotm(const Q &q) {
  M r;
  R two(2), one(1);
  r.m[0][0] = one - two * (q.y * q.y + q.z * q.z);
  r.m[0][1] = two * (q.x * q.y - q.w * q.z);
  r.m[0][2] = two * (q.x * q.z + q.w * q.y);
  r.m[1][0] = two * (q.x * q.y + q.w * q.z);
  r.m[1][1] = one - two * (q.x * q.x + q.z * q.z);
  r.m[1][2] = two * (q.y * q.z - q.w * q.x);
  r.m[2][0] = two * (q.x * q.z - q.w * q.y);
  r.m[2][1] = two * (q.y * q.z + q.w * q.x);
  r.m[2][2] = one - two * (q.x * q.x + q.y * q.y);
  return r;
}
inline V rot(const Q &q, const V &v) { return rotm(q) * v; }
inline R yaw_of(const Q &q0) {
  Q q = normalized(q0);
  return atan2(R(2) * (q.w * q.z + q.x * q.y), R(1) - R(2) * (q.y * q.y + q.z * q.z));
}
inline void euler(const Q &q0, R &roll, R &pitch, R &yaw) {
  Q q   = normalized(q0);
  roll  = atan2(R(2) * (q.w * q.x + q.y * q.z), R(1) - R(2) * (q.x * q.x + q.y * q.y));
  R sp  = R(2) * (q.w * q.y - q.z * q.x);
  double c = std::fabs(sp.v) >= 1 ? 0 : std::sqrt(1 - sp.v * sp.v);
  pitch = R(std::asin(std::max(-1.0, std::min(1.0, sp.v))),
            std::min(c > 0 ? sp.e / c : 1e300, 2 * std::sqrt(KTOL * sp.e + eps)) + 4 * eps);
  yaw   = yaw_of(q);
}
// one explicit Euler step of the attitude
inline Q qstep(const Q &q, const V &w, R dt) {
  Q d = mul(q, Q(R(0), w[0], w[1], w[2]));
  R h = R(0.5) * dt;
  return normalized(Q(q.w + d.w * h, q.x + d.x * h, q.y + d.y * h, q.z + d.z * h));
}

// ------------------------------------------------------------------------------------- vehicle
struct Rotor {
  V pos, axis;
  double dir, kt, kq, wmin, wmax, tc, J;
};
struct Vehicle {
  int n = 4;
  Rotor r[MAXN];
  double mass = 1;
  M I, Iinv, aero;
  double drag = 0;
  V g;
  double qf = 0, qm = 0;
};
Vehicle make_vehicle(const ModelCfg &c, int n);
bool valid_model(const ModelCfg &c, int n);  // the documented acceptance test of model parameters

struct St {
  V p, v, w, a, al, F, T;
  Q q;
  R mw[MAXN], ma[MAXN];
};
St make_state(const StateCfg &c, int n);

// motor forces and torques in the body frame
V thrust_body(const Vehicle &m, const R *w);
V torque_body(const Vehicle &m, const R *w, const R *wd);
// one integration step, dt <= 0.01 s
void step(const Vehicle &m, St &s, const double *cmd, R dt, const V &ext, const V &sf, const V &sm);

// ------------------------------------------------------------------------------------- PID
struct Pid {
  PidCfg c;
  int dim = 3;
  bool sat = false, first = true, ambiguous = false;
  R I[PD], fd[PD], last[PD], lastd[PD];
  R pc[PD], ic[PD], dc[PD], out[PD];
  void init(const PidCfg &p, int d) {
    *this = Pid();
    dim   = d;
    set_params(p);
  }
  void set_params(const PidCfg &p);
  void set_sat(const double *up, const double *lo, bool prop);
  void run(double dt, const R *e, const R *ed /*null: derive*/);
};

// ------------------------------------------------------------------------------------- controller
struct Ctrl {
  CtrlCfg c;
  int n = 4;
  Pid indi, pos, traj, vel;
  R mix[MAXN][6];
  // outputs
  R mot[MAXN], thr;
  V w, a, v, p, torque;
  bool ambiguous = false;      // a discontinuity is closer than the error bound: nothing to compare
  bool acro_valid = false;     // acw below was computed
  V acw;
  void init(const CtrlCfg &c, const Vehicle &veh, int n);
  void update(const CtrlCfg &c, const Vehicle &veh, int which /*-1 all*/);
  void acro(const V &w_now, R thrust, const V &w_des, double dt);
  void accel_stage(const M &Rm, const V &a_des, R yaw);  // sets thr, w, acw
  void accel(const M &Rm, const V &w_now, const V &a_des, R yaw, double dt);
  void velocity(const V &v_now, const M &Rm, const V &w_now, const V &v_des, R yaw, double dt);
  void position(const V &p_now, const M &Rm, const V &v_now, const V &w_now, const V &p_des, R yaw, double dt);
  void trajectory(const V &p_now, const V &v_now, const M &Rm, const V &w_now, const V &p_des, const V &v_des,
                  const V &a_des, R yaw, double dt);
  void reset();
};
// Mixer inverse of a 4-rotor vehicle computed from its geometry ([Fz, T] rows; columns 0,1 zero)
void quad_mixer_inverse(const Vehicle &v, R out[MAXN][6]);

}  // namespace ref
}  // namespace dst
