// Shared pieces of the checkers of the vehicle law.
#pragma once
#include "track.hpp"
namespace dst {
using namespace ref;

struct EpsZero {
  double old;
  EpsZero() : old(ref::eps) { ref::eps = 0; }
  ~EpsZero() { ref::eps = old; }
};

// integrate with n equal steps, plain arithmetic
inline St integ(const Vehicle &veh, const Obs &pre, int n, const double *cmd, double dt, const V &ext, int steps) {
  EpsZero z;
  St s = make_state(pre.st, n);
  for (int i = 0; i < steps; i++) step(veh, s, cmd, R(dt / steps), ext, V(), V());
  return s;
}

// the same time in other partitions a correct implementation may choose: 0 full steps and a remainder, 1 the same with the
// remainder first, 2 the remainder split in two, 3/4 equal steps with the last/first one split in two
inline St integ_split(const Vehicle &veh, const Obs &pre, int n, const double *cmd, double dt, const V &ext, int k, int kind) {
  EpsZero z;
  St s = make_state(pre.st, n);
  auto go = [&](double h) { if (h > 0) step(veh, s, cmd, R(h), ext, V(), V()); };
  double rest = dt - 0.01 * (k - 1), eq = dt / k;
  if (k == 1) { go(dt / 2); go(dt / 2); return s; }
  if (kind == 1) go(rest);
  if (kind == 4) { go(eq / 2); go(eq / 2); }
  for (int i = 0; i < k - 1; i++) go(kind < 3 ? 0.01 : eq);
  if (kind == 0) go(rest);
  if (kind == 2) { go(rest / 2); go(rest / 2); }
  if (kind == 3) { go(eq / 2); go(eq / 2); }
  return s;
}

struct DynCall {
  bool is = false, direct = false;
  double dt = 0;
  V ext;
  const double *cmd = nullptr;
  bool unsure = false;
  bool noise = false;  // the update is allowed to draw process noise
};
inline DynCall dyn_call(const Track &t, const Op &op, const Obs &pre) {
  DynCall c;
  if (op.kind == OP_DYN) {
    c.is    = true;
    c.dt    = op.a[0];
    c.ext   = t.support(pre);
    c.cmd   = pre.act;
    c.noise = !t.contact;
    c.unsure = t.unsure;
  } else if (op.kind == OP_DYN_DIRECT) {
    c.is     = true;
    c.direct = true;
    c.dt     = op.a[0];
    c.ext    = V(op.a[1], op.a[2], op.a[3]);
    c.noise  = op.a[4] != 0;
    c.cmd    = op.a.data() + 5;
  }
  return c;
}
inline int steps_for(double dt) { return std::max(1, (int)std::ceil(dt / 0.01 - 1e-12)); }

// compare a whole state with a one-step reference; returns 0 ok, 1 failed
// torque_alt: the known finding (the force noise drives the rotation)
inline bool cmp_state(Checker &c, const char *cls, const StateCfg &o, const St &s, int n, bool kin, const St *alt = nullptr) {
  if (!c.near3(cls, "force", o.F, s.F)) return false;
  if (kin) {
    if (!c.near3(cls, "linear acceleration", o.a, s.a)) return false;
    if (!c.near3(cls, "position", o.p, s.p)) return false;
    if (!c.near3(cls, "linear velocity", o.v, s.v)) return false;
    if (!c.near(cls, "qw", o.q[0], s.q.w) || !c.near(cls, "qx", o.q[1], s.q.x) || !c.near(cls, "qy", o.q[2], s.q.y) ||
        !c.near(cls, "qz", o.q[3], s.q.z))
      return false;
  }
  for (int i = 0; i < n; i++) {
    if (!c.near(cls, "rotor speed", o.mw[i], s.mw[i])) return false;
    if (!c.near(cls, "rotor acceleration", o.ma[i], s.ma[i])) return false;
  }
  auto ang = [&](const St &x, Checker &k) {
    if (!k.near3(cls, "torque", o.T, x.T)) return false;
    if (kin) {
      if (!k.near3(cls, "angular acceleration", o.al, x.al)) return false;
      if (!k.near3(cls, "angular velocity", o.w, x.w)) return false;
    }
    return true;
  };
  if (alt) {
    struct Dummy : Checker {
      void step(const Op &, const Obs &, const Obs &, const Result &) override {}
    } d;
    d.h = c.h;
    if (ang(*alt, d)) return true;
  }
  return ang(s, c);
}

}  // namespace dst
