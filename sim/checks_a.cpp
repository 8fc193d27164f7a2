// P01 time advance, P02 single step law, P03 rotors, P04 unit attitude, P05 floor, P06 disarm
#include "law.hpp"
namespace dst {
using namespace ref;
namespace {

// ======================================================================= P01
struct C01 : Checker {
  Track t;
  void begin() override { t.n = h.n; }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    DynCall d = dyn_call(t, op, pre);
    if (d.is && !r.exc && d.dt > 0) judge(d, pre, post);
    t.update(op, pre, post, r);
  }
  void judge(const DynCall &d, const Obs &pre, const Obs &post) {
    if (!finite_obs(pre, 1e5) || !finite_state(pre.st, 1e7)) return;
    bool quiet = !d.noise || !t.stoch;
    // the rotors are a clock that noise cannot disturb: first order lag over dt, any partition
    for (int i = 0; i < h.n; i++) {
      const Rotor &m = t.veh.r[i];
      if (m.tc < 0.0101) continue;
      double cmd = std::max(m.wmin, std::min(m.wmax, d.cmd[i]));
      double e0 = cmd - pre.st.mw[i], e1 = cmd - post.st.mw[i];
      if (pre.st.mw[i] < m.wmin || pre.st.mw[i] > m.wmax || std::fabs(e0) < 1) continue;
      double hi = std::exp(-d.dt / m.tc), lo;
      if (d.dt <= 0.01) lo = 1 - d.dt / m.tc;
      else lo = std::pow(1 - 0.01 / m.tc, std::ceil(d.dt / 0.01));
      double tol = (h.flt ? 2e-4 : 1e-9) * (1 + std::fabs(cmd) / std::fabs(e0));
      double x = e1 / e0;
      if (x < lo - tol || x > hi + tol)
        return fail("rotor-clock", "a step of dt=%.9g s moved rotor %d (tau=%.6g) to a remaining error ratio of %.9g; %.9g s "
                    "of first order lag leave between %.9g and %.9g", d.dt, i, m.tc, x, d.dt, lo, hi);
      ok();
      probe(d.dt > 0.01 ? "rotor clock, long step" : "rotor clock, short step");
    }
    if (!quiet) return;
    if (!d.direct && pre.floor_en && pre.st.p[2] < pre.floor_h) return;  // supported by the floor: P05
    int k = steps_for(d.dt);
    if (k > 2500) return;
    bool whole = k <= 400;  // very long steps: the clocks only
    // any partition into steps of at most 10 ms is as good: the spread of several is the integration error
    St a = integ(t.veh, pre, h.n, d.cmd, d.dt, d.ext, k);
    std::vector<St> alt = {integ(t.veh, pre, h.n, d.cmd, d.dt, d.ext, k + 1)};
    if (whole) alt.push_back(integ(t.veh, pre, h.n, d.cmd, d.dt, d.ext, 2 * k));
    if (whole && k > 1)
      for (int i = 0; i < 5; i++) alt.push_back(integ_split(t.veh, pre, h.n, d.cmd, d.dt, d.ext, k, i));
    const St &b = alt[0];
    if (!d.direct && pre.floor_en && (contact_pattern(post) || a.p[2].v < pre.floor_h)) return;
    for (const St &x : alt)
      if (!d.direct && pre.floor_en && x.p[2].v < pre.floor_h) return;
    double rel = h.flt ? 3e-4 : 1e-10;
    auto chk = [&](const char *w, const double *o, V St::*f, const double *p0, double sc) {
      double spread = 0;
      const V &x = a.*f;
      for (const St &y : alt)
        for (int i = 0; i < 3; i++) spread = std::max(spread, std::fabs(x[i].v - (y.*f)[i].v));
      for (int i = 0; i < 3; i++) {
        if (!std::isfinite(x[i].v) || !std::isfinite((b.*f)[i].v) || std::fabs(x[i].v) > 1e7) continue;
        if (!std::isfinite(spread)) continue;
        double tol = 3 * spread + rel * (1 + std::fabs(x[i].v) + std::fabs(p0[i]) + sc);
        if (std::fabs(o[i] - x[i].v) > tol) {
          fail("time-advance", "after dt=%.9g s %s[%d]=%.12g, the law integrated over dt gives %.12g (tolerance %.3g)", d.dt,
               w, i, o[i], x[i].v, tol);
          return;
        }
      }
    };
    double av = std::fabs(a.a[0].v) + std::fabs(a.a[1].v) + std::fabs(a.a[2].v);
    double wv = std::fabs(a.al[0].v) + std::fabs(a.al[1].v) + std::fabs(a.al[2].v);
    if (whole) {
    chk("position", post.st.p, &St::p, pre.st.p, av * d.dt);
    chk("velocity", post.st.v, &St::v, pre.st.v, av * d.dt);
    chk("angular velocity", post.st.w, &St::w, pre.st.w, wv * d.dt);
    double qa[4] = {a.q.w.v, a.q.x.v, a.q.y.v, a.q.z.v}, qs = 0;
    for (const St &y : alt) {
      double qy[4] = {y.q.w.v, y.q.x.v, y.q.y.v, y.q.z.v};
      for (int i = 0; i < 4; i++) qs = std::isfinite(qy[i]) ? std::max(qs, std::fabs(qa[i] - qy[i])) : 1e300;
    }
    double wmax = std::fabs(pre.st.w[0]) + std::fabs(pre.st.w[1]) + std::fabs(pre.st.w[2]);
    for (int i = 0; i < 4 && !failed && std::isfinite(qs); i++) {
      double tol = 3 * qs + rel * (10 + wmax + wv * d.dt);
      if (std::isfinite(qa[i]) && std::fabs(post.st.q[i] - qa[i]) > tol)
        fail("time-advance", "after dt=%.9g s attitude[%d]=%.12g, the law integrated over dt gives %.12g (tolerance %.3g)",
             d.dt, i, post.st.q[i], qa[i], tol);
    }
    ok();
    probe(d.dt > 0.01 ? "long step" : "short step");
    }
    // constant force: elapsed time read off the velocity, whatever the partition
    bool steady = t.veh.drag == 0;
    for (int i = 0; i < 3; i++) steady = steady && pre.st.w[i] == 0 && post.st.w[i] == 0;
    for (int i = 0; i < h.n; i++)
      steady = steady && pre.st.mw[i] == post.st.mw[i] && pre.st.mw[i] == std::max(t.veh.r[i].wmin, std::min(t.veh.r[i].wmax, d.cmd[i]));
    if (steady && !failed) {
      V acc = integ(t.veh, pre, h.n, d.cmd, std::min(d.dt, 0.01), d.ext, 1).a;  // the body does not rotate: it stays what it is at the start
      for (int i = 0; i < 3; i++) {
        double ai = acc[i].v, dv = post.st.v[i] - pre.st.v[i], dp = post.st.p[i] - pre.st.p[i];
        // the spread of the partitions covers increments that vanish in the rounding of a large velocity
        double tv = rel * (1 + std::fabs(pre.st.v[i]) + std::fabs(ai * d.dt)) + (k + 1) * eps() * (std::fabs(pre.st.v[i]) + std::fabs(post.st.v[i]));
        if (std::fabs(dv - ai * d.dt) > tv)
          return fail("ballistic-clock", "constant acceleration %.9g for dt=%.9g changed the velocity by %.12g from %.17g (F %.17g)", ai, d.dt, dv, pre.st.v[i], post.st.F[i]);
        double c0 = pre.st.v[i] * d.dt, e1 = c0 + 0.5 * ai * d.dt * d.dt, e2 = e1 - 0.5 * ai * std::min(d.dt, 0.01) * d.dt;
        double tp = rel * (1 + std::fabs(pre.st.p[i]) + std::fabs(c0) + std::fabs(e1)) + tv * d.dt + (k + 1) * eps() * (std::fabs(pre.st.p[i]) + std::fabs(post.st.p[i]));
        if (dp < std::min(e1, e2) - tp || dp > std::max(e1, e2) + tp)
          return fail("ballistic-clock", "constant acceleration %.9g from %.9g m/s for dt=%.9g moved the vehicle by %.12g, not in [%.12g, %.12g]",
                      ai, pre.st.v[i], d.dt, dp, std::min(e1, e2), std::max(e1, e2));
      }
      ok();
      probe("ballistic clock");
    }
  }
};
// a world in which half of the vehicles are in steady states, so that elapsed time can be read exactly
struct W01 : World {
  using World::World;
  void on_admin() override {
    if (r.p(0.5)) return World::on_admin();
    // a steady vehicle: rotors at their commanded speed, no rotation
    StateCfg s = obs().st;
    for (int i = 0; i < 3; i++) s.w[i] = s.al[i] = 0;
    if (r.p(0.7)) g.vec(s.v, 5);
    if (r.p(0.3)) g.unit(s.q);
    double x = r.p(0.5) ? 0.0 : r.u(0, cfg.dyn.model.lmax);
    std::vector<double> c(ex.h.n, x);
    emit(OP_MODE, {1, 0});
    emit(OP_REF_MOTORS, c);
    emit(OP_CTRL, {0.01});
    for (int i = 0; i < ex.h.n; i++) { s.mw[i] = x; s.ma[i] = 0; }
    std::vector<double> a = flat(s);
    a.push_back(0);
    emit(OP_TELEPORT, a, F_teleport);
    for (int i = 0, k = 1 + r.i(4); i < k && !stop; i++) emit(OP_DYN, {long_dt()}, F_task_stall);
  }
  double long_dt() {
    int k = r.i(8);
    if (k == 0) return 0.01 * (1 + r.i(30));
    if (k == 1) return std::nextafter(0.01 * (1 + r.i(30)), 1);
    if (k == 2) return std::nextafter(0.01 * (1 + r.i(30)), 0);
    if (k == 3) return r.u(0.01, 0.02);
    if (k == 4) return r.logu(1e-6, 0.01);
    if (k == 5) return r.logu(0.5, r.p(0.1) ? 20 : 3);
    return r.logu(0.005, 0.6);
  }
};
Profile p01() {
  Profile p;
  p.cfg.p_noise = 0.15;
  p.imu = p.odom = false;
  p.client = 5;
  p.tele = 1.5;
  p.direct = 2;
  p.reconf = 1;
  p.sensor = 0;
  p.floor = 0.1;
  p.p_floor = 0.15;
  p.big = 1;
  p.backward = 0.3;
  p.max_ops = 260;
  p.hor_hi = 2;
  return p;
}
RegProp r01({"P01", p01(), mk_checker<C01>, mk_world<W01>, 35000, 875000, 1,
             "A run is one seeded deployment (swarm-drawn vehicle, task periods, clock faults, stalls, bursts, direct calls). An "
             "evaluation compares one completed dynamics update with the continuous law integrated over exactly dt (whole state, "
             "rotor clock, ballistic clock). A run is non-trivial if at least one update was judged; distinct by the hash of its "
             "operations and observations."});

// ======================================================================= P02
struct C02 : Checker {
  Track t;
  void begin() override { t.n = h.n; }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    DynCall d = dyn_call(t, op, pre);
    if (d.is && !r.exc && d.dt > 0 && d.dt <= (h.flt ? 0.00999 : 0.01) && finite_obs(pre, 1e5)) {
      St s = make_state(pre.st, h.n), alt = s;
      V sf(post.sf), sm(post.sm);
      ref::step(t.veh, s, d.cmd, R(d.dt), d.ext, sf, sm);
      ref::step(t.veh, alt, d.cmd, R(d.dt), d.ext, sf, sf);
      bool amb = !d.direct && pre.floor_en && (contact_pattern(post) || s.p[2].v < pre.floor_h + tol(s.p[2]));
      if (!amb) {
        if (!cmp_state(*this, "step-law", post.st, s, h.n, true, t.stoch && d.noise ? &alt : nullptr)) return;
        ok();
        probe(d.direct ? "direct step" : "simulator step");
        if (t.stoch && d.noise) probe("step with process noise");
        if (d.ext[2].v != 0) probe("step with external force");
      }
    } else if (!d.is && op.kind != OP_BOOT && op.kind != OP_TELEPORT && op.kind != OP_SET_DYN) {
      // nothing but a dynamics update (or an explicit state change) moves the vehicle
      if (memcmp(&pre.st, &post.st, sizeof pre.st) != 0)
        return fail("state-moved", "operation %s moved the vehicle: %s", op_name(op.kind), obs_diff(pre, post).c_str());
    } else if (op.kind == OP_TELEPORT || op.kind == OP_SET_DYN || op.kind == OP_BOOT) {
      if (!r.exc) {
        size_t off = op.kind == OP_TELEPORT ? 0 : sizeof(ModelCfg) / 8;
        StateCfg want = unflat<StateCfg>(op.a, off);
        if (op.kind == OP_TELEPORT && op.a.back() == 2) want = pre.st;
        for (int i = h.n; i < MAXN; i++) want.mw[i] = want.ma[i] = 0;
        if (!same("state-set", "state", (const double *)&post.st, (const double *)&want, sizeof want / 8)) return;
        ok();
      }
    }
    t.update(op, pre, post, r);
  }
};
Profile p02() {
  Profile p;
  p.cfg.fast = true;
  p.cfg.p_noise = 0.4;
  p.cfg.p_nominal = 0.35;
  p.imu = p.odom = false;
  p.tele = 1.5;
  p.direct = 3;
  p.reconf = 1;
  p.sensor = 0;
  p.big = 0;
  p.backward = 0.3;
  p.p_float = 0.2;
  p.p_n6 = 0.2;
  p.max_ops = 300;
  return p;
}
RegProp r02({"P02", p02(), mk_checker<C02>, plain_world, 50000, 1250000, 1,
             "A run is one seeded deployment (swarm-drawn vehicle incl. tilted/heterogeneous rotors, coupled inertia, drag, gravity; "
             "clients, clock faults, direct calls with external forces, reconfigurations, teleports). An evaluation compares one "
             "dynamics update of at most 10 ms with the reference step (force, torque, accelerations, pose, rates, rotors) within the "
             "propagated rounding bound, or checks that another operation left the state alone. Non-trivial: at least one such "
             "evaluation; distinct by the hash of operations and observations."});

// ======================================================================= P03
struct C03 : Checker {
  Track t;
  void begin() override { t.n = h.n; }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    DynCall d = dyn_call(t, op, pre);
    if (d.is && !r.exc && d.dt > 0 && finite_state(pre.st, 1e9)) {
      for (int i = 0; i < h.n; i++) {
        const Rotor &m = t.veh.r[i];
        double w0 = pre.st.mw[i], w1 = post.st.mw[i];
        if (!(w1 >= m.wmin && w1 <= m.wmax))
          return fail("envelope", "rotor %d turns at %.12g rad/s, envelope [%.9g, %.9g] (command %.9g, dt %.6g)", i, w1, m.wmin,
                      m.wmax, d.cmd[i], d.dt);
        double cmd = std::max(m.wmin, std::min(m.wmax, d.cmd[i]));
        bool out = w0 < m.wmin || w0 > m.wmax;
        if (out) probe("rotor started outside its envelope");
        if (cmd != d.cmd[i]) probe("command outside the envelope");
        if (d.dt <= (h.flt ? 0.00999 : 0.01)) {
          R ma = (R(cmd) - R(w0)) / R(m.tc);
          if (!near("lag", "rotor acceleration", post.st.ma[i], ma)) return;
          R w = clamp(R(w0) + ma * R(d.dt), m.wmin, m.wmax);
          if (!near("lag", "rotor speed", w1, w)) return;
          probe("single step");
        } else if (m.tc >= 0.0101 && !out) {
          double e0 = cmd - w0, e1 = cmd - w1;
          double tl = (h.flt ? 2e-3 : 1e-8) * (1 + std::fabs(cmd) + std::fabs(w0)) * 1e-1;
          double hi = std::exp(-d.dt / m.tc), lo = std::pow(1 - 0.01 / m.tc, std::ceil(d.dt / 0.01));
          double a = e0 * lo, b = e0 * hi;
          if (e1 < std::min(a, b) - tl || e1 > std::max(a, b) + tl)
            return fail("lag-long", "rotor %d (tau %.6g) went from %.12g to %.12g for command %.9g in %.6g s: outside the first order "
                        "lag band [%.12g, %.12g]", i, m.tc, w0, w1, cmd, d.dt, cmd - std::max(a, b), cmd - std::min(a, b));
          probe("long step");
        }
        ok();
      }
    } else if (!d.is || r.exc) {
      if (op.kind != OP_BOOT && op.kind != OP_TELEPORT && op.kind != OP_SET_DYN &&
          (memcmp(pre.st.mw, post.st.mw, sizeof pre.st.mw) || memcmp(pre.st.ma, post.st.ma, sizeof pre.st.ma)))
        return fail("rotor-moved", "operation %s changed the rotor speeds: %s", op_name(op.kind), obs_diff(pre, post).c_str());
    }
    t.update(op, pre, post, r);
  }
};
Profile p03() {
  Profile p;
  p.cfg.fast = true;
  p.cfg.p_nominal = 0.3;
  p.imu = p.odom = false;
  p.tele = 2;
  p.direct = 3;
  p.reconf = 1.5;
  p.sensor = 0;
  p.p_float = 0.2;
  p.p_n6 = 0.2;
  p.max_ops = 300;
  return p;
}
RegProp r03({"P03", p03(), mk_checker<C03>, plain_world, 60000, 1500000, 1,
             "A run is one seeded deployment; an evaluation judges one rotor over one dynamics update: speed inside the envelope in "
             "force, first order lag towards the clamped command (exact for steps up to 10 ms, between the 10 ms-Euler and the "
             "exponential decay for longer ones), untouched by every other operation. Non-trivial: at least one rotor judged; "
             "distinct by the hash of operations and observations."});

// ======================================================================= P04
struct C04 : Checker {
  Track t;
  bool ounit = false;
  void begin() override { t.n = h.n; }
  static double dev(const double *q) {
    return std::fabs(std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]) - 1);
  }
  static bool fin(const double *q) {
    for (int i = 0; i < 4; i++)
      if (!std::isfinite(q[i])) return false;
    return true;
  }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    double lim = 16 * eps();
    DynCall d = dyn_call(t, op, pre);
    if (d.is && !r.exc && d.dt > 0) {
      bool sane = finite_state(pre.st, 1e8) && finite_state(post.st, 1e9);
      if (sane) {
        if (!(dev(post.st.q) <= lim))
          return fail("truth-attitude", "after a dynamics update of dt=%.6g the attitude has norm 1%+.3g (rate %.3g rad/s)", d.dt,
                      std::sqrt(post.st.q[0] * post.st.q[0] + post.st.q[1] * post.st.q[1] + post.st.q[2] * post.st.q[2] +
                                post.st.q[3] * post.st.q[3]) - 1, std::fabs(pre.st.w[0]) + std::fabs(pre.st.w[1]) + std::fabs(pre.st.w[2]));
        ok();
        if (std::fabs(pre.st.w[0] * d.dt) > 1) probe("more than a radian in one step");
        if (dev(pre.st.q) > lim) probe("started from an attitude that was not normalised");
      }
    }
    if (op.kind == OP_ODOM || op.kind == OP_ODOM_DIRECT) {
      bool sane = fin(pre.oq) && dev(pre.oq) < 0.9;  // zero only after the truth itself overflowed
      const double *gy = op.kind == OP_ODOM ? pre.gyro : op.a.data() + 1;
      for (int i = 0; i < 3; i++) sane = sane && std::fabs(gy[i]) < 1e8 && std::fabs(pre.ow[i]) < 1e8;
      if (sane) {
        if (!(dev(post.oq) <= lim))
          return fail("odometry-attitude", "after an odometry update of dt=%.6g the estimated attitude has norm deviation %.3g (was %.3g %.3g %.3g %.3g, rate %.3g %.3g %.3g)", op.a[0],
                      dev(post.oq), pre.oq[0], pre.oq[1], pre.oq[2], pre.oq[3], gy[0], gy[1], gy[2]);
        ok();
        probe("odometry");
      }
    }
    if (op.kind == OP_DYN && !r.exc && is_contact(pre, post, op.a[0]) && finite_state(post.st, 1e8)) {
      if (!(dev(post.oq) <= lim)) return fail("odometry-attitude", "after a floor contact the estimated attitude has norm deviation %.3g", dev(post.oq));
      probe("floor contact");
    }
    t.update(op, pre, post, r);
  }
};
struct W04 : World {
  using World::World;
  void on_admin() override {
    if (r.p(0.6)) return World::on_admin();
    StateCfg s = obs().st;
    int k = r.i(4);
    if (k == 0) { for (double &x : s.w) x = r.sgn() * r.logu(1, 3e3); }
    else if (k == 1) { double f = r.u(0.2, 5); for (double &x : s.q) x *= f; }  // a caller's attitude that is not normalised
    else if (k == 2) { for (double &x : s.q) x += 1e-5 * r.normal(); for (double &x : s.w) x = 0; }
    else { g.unit(s.q); for (double &x : s.w) x = r.p(0.5) ? 0 : 1e-9 * r.normal(); }
    std::vector<double> a = flat(s);
    a.push_back(0);
    emit(OP_TELEPORT, a, F_state_corrupt);
    if (r.p(0.5)) emit(OP_DYN, {r.p(0.5) ? r.logu(1e-5, 0.01) : r.logu(0.01, 1)});
    if (r.p(0.4)) {
      std::vector<double> b = {r.p(0.2) ? 0.0 : r.logu(1e-4, 2)};
      for (int i = 0; i < 3; i++) b.push_back(r.sgn() * r.logu(1e-6, 1e3));
      cat(b, v3(5));
      emit(OP_ODOM_DIRECT, b);
    }
  }
};
Profile p04() {
  Profile p;
  p.cfg.p_nominal = 0.3;
  p.tele = 1;
  p.direct = 3;
  p.sensor = 1;
  p.p_float = 0.25;
  p.max_ops = 350;
  return p;
}
RegProp r04({"P04", p04(), mk_checker<C04>, mk_world<W04>, 50000, 1250000, 1,
             "A run is one seeded deployment with extreme rates, long and repeated steps, attitudes handed in unnormalised, floor "
             "contacts, odometry updates at any dt; an evaluation checks the norm of the true or estimated attitude after one update "
             "(16 eps). Non-trivial: at least one update judged; distinct by the hash of operations and observations."});

// ======================================================================= P05
struct C05 : Checker {
  Track t;
  double fen = 0, fh = 0;  // the floor that was asked for
  void begin() override { t.n = h.n; }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    if (op.kind == OP_BOOT) fen = fh = 0;
    else if (op.kind == OP_FLOOR_ON) fen = 1, fh = op.a[0];
    else if (op.kind == OP_FLOOR_OFF) fen = 0;
    else if (op.kind == OP_RESTORE) fen = post.floor_en, fh = post.floor_h;
    if ((post.floor_en != 0) != (fen != 0)) return fail("floor-setting", "after %s the floor is %s, it was switched %s", op_name(op.kind), post.floor_en ? "on" : "off", fen ? "on" : "off");
    if (fen && post.floor_h != fh) return fail("floor-setting", "after %s the floor is at %.17g, it was put at %.17g", op_name(op.kind), post.floor_h, fh);
    if (op.kind == OP_DYN && !r.exc && op.a[0] > 0 && finite_obs(pre, 1e5)) judge(op, pre, post);
    if (op.kind == OP_FLOOR_ON || op.kind == OP_FLOOR_OFF) {  // a floor that appears or goes acts with the next update
      if (memcmp(&pre.st, &post.st, sizeof pre.st) || memcmp(pre.gyro, post.gyro, 12 * 8) || memcmp(pre.op, post.op, 16 * 8))
        return fail("floor-switch", "switching the floor %s moved something: %s", op.kind == OP_FLOOR_ON ? "on" : "off", obs_diff(pre, post).c_str());
    }
    t.update(op, pre, post, r);
  }
  void judge(const Op &op, const Obs &pre, const Obs &post) {
    double dt = op.a[0], fl = pre.floor_h;
    bool en = pre.floor_en != 0, contact = false;
    V ext = t.support(pre);
    bool below = en && pre.st.p[2] < fl;
    if (below) probe("update started below the floor");
    bool one = dt <= (h.flt ? 0.00999 : 0.01);
    bool quiet = !t.stoch || t.contact;
    int k = one ? 1 : steps_for(dt);
    St s, half;
    bool have = false, sure_in = false, sure_out = false;
    if (one) {
      s = make_state(pre.st, h.n);
      ref::step(t.veh, s, pre.act, R(dt), ext, V(post.sf), V(post.sm));
      have = true;
      sure_in  = s.p[2].v < fl - tol(s.p[2]);
      sure_out = s.p[2].v > fl + tol(s.p[2]);
    } else {
      if (k > 400) return;
      s    = integ(t.veh, pre, h.n, pre.act, dt, ext, k);
      half = integ(t.veh, pre, h.n, pre.act, dt, ext, 2 * k);
      for (const St *x : {&s, &half})  // a step this long makes the integration diverge: nothing to judge
        for (int i = 0; i < 3; i++)
          if (!(std::fabs(x->p[i].v) < 1e6 && std::fabs(x->v[i].v) < 1e6 && std::fabs(x->w[i].v) < 1e6)) return;
      St nxt = integ(t.veh, pre, h.n, pre.act, dt, ext, k + 1);
      double m = std::max(std::fabs(s.p[2].v - half.p[2].v), std::fabs(s.p[2].v - nxt.p[2].v));
      for (int i = 0; i < 5; i++) {
        double e = std::fabs(s.p[2].v - integ_split(t.veh, pre, h.n, pre.act, dt, ext, k, i).p[2].v);
        m = std::isfinite(e) ? std::max(m, e) : INFINITY;
      }
      m = 4 * m + (h.flt ? 1e-3 : 1e-8) * (1 + std::fabs(s.p[2].v) + std::fabs(pre.st.p[2]));
      if (std::isfinite(m) && quiet) {
        sure_in  = s.p[2].v < fl - m;
        sure_out = s.p[2].v > fl + m;
      }
    }
    if (en) {
      if (!(post.st.p[2] >= fl))
        return fail("below-floor", "after an update of dt=%.6g the vehicle is at z=%.12g, below the floor at %.12g", dt, post.st.p[2], fl);
      int ck = contact_kind(pre, post, op.a[0]);
      if (ck == 2) return;  // cannot tell
      contact = ck == 1;
      if (sure_in && !contact)
        return fail("contact-missed", "dt=%.6g: the step ends at z=%.12g, under the floor at %.12g, but the vehicle was not stopped there "
                    "(z=%.12g v=(%.6g,%.6g,%.6g) w=(%.6g,%.6g,%.6g))", dt, s.p[2].v, fl, post.st.p[2], post.st.v[0], post.st.v[1],
                    post.st.v[2], post.st.w[0], post.st.w[1], post.st.w[2]);
      if (sure_out && contact && (s.v[0].v != 0 || s.v[2].v != 0) && s.p[2].v - fl > 1e-6)
        return fail("contact-invented", "dt=%.6g: the step ends at z=%.12g, above the floor at %.12g, but the vehicle was stopped", dt,
                    s.p[2].v, fl);
    }
    if (contact && (sure_in || !sure_out)) {
      probe("contact");
      if (!one) probe("contact in a long step");
      // horizontal position, attitude and rotors keep what the step produced
      if (one) {
        near("contact-x", "position.x", post.st.p[0], s.p[0]);
        near("contact-y", "position.y", post.st.p[1], s.p[1]);
        near("contact-att", "qw", post.st.q[0], s.q.w);
        near("contact-att", "qx", post.st.q[1], s.q.x);
        near("contact-att", "qy", post.st.q[2], s.q.y);
        near("contact-att", "qz", post.st.q[3], s.q.z);
        for (int i = 0; i < h.n; i++) near("contact-rotor", "rotor speed", post.st.mw[i], s.mw[i]);
        near3("contact-force", "total force", post.st.F, s.F);
        St alt = make_state(pre.st, h.n);  // known finding of P13: the moment noise is that of the force
        ref::step(t.veh, alt, pre.act, R(dt), ext, V(post.sf), V(post.sf));
        bool as_known = true;
        for (int i = 0; i < 3; i++) as_known = as_known && std::fabs(post.st.T[i] - alt.T[i].v) <= tol(alt.T[i]);
        if (!as_known) near3("contact-force", "total torque", post.st.T, s.T);
        if (failed) return;
      }
      double z3[3] = {0, 0, 0};
      same("contact-imu", "gyro measurement", post.gyro, z3, 3);
      same("contact-imu", "accelerometer measurement", post.accel, z3, 3);
      same("contact-imu", "gyro bias", post.gbias, z3, 3);
      same("contact-imu", "accelerometer bias", post.abias, z3, 3);
      same("contact-odom", "odometry position", post.op, z3, 3);
      same("contact-odom", "odometry velocity", post.ov, z3, 3);
      same("contact-odom", "odometry rate", post.ow, z3, 3);
      same("contact-odom", "odometry acceleration", post.oa, z3, 3);
      same("contact-odom", "odometry attitude", post.oq, post.st.q, 4);
      ok();
    } else if (!contact || sure_out) {
      // free flight: the sensors are not restarted
      if (contact != contact_pattern(post)) return;  // looks like a landing, cannot tell
      same("sensor-touched", "gyro", post.gyro, pre.gyro, 3);
      same("sensor-touched", "accel", post.accel, pre.accel, 3);
      same("sensor-touched", "gyro bias", post.gbias, pre.gbias, 3);
      same("sensor-touched", "accel bias", post.abias, pre.abias, 3);
      same("sensor-touched", "odometry position", post.op, pre.op, 3);
      same("sensor-touched", "odometry velocity", post.ov, pre.ov, 3);
      same("sensor-touched", "odometry attitude", post.oq, pre.oq, 4);
      if (failed) return;
      if (have && !contact) {
        // gravity is carried by the floor while the vehicle is under it, and only then
        if (!near3("floor-force", "force", post.st.F, s.F)) return;
        if (!near3("floor-force", "velocity", post.st.v, s.v)) return;
        if (!near3("floor-force", "position", post.st.p, s.p)) return;
      }
      ok(en);
      if (en && t.contact) probe("left the floor");
    }
    // the process noise is switched off for the update that follows a contact, and only for that one
    if (t.unsure) return;
    if (t.contact) {
      double z3[3] = {0, 0, 0};
      same("contact-noise", "process noise force", post.sf, z3, 3);
      same("contact-noise", "process noise moment", post.sm, z3, 3);
      probe("update after contact");
    } else if (t.cfg.dyn.model.qf > 0) {
      if (post.sf[0] == 0 && post.sf[1] == 0 && post.sf[2] == 0)
        return fail("noise-stays-off", "process noise is configured and the vehicle is not on the floor, but no noise force was drawn (dt=%.6g)", dt);
      probe("noise on in free flight");
    }
  }
};
struct W05 : World {
  using World::World;
  void on_admin() override {
    if (r.p(0.5)) return World::on_admin();
    // drop the vehicle around the floor
    StateCfg s = obs().st;
    if (!(obs().floor_en) && r.p(0.8)) floor_admin();
    double fl = obs().floor_h;
    s.p[2] = fl + (r.p(0.15) ? 0.0 : r.sgn() * r.logu(1e-6, 0.5));
    if (r.p(0.5)) g.vec(s.v, 2);
    if (r.p(0.2)) g.unit(s.q);
    if (r.p(0.5)) g.vec(s.w, 2);
    std::vector<double> a = flat(s);
    a.push_back(0);
    emit(OP_TELEPORT, a, F_teleport);
    for (int i = 0, k = 1 + r.i(4); i < k && !stop; i++) {
      emit(OP_DYN, {any_dt()});
      if (r.p(0.2)) emit(r.p(0.5) ? OP_IMU : OP_ODOM, {0.005});
      if (r.p(0.1)) floor_admin();
      if (r.p(0.1)) emit(OP_FLOOR_OFF);
    }
  }
};
Profile p05() {
  Profile p;
  p.cfg.p_noise = 0.4;
  p.cfg.p_nominal = 0.5;
  p.cfg.p_imu_noise = 0.6;
  p.p_floor = 0.9;
  p.floor = 1.5;
  p.tele = 1;
  p.reconf = 0.3;
  p.sensor = 0.3;
  p.max_ops = 350;
  p.p_float = 0.15;
  return p;
}
RegProp r05({"P05", p05(), mk_checker<C05>, mk_world<W05>, 60000, 1500000, 1,
             "A run is one seeded deployment near a floor that appears, disappears and moves (also negative and above the vehicle), "
             "with stalls, backward clocks and teleports; an evaluation judges one dynamics update: contact exactly when the step ends "
             "under the floor, the resting state, the sensor restart, the support force, the noise switch. Non-trivial: floor enabled "
             "or contact; distinct by the hash of operations and observations."});

// ======================================================================= P06
struct C06 : Checker {
  Track t;
  bool armed = false, cut = true;
  void begin() override { t.n = h.n; }
  void step(const Op &op, const Obs &pre, const Obs &post, const Result &r) override {
    double z[MAXN] = {0};
    switch (op.kind) {
      case OP_BOOT: armed = false; break;
      case OP_ARM: armed = true; break;
      case OP_DISARM: armed = false; break;
      default: break;
    }
    if ((post.armed != 0) != armed)
      return fail("armed-flag", "after %s the vehicle reports %s", op_name(op.kind), post.armed ? "armed" : "disarmed");
    if ((op.kind == OP_ARM || op.kind == OP_DISARM) && (memcmp(pre.dmot, post.dmot, offsetof(Obs, sf) - offsetof(Obs, dmot)) || pre.fp[1] != post.fp[1]))
      return fail("arming-memory", "%s changed the memory of the controller", op_name(op.kind));
    if (!armed) {
      if (!same("actuation-disarmed", "motor command", post.act, z, h.n)) return;
      ok(op.kind == OP_CTRL || op.kind == OP_DYN || op.kind == OP_DISARM || (op.kind >= OP_MODE && op.kind <= OP_REF_YAWRATE));
      if (op.kind == OP_CTRL) {
        probe("controller update while disarmed");
        Obs x = post;
        memcpy(x.act, pre.act, sizeof x.act);
        if (!obs_equal(x, pre))
          return fail("disarmed-controller", "a controller update while disarmed changed %s", obs_diff(pre, x).c_str());
      }
      if (op.kind == OP_DYN && !r.exc && op.a[0] > 0 && finite_state(pre.st, 1e9)) {
        for (int i = 0; i < h.n; i++) {
          const Rotor &m = t.veh.r[i];
          double c = std::max(m.wmin, std::min(m.wmax, 0.0));
          double e0 = pre.st.mw[i] - c, e1 = post.st.mw[i] - c;
          if (pre.st.mw[i] < m.wmin || pre.st.mw[i] > m.wmax) continue;
          if (m.tc >= 0.0101) {
            double hi = std::exp(-op.a[0] / m.tc), tl = (h.flt ? 1e-3 : 1e-8) * (1 + std::fabs(e0) * 0.1);
            if (e0 >= 0 ? (e1 > e0 * hi + tl || e1 < -tl) : (e1 < e0 * hi - tl || e1 > tl))
              return fail("spin-down", "disarmed, but rotor %d went from %.9g to %.9g rad/s in %.6g s (tau %.6g, idle speed %.6g)", i,
                          pre.st.mw[i], post.st.mw[i], op.a[0], m.tc, c);
          }
        }
        probe("dynamics update while disarmed");
        ok();
      }
    } else {
      // armed: the motor command only changes in a controller update
      if (op.kind != OP_CTRL && op.kind != OP_BOOT && memcmp(pre.act, post.act, sizeof pre.act))
        return fail("actuation-moved", "operation %s changed the motor command outside a controller update", op_name(op.kind));
      if (op.kind == OP_ARM) probe("arm");
      ok(false);
    }
    t.update(op, pre, post, r);
  }
};
struct W06 : World {
  using World::World;
  void on_admin() override {
    if (r.p(0.5)) return World::on_admin();
    // disarm around everything that could wake the motors up
    emit(OP_DISARM);
    for (int i = 0, k = 1 + r.i(6); i < k && !stop; i++) {
      Msg m = client_msg();
      if (m.kind == OP_ARM && r.p(0.8)) continue;
      emit(m.kind, m.a);
      if (r.p(0.4)) emit(OP_CTRL, {any_dt()});
      if (r.p(0.4)) emit(OP_DYN, {any_dt(true)});
      if (r.p(0.1)) reconfigure(r.p(0.3));
      if (r.p(0.1)) floor_admin();
    }
    if (r.p(0.7)) emit(OP_ARM);
  }
};
Profile p06() {
  Profile p;
  p.fp = true;
  p.cfg.p_nominal = 0.5;
  p.client = 14;
  p.max_ops = 350;
  p.imu = p.odom = false;
  p.sensor = 0;
  p.reconf = 0.8;
  p.p_arm = 0.6;
  p.badcfg = 0.2;
  return p;
}
RegProp r06({"P06", p06(), mk_checker<C06>, mk_world<W06>, 70000, 1750000, 1,
             "A run is one seeded deployment with lossy, duplicating, reordering clients that arm, disarm, switch modes and send "
             "references, plus crashes and reconfigurations; an evaluation checks, after one operation, the armed flag, the cut motor "
             "command, the untouched controller and the spin-down of the rotors. Non-trivial: an operation that could move the motors "
             "was delivered while disarmed; distinct by the hash of operations and observations."});
}  // namespace
}  // namespace dst
