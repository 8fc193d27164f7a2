// Adapter: runs the REAL library objects (Simulator<P,N> and the stand-alone PIDs of precision P)
// behind the Sut interface. Only the public API is used. No behaviour of the library is replaced.
#pragma once
#include <iostream>
#include <new>
#include <sstream>
#include <stdexcept>

#include <multirotor_simulator.hpp>
#include <pid_controller/pid.hpp>
#include <pid_controller/pid_1d.hpp>

#include "core.hpp"

namespace dst {
namespace {

// Log device seam: accepts the first `limit` bytes, then the device is full / failing.
struct FaultBuf : std::streambuf {
  std::string got;
  long limit;
  explicit FaultBuf(long l) : limit(l) {}
  int overflow(int c) override {
    if (c == EOF) return 0;
    if (limit >= 0 && (long)got.size() >= limit) return EOF;
    got.push_back((char)c);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::streamsize k = n;
    if (limit >= 0) k = std::min<std::streamsize>(n, std::max<long>(0, limit - (long)got.size()));
    got.append(s, (size_t)k);
    return k;  // a short write when the device fills up in the middle
  }
};

inline void __attribute__((noinline)) scribble_stack(int poison) {
  volatile unsigned char buf[8192];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char)poison;
}

template <typename P, int N>
class SutImpl : public Sut {
  using Sim    = multirotor::Simulator<P, N>;
  using SP     = multirotor::SimulatorParams<P, N>;
  using Dyn    = multirotor::dynamics::Dynamics<P, N>;
  using DynP   = multirotor::dynamics::DynamicsParams<P, N>;
  using Model  = multirotor::model::Model<P, N>;
  using ModelP = multirotor::model::ModelParams<P, N>;
  using MotorP = multirotor::model::MotorParams<P>;
  using State  = multirotor::state::State<P, N>;
  using Kin    = std::decay_t<decltype(std::declval<State>().kinematics)>;
  using Ctrl   = multirotor::controller::Controller<P, N>;
  using CtrlP  = multirotor::controller::ControllerParams<P, N>;
  using Imu    = imu::IMU<P>;
  using ImuP   = imu::IMUParams<P>;
  using Odo    = imu::InertialOdometry<P>;
  using OdoP   = imu::InertialOdometryParams<P>;
  using PidP   = pid_controller::PIDParams<P>;
  using Pid3   = pid_controller::PID<P>;
  using Pid6   = pid_controller::PID<P, 6>;
  using Pid2   = pid_controller::PID<P, 2>;
  using Pid1   = pid_1d_controller::PID<P>;
  using Pid1P  = pid_1d_controller::PIDParams<P>;
  using V3     = Eigen::Matrix<P, 3, 1>;
  using VN     = Eigen::Matrix<P, N, 1>;
  using M3     = Eigen::Matrix<P, 3, 3>;
  using Q      = Eigen::Quaternion<P>;

  // An object built in memory filled with a known byte pattern
  template <class T>
  struct Box {
    unsigned char *raw = nullptr;
    T *p               = nullptr;
    int poison         = 0;
    template <class... A>
    void make(A &&...a) {
      drop();
      // raw memory straight from malloc: it is the harness's, not the library's, allocation
      raw     = (unsigned char *)aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
      memset(raw, poison, sizeof(T));
      scribble_stack(poison);
      try {
        p = new (raw) T(std::forward<A>(a)...);
      } catch (...) {
        free(raw);
        raw = nullptr;
        throw;
      }
    }
    void drop() {
      if (p) p->~T();
      if (raw) free(raw);
      p   = nullptr;
      raw = nullptr;
    }
    ~Box() { drop(); }
    T *operator->() { return p; }
    T &operator*() { return *p; }
  };

  int poison_;
  mutable Box<Sim> sim_;
  Box<Sim> slot_[3];
  Box<Pid3> p3_;
  Box<Pid1> p1_;
  Box<Pid6> p6_;
  Box<Pid2> p2_;
  double side_ret_[4][PD] = {{0}};
  Q imu_q_ = Q::Identity(), slot_q_[3];  // mounting of the IMU last commanded (it cannot be read back)

  static V3 v3(const double *a) { return V3((P)a[0], (P)a[1], (P)a[2]); }
  static VN vn(const double *a) {
    VN v;
    for (int i = 0; i < N; i++) v[i] = (P)a[i];
    return v;
  }
  static Q qt(const double *a) { return Q((P)a[0], (P)a[1], (P)a[2], (P)a[3]); }
  static M3 m3(const double *a) {
    M3 m;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) m(i, j) = (P)a[3 * i + j];
    return m;
  }
  static void o3(double *d, const V3 &v) {
    for (int i = 0; i < 3; i++) d[i] = (double)v[i];
  }
  static void on(double *d, const VN &v) {
    for (int i = 0; i < N; i++) d[i] = (double)v[i];
  }
  static void oq(double *d, const Q &q) {
    d[0] = (double)q.w();
    d[1] = (double)q.x();
    d[2] = (double)q.y();
    d[3] = (double)q.z();
  }
  static void om(double *d, const M3 &m) {
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) d[3 * i + j] = (double)m(i, j);
  }

  static ModelP model_params(const ModelCfg &c) {
    ModelP m;
    int lay = (int)c.layout;
    if (lay == 1 && N == 4) {
      m.motors_params = Model::create_quadrotor_x_config(
          (P)c.lkt, (P)c.lkq, (P)c.lx, (P)c.ly, (P)c.lmin, (P)c.lmax, (P)c.ltc, (P)c.lJ);
    } else if (lay == 2 && N == 4) {
      m.motors_params = Model::create_quadrotor_plus_config(
          (P)c.lkt, (P)c.lkq, (P)c.lx, (P)c.ly, (P)c.lmin, (P)c.lmax, (P)c.ltc, (P)c.lJ);
    } else if (lay == 3 && N == 6) {
      m.motors_params = Model::create_hexacopter_config((P)c.lkt, (P)c.lkq, (P)c.lx, (P)c.lmin,
                                                        (P)c.lmax, (P)c.ltc, (P)c.lJ);
    } else {
      for (int i = 0; i < N; i++) {
        MotorP &mp                  = m.motors_params[i];
        const MotorCfg &k           = c.motor[i];
        mp.motor_rotation_direction = k.dir < 0 ? -1 : 1;
        mp.thrust_coefficient       = (P)k.kt;
        mp.torque_coefficient       = (P)k.kq;
        mp.pose.setIdentity();
        mp.pose.linear()      = Q((P)k.qw, (P)k.qx, (P)k.qy, (P)k.qz).toRotationMatrix();
        mp.pose.translation() = V3((P)k.px, (P)k.py, (P)k.pz);
        mp.min_speed          = (P)k.wmin;
        mp.max_speed          = (P)k.wmax;
        mp.time_constant      = (P)k.tc;
        mp.rotational_inertia = (P)k.J;
      }
    }
    m.vehicle_mass                          = (P)c.mass;
    m.vehicle_inertia                       = m3(c.I);
    m.vehicle_drag_coefficient              = (P)c.drag;
    m.vehicle_aero_moment_coefficient       = m3(c.aero);
    m.gravity                               = v3(c.g);
    m.force_process_noise_auto_correlation  = (P)c.qf;
    m.moment_process_noise_auto_correlation = (P)c.qm;
    return m;
  }
  static State state(const StateCfg &c) {
    State s;
    s.kinematics.position                   = v3(c.p);
    s.kinematics.orientation                = qt(c.q);
    s.kinematics.linear_velocity            = v3(c.v);
    s.kinematics.angular_velocity           = v3(c.w);
    s.kinematics.linear_acceleration        = v3(c.a);
    s.kinematics.angular_acceleration       = v3(c.al);
    s.dynamics.force                        = v3(c.F);
    s.dynamics.torque                       = v3(c.T);
    s.actuators.motor_angular_velocity      = vn(c.mw);
    s.actuators.motor_angular_acceleration  = vn(c.ma);
    return s;
  }
  static void ostate(StateCfg &c, const State &s) {
    o3(c.p, s.kinematics.position);
    oq(c.q, s.kinematics.orientation);
    o3(c.v, s.kinematics.linear_velocity);
    o3(c.w, s.kinematics.angular_velocity);
    o3(c.a, s.kinematics.linear_acceleration);
    o3(c.al, s.kinematics.angular_acceleration);
    o3(c.F, s.dynamics.force);
    o3(c.T, s.dynamics.torque);
    on(c.mw, s.actuators.motor_angular_velocity);
    on(c.ma, s.actuators.motor_angular_acceleration);
  }
  static DynP dyn_params(const DynCfg &c) {
    DynP d;
    d.model_params = model_params(c.model);
    d.state        = state(c.st);
    d.model_seed   = (int)c.seed;
    return d;
  }
  template <int D>
  static Eigen::Matrix<P, D, 1> vd(const double *a) {
    Eigen::Matrix<P, D, 1> v;
    for (int i = 0; i < D; i++) v[i] = (P)a[i];
    return v;
  }
  template <int D = 3>
  static pid_controller::PIDParams<P, D> pid_params(const PidCfg &c) {
    pid_controller::PIDParams<P, D> p;
    p.Kp_gains                     = vd<D>(c.kp);
    p.Ki_gains                     = vd<D>(c.ki);
    p.Kd_gains                     = vd<D>(c.kd);
    p.antiwindup_cte               = vd<D>(c.aw);
    p.alpha                        = vd<D>(c.alpha);
    p.reset_integral_flag          = c.reset != 0;
    p.proportional_saturation_flag = c.prop != 0;
    p.upper_output_saturation      = vd<D>(c.up);
    p.lower_output_saturation      = vd<D>(c.lo);
    return p;
  }
  static Pid1P pid1_params(const PidCfg &c) {
    Pid1P p;
    p.Kp_gains                = (P)c.kp[0];
    p.Ki_gains                = (P)c.ki[0];
    p.Kd_gains                = (P)c.kd[0];
    p.antiwindup_cte          = (P)c.aw[0];
    p.alpha                   = (P)c.alpha[0];
    p.reset_integral_flag     = c.reset != 0;
    p.upper_output_saturation = (P)c.up[0];
    p.lower_output_saturation = (P)c.lo[0];
    return p;
  }
  // mixer inverse: explicit, or the library's own inverse of the library's own mixer matrix
  static void set_mix(CtrlP &k, const CtrlCfg &c, const ModelCfg *mc) {
    auto &m = k.indi_controller_params.mixer_matrix_inverse;
    for (int i = 0; i < N; i++)
      for (int j = 0; j < 6; j++) m(i, j) = (P)c.mix[6 * i + j];
    if constexpr (N == 4) {
      if (c.mixmode != 0 && mc) {
        ModelP mp = model_params(*mc);
        Eigen::Matrix<P, 6, 4> mm = Model::template compute_mixer_matrix<6>(mp.motors_params);
        m = indi_controller::compute_quadrotor_mixer_matrix_inverse<P>(mm);
      }
    }
  }
  static CtrlP ctrl_params(const CtrlCfg &c, const ModelCfg *mc) {
    CtrlP k;
    k.acro_controller_params.vehicle_mass             = (P)c.amass;
    k.acro_controller_params.kp_rot                   = m3(c.kprot);
    k.acro_controller_params.gravity                  = v3(c.ag);
    k.indi_controller_params.inertia                  = m3(c.inertia);
    k.indi_controller_params.pid_params               = pid_params(c.indi);
    k.position_controller_params.pid_params           = pid_params(c.pos);
    k.trajectory_controller_params.pid_params         = pid_params(c.traj);
    k.velocity_controller_params.pid_params           = pid_params(c.vel);
    set_mix(k, c, mc);
    return k;
  }
  static ImuP imu_params(const ImuCfg &c) {
    ImuP p;
    p.gyro_noise_var                 = (P)c.gv;
    p.accel_noise_var                = (P)c.av;
    p.gyro_bias_noise_autocorr_time  = (P)c.gb;
    p.accel_bias_noise_autocorr_time = (P)c.ab;
    p.imu_orientation                = qt(c.q);
    p.seed                           = (int)c.seed;
    return p;
  }
  static OdoP odom_params(const OdomCfg &c) {
    OdoP p;
    p.alpha                     = (P)c.alpha;
    p.initial_world_orientation = qt(c.q);
    return p;
  }

  template <class V>
  static void ov(double *d, const V &v) {
    for (int i = 0; i < (int)v.size(); i++) d[i] = (double)v[i];
  }
  template <class PID>
  static void opid(PidObs &o, const PID &p) {
    ov(o.perr, p.get_proportional_error());
    ov(o.derr, p.get_derivative_error());
    ov(o.pc, p.get_proportional_error_contribution());
    ov(o.ic, p.get_integral_error_contribution());
    ov(o.dc, p.get_derivative_error_contribution());
    ov(o.out, p.get_output());
    o.satflag = p.get_output_saturation_flag();
    auto q    = p.get_params();
    ov(o.par.kp, q.Kp_gains);
    ov(o.par.ki, q.Ki_gains);
    ov(o.par.kd, q.Kd_gains);
    ov(o.par.aw, q.antiwindup_cte);
    ov(o.par.alpha, q.alpha);
    o.par.reset = q.reset_integral_flag;
    o.par.prop  = q.proportional_saturation_flag;
    ov(o.par.up, q.upper_output_saturation);
    ov(o.par.lo, q.lower_output_saturation);
    if (g_lim) {
      auto up = q.upper_output_saturation, lo = up;
      p.get_saturation_limits(up, lo);
      ov(o.rlim, up);
      ov(o.rlim + PD, lo);
    }
  }
  static void opid1(PidObs &o, const Pid1 &p) {
    o.perr[0]      = (double)p.get_proportional_error();
    o.derr[0]      = (double)p.get_derivative_error();
    o.pc[0]        = (double)p.get_proportional_error_contribution();
    o.ic[0]        = (double)p.get_integral_error_contribution();
    o.dc[0]        = (double)p.get_derivative_error_contribution();
    o.out[0]       = (double)p.get_output();
    o.satflag      = p.get_output_saturation_flag();
    Pid1P q        = p.get_params();
    o.par.kp[0]    = (double)q.Kp_gains;
    o.par.ki[0]    = (double)q.Ki_gains;
    o.par.kd[0]    = (double)q.Kd_gains;
    o.par.aw[0]    = (double)q.antiwindup_cte;
    o.par.alpha[0] = (double)q.alpha;
    o.par.reset    = q.reset_integral_flag;
    o.par.up[0]    = (double)q.upper_output_saturation;
    o.par.lo[0]    = (double)q.lower_output_saturation;
  }

  // ------------------------------------------------------------------ everything readable of one component
  static void ob_ctrl(Obs &o, const Ctrl &c) {
    on(o.dmot, c.get_desired_motor_angular_velocity());
    o.dthr = (double)c.get_desired_thrust();
    o3(o.dw, c.get_desired_angular_velocity());
    o3(o.da, c.get_desired_linear_acceleration());
    o3(o.dv, c.get_desired_linear_velocity());
    o3(o.dp, c.get_desired_position());
    const auto &ic = c.get_indi_controller_const();
    opid(o.indi, ic);
    opid(o.pos, c.get_position_controller_const());
    opid(o.traj, c.get_trajectory_controller_const());
    opid(o.vel, c.get_velocity_controller_const());
    o3(o.itorque, ic.get_desired_torque());
    o3(o.ithrust, ic.get_desired_thrust());
    on(o.imotor, ic.get_motor_angular_velocity());
    om(o.iinertia, ic.get_inertia());
    for (int i = 0; i < N; i++)
      for (int j = 0; j < 6; j++) o.imix[6 * i + j] = (double)ic.get_mixer_matrix_inverse()(i, j);
    const auto &ac = c.get_acro_controller_const();
    o3(o.acw, ac.get_desired_angular_velocity());
    o.acthr  = (double)ac.get_desired_thrust();
    o.acmass = (double)ac.get_vehicle_mass();
    o3(o.acg, ac.get_gravity());
    om(o.ackp, ac.get_kp_rot());
  }
  static void ob_model(Obs &o, const Model &m) {
    o3(o.sf, m.get_stochastic_force());
    o3(o.sm, m.get_stochastic_moment());
    o.mass = (double)m.get_mass();
    om(o.I, m.get_vehicle_inertia());
    o.drag = (double)m.get_vehicle_drag_coefficient();
    om(o.aero, m.get_vehicle_aero_moment_coefficient());
    o3(o.g, m.get_gravity());
    o.qf          = (double)m.get_force_process_noise_auto_correlation();
    o.qm          = (double)m.get_moment_process_noise_auto_correlation();
    const auto &v = m.get_motors();
    for (int i = 0; i < N && i < (int)v.size(); i++) {
      MotorCfg &d = o.motor[i];
      d.dir       = v[i].motor_rotation_direction;
      d.kt        = (double)v[i].thrust_coefficient;
      d.kq        = (double)v[i].torque_coefficient;
      d.px        = (double)v[i].pose.translation().x();
      d.py        = (double)v[i].pose.translation().y();
      d.pz        = (double)v[i].pose.translation().z();
      // third column of the rotor frame: the thrust axis in the body frame
      d.qw   = 0;
      d.qx   = (double)v[i].pose.linear()(0, 2);
      d.qy   = (double)v[i].pose.linear()(1, 2);
      d.qz   = (double)v[i].pose.linear()(2, 2);
      d.wmin = (double)v[i].min_speed;
      d.wmax = (double)v[i].max_speed;
      d.tc   = (double)v[i].time_constant;
      d.J    = (double)v[i].rotational_inertia;
    }
    for (int i = 0; i < N; i++) {
      for (int j = 0; j < 3; j++) {
        o.mixf[3 * i + j] = (double)m.get_mixer_force_matrix()(j, i);
        o.mixt[3 * i + j] = (double)m.get_mixer_torque_matrix()(j, i);
        o.mixi[3 * i + j] = (double)m.get_mixer_inertia_matrix()(j, i);
      }
      o.mixv[i] = (double)m.get_mixer_force_vector()[i];
      for (int j = 0; j < 6; j++) o.mix6[6 * i + j] = (double)m.get_mixer_matrix()(j, i);
    }
  }
  static void ob_imu(Obs &o, const Imu &u) {
    V3 x, y;
    u.get_bias(x, y);
    o3(o.gbias, x);
    o3(o.abias, y);
    P gv, av;
    u.get_variances(gv, av);
    o.gvar = (double)gv;
    o.avar = (double)av;
  }

  // ------------------------------------------------------------------ what a component would do next
  struct Fp {
    uint64_t h = 88172645463325252ull;
    void s(double x) { h = fnv(&x, 8, h); }
    template <class T>
    void v(const T &x) { for (int i = 0; i < (int)x.size(); i++) s((double)x(i)); }
    void q(const Q &x) { v(x.coeffs()); }
    void st(const State &x) {
      StateCfg c;
      memset(&c, 0, sizeof c);
      ostate(c, x);
      h = fnv(&c, sizeof c, h);
    }
    double out() const { return (double)(h >> 12); }
  };
  static V3 fe(int i) { return i == 1 ? V3((P)0.3, (P)-0.7, (P)1.1) : i == 2 ? V3((P)-0.4, (P)0.9, (P)0.2) : V3((P)1.3, (P)0.6, (P)9.1); }
  static double fp_of(const Dyn &c) {
    Dyn d(c);
    Fp f;
    for (int i = 0; i < 2; i++) {
      d.process_euler_explicit(VN::Constant((P)(300 + 200 * i)), (P)0.003, fe(1), true);
      f.st(const_cast<const Dyn &>(d).get_state());
      f.v(d.get_model_const().get_stochastic_force());
      f.v(d.get_model_const().get_stochastic_moment());
    }
    return f.out();
  }
  static double fp_of(const Ctrl &k) {
    Ctrl c(k);
    Fp f;
    M3 m = M3::Identity();
    for (int i = 0; i < 2; i++) {
      P k = (P)(1 + 0.5 * i), dt = (P)0.004;
      f.v(c.compute_trajectory_control(fe(1) * k, fe(2), m, fe(1), fe(3), fe(1), fe(2), (P)0.3, dt));
      f.v(c.get_trajectory_controller_const().get_output());
      f.v(c.get_indi_controller_const().get_output());
      f.v(c.compute_position_control(fe(2) * k, m, fe(1), fe(2), fe(3), (P)-0.2, dt));
      f.v(c.get_position_controller_const().get_output());
      f.v(c.get_velocity_controller_const().get_output());
      f.v(c.get_indi_controller_const().get_output());
    }
    return f.out();
  }
  static double fp_of(const Imu &c) {
    Imu u(c);
    Fp f;
    for (int i = 0; i < 2; i++) {
      u.update((P)0.01, fe(3) * (P)(1 + i), fe(1));
      V3 x, y;
      u.get_measurement(x, y);
      f.v(x);
      f.v(y);
      u.get_bias(x, y);
      f.v(x);
      f.v(y);
    }
    return f.out();
  }
  static double fp_of(const Odo &c) {
    Odo u(c);
    Fp f;
    for (int i = 0; i < 3; i++) {
      if (i == 2) u.reset();
      else u.update(fe(1) * (P)(1 + i), fe(3), (P)0.01);
      f.v(u.get_position());
      f.q(u.get_orientation());
      f.v(u.get_linear_velocity());
      f.v(u.get_angular_velocity());
      f.v(u.get_linear_acceleration());
    }
    return f.out();
  }
  static double fp_of(const Pid3 &c) {
    Pid3 p(c);
    Fp f;
    for (int i = 0; i < 2; i++) {
      f.v(p.compute_control((P)0.004, fe(1) * (P)(1 + i)));
      f.v(p.compute_control((P)0.003, fe(2), fe(3)));
    }
    return f.out();
  }
  void fingerprints(double *fp) const {
    const Sim &s = *sim_.p;
    fp[0]        = fp_of(s.get_dynamics_const());
    fp[1]        = fp_of(s.get_controller_const());
    fp[2]        = fp_of(s.get_imu_const());
    fp[3]        = fp_of(s.get_inertial_odometry_const());
    {
      Sim c(s);
      Fp f;
      c.update_dynamics((P)0.003);
      f.st(c.get_state());
      f.v(c.get_external_force());
      c.update_controller((P)0.002);
      f.v(c.get_actuation_motors_angular_velocity());
      c.update_dynamics((P)0.002);
      f.st(c.get_state());
      fp[4] = f.out();
    }
    const Ctrl &k = s.get_controller_const();
    fp[5] = fp_of(static_cast<const Pid3 &>(k.get_position_controller_const()));
    fp[6] = fp_of(static_cast<const Pid3 &>(k.get_trajectory_controller_const()));
    fp[7] = fp_of(static_cast<const Pid3 &>(k.get_velocity_controller_const()));
    fp[8] = fp_of(static_cast<const Pid3 &>(k.get_indi_controller_const()));
  }
  // A component that was just set up from parameters behaves as a new one built from them
  template <class C>
  void as_new(Result &r, const C &used, const C &fresh, const char *what) {
    if (!g_fp || fp_of(used) == fp_of(fresh)) return;
    if (r.views_ok) r.views_bad = what;
    r.views_ok = false;
  }

  // ------------------------------------------------------------------ telemetry
  void write_record(std::ostream &os, int what) {
    const State &s = sim_->get_state();
    switch (what) {
      case 0: os << s; break;
#ifndef DST_NO_INTERNAL
      case 1: multirotor::state::internal::print_kinematics(os, s.kinematics); break;
      case 2: multirotor::state::internal::print_dynamics(os, s.dynamics); break;
      case 3: multirotor::state::internal::print_actuators(os, s.actuators); break;
#else  // the helpers were renamed or moved: cut the part out of the public record
      case 1:
      case 2:
      case 3: {
        FaultBuf b(-1);
        std::ostream tmp(&b);
        tmp.precision(os.precision());
        write_record(tmp, 6);
        size_t from = what == 1 ? 0 : what == 2 ? 18 : 24, to = what == 1 ? 18 : what == 2 ? 24 : 24 + 2 * N, k = 0, pos = 0;
        std::string out;
        while (pos <= b.got.size()) {
          size_t e = b.got.find(',', pos);
          if (e == std::string::npos) e = b.got.size();
          if (k >= from && k < to) out += (out.empty() ? "" : ",") + b.got.substr(pos, e - pos);
          k++;
          pos = e + 1;
        }
        os << out;
        break;
      }
#endif
      case 4: os << sim_->get_inertial_odometry_const(); break;
      case 5: print_state(os, sim_->get_inertial_odometry_const()); break;
      case 6: {
        std::streambuf *old = std::cout.rdbuf(os.rdbuf());
        auto st             = std::cout.rdstate();
        auto ex             = std::cout.exceptions();
        auto pr             = std::cout.precision(os.precision());
        std::cout.exceptions(std::ios::goodbit);
        std::cout.clear();
        auto back = [&] {
          std::cout.rdbuf(old);
          std::cout.clear(st);
          std::cout.exceptions(ex);
          std::cout.precision(pr);
        };
        try {
          multirotor::state::print_state(s);
        } catch (...) {
          back();
          throw;
        }
        bool lost = !std::cout;
        back();
        if (lost) os.setstate(std::ios::badbit);
        break;
      }
      case 7: os << s.kinematics; break;
      case 8: os << s.dynamics; break;
      default: os << s.actuators; break;
    }
  }
  // ------------------------------------------------------------------ twins: components built from the parameters that are read back
  acro_controller::AcroControllerParams<P> read_acro(const Ctrl &c) const {
    acro_controller::AcroControllerParams<P> p;
    const auto &k  = c.get_acro_controller_const();
    p.vehicle_mass = k.get_vehicle_mass();
    p.kp_rot       = k.get_kp_rot();
    p.gravity      = k.get_gravity();
    return p;
  }
  indi_controller::IndiControllerParams<P, N> read_indi(const Ctrl &c) const {
    indi_controller::IndiControllerParams<P, N> p;
    const auto &k          = c.get_indi_controller_const();
    p.inertia              = k.get_inertia();
    p.mixer_matrix_inverse = k.get_mixer_matrix_inverse();
    p.pid_params           = k.get_params();
    return p;
  }
  // Everything the vehicle computes must be what a new one with the parameters it reports computes (noise-free).
  void do_twin(const Op &op, Result &r) {
    const Sim &s = *sim_.p;
    auto bad     = [&](const char *w) {
      if (r.views_ok) r.views_bad = w;
      r.views_ok = false;
    };
    auto eq = [&](const auto &x, const auto &y) {
      for (int i = 0; i < (int)x.size(); i++) {
        double p = (double)x.data()[i], q = (double)y.data()[i];
        if (memcmp(&p, &q, 8) && !(p == 0 && q == 0) && !(std::isnan(p) && std::isnan(q))) return false;
      }
      return true;
    };
    auto sc = [](P x) { return Eigen::Matrix<P, 1, 1>(x); };
    const double *a = op.a.data();
    int how         = (int)a[0];
    V3 x1 = v3(a + 1), x2 = v3(a + 4), x3 = v3(a + 7);
    VN w1 = vn(a + 10), w2 = vn(a + 10 + MAXN);
    P dt            = (P)a[10 + 2 * MAXN], yaw = (P)a[11 + 2 * MAXN];
    // vehicle model
    Model m = s.get_dynamics_const().get_model_const();
    Model t(m.get_params(), 5);
    if (!eq(sc(m.get_force_thrust_by_motors(w1)), sc(t.get_force_thrust_by_motors(w1)))) bad("thrust of the rotors");
    if (!eq(m.get_force_vector_thrust_by_motors(w1), t.get_force_vector_thrust_by_motors(w1))) bad("force of the rotors");
    if (!eq(m.get_torque_by_motors(w1, w2), t.get_torque_by_motors(w1, w2))) bad("torque of the rotors");
    if (!eq(m.get_drag_force(x1), t.get_drag_force(x1))) bad("drag");
    if (!eq(m.get_aerodynamic_moment(x1), t.get_aerodynamic_moment(x1))) bad("aerodynamic moment");
    if (!eq(m.get_mixer_matrix(), t.get_mixer_matrix())) bad("mixer matrix");
    if (!eq(Model::template compute_mixer_matrix<6>(m.get_motors()), m.get_mixer_matrix())) bad("mixer matrix of the rotors");
    if (m.get_num_rotors() != N) bad("number of rotors");
    // dynamics: one noise-free step
    State st = s.get_state();
    Dyn d1   = s.get_dynamics_const();
    Dyn d2   = how == 0 ? Dyn(t, st) : how == 1 ? Dyn(m.get_params(), st) : Dyn(m.get_params(), 9, st);
    d1.process_euler_explicit(w1, dt, x2, false);
    d2.process_euler_explicit(w1, dt, x2, false);
    StateCfg o1, o2;
    memset(&o1, 0, sizeof o1);
    memset(&o2, 0, sizeof o2);
    ostate(o1, d1.get_state());
    ostate(o2, d2.get_state());
    if (!eq(Eigen::Map<Eigen::VectorXd>((double *)&o1, sizeof o1 / 8), Eigen::Map<Eigen::VectorXd>((double *)&o2, sizeof o2 / 8))) bad("a step of the dynamics");
    // controller: fresh memory on both sides
    Ctrl c1 = s.get_controller_const();
    c1.reset_controller();
    CtrlP cp;
    cp.acro_controller_params                  = read_acro(c1);
    cp.indi_controller_params                  = read_indi(c1);
    cp.position_controller_params.pid_params   = c1.get_position_controller_const().get_params();
    cp.trajectory_controller_params.pid_params = c1.get_trajectory_controller_const().get_params();
    cp.velocity_controller_params.pid_params   = c1.get_velocity_controller_const().get_params();
    Ctrl c2 = how == 0 ? Ctrl(cp)
                       : Ctrl(cp.acro_controller_params, cp.indi_controller_params, cp.position_controller_params, cp.trajectory_controller_params,
                              cp.velocity_controller_params);
    M3 R = st.kinematics.orientation.toRotationMatrix();
    for (int k = 0; k < 2; k++) {
      if (!eq(c1.compute_position_control(x1, R, x2, x3, V3(-x2), yaw, dt), c2.compute_position_control(x1, R, x2, x3, V3(-x2), yaw, dt))) bad("position control");
      if (!eq(c1.compute_trajectory_control(x2, x1, R, x3, x3, V3(-x1), x2, yaw, dt), c2.compute_trajectory_control(x2, x1, R, x3, x3, V3(-x1), x2, yaw, dt)))
        bad("trajectory control");
      x1 = V3(-x3);
    }
    if (!eq(sc(c1.yaw_rate_to_angle(yaw, dt)), sc(c2.yaw_rate_to_angle(yaw, dt)))) bad("yaw rate control");
    // IMU: without noise and bias, in the orientation it was last given
    Imu i1 = s.get_imu_const(), i2((P)0, (P)0, (P)0, (P)0, imu_q_, 3);
    i1.set_noise_variances((P)0, (P)0);
    i1.set_bias(V3::Zero(), V3::Zero(), (P)0, (P)0);
    i1.update(dt, x2, x3);
    i2.update(dt, x2, x3);
    if (!eq(i1.get_measurement_gyro(), i2.get_measurement_gyro()) || !eq(i1.get_measurement_accel(), i2.get_measurement_accel())) bad("the frame of the IMU");
  }
  // Configuration written again as it is: nothing may happen
  void do_rewrite(int which) {
    Sim &s  = *sim_;
    Ctrl &c = s.get_controller();
    switch (which) {
      case 0: s.get_dynamics().get_model().update_params(s.get_dynamics().get_model().get_params()); break;
      case 1: c.update_acro_controller_params(read_acro(c)); break;
      case 2: c.update_indi_controller_params(read_indi(c)); break;
      case 3: {
        position_controller::PositionControllerParams<P> p;
        p.pid_params = c.get_position_controller().get_params();
        c.update_position_controller_params(p);
        break;
      }
      case 4: {
        trajectory_controller::TrajectoryControllerParams<P> p;
        p.pid_params = c.get_trajectory_controller().get_params();
        c.update_trajectory_controller_params(p);
        break;
      }
      case 5: {
        velocity_controller::VelocityControllerParams<P> p;
        p.pid_params = c.get_velocity_controller().get_params();
        c.update_velocity_controller_params(p);
        break;
      }
      case 6: s.get_dynamics().set_state(State(s.get_state())); break;
      case 7: {
        P g, x;
        s.get_imu().get_variances(g, x);
        s.get_imu().set_noise_variances(g, x);
        break;
      }
      case 8: s.get_imu().set_orientation(imu_q_); break;
      case 9: c.get_indi_controller().update_inertia(M3(c.get_indi_controller().get_inertia())); break;
      default: {
        CtrlP p;
        p.acro_controller_params                  = read_acro(c);
        p.indi_controller_params                  = read_indi(c);
        p.position_controller_params.pid_params   = c.get_position_controller().get_params();
        p.trajectory_controller_params.pid_params = c.get_trajectory_controller().get_params();
        p.velocity_controller_params.pid_params   = c.get_velocity_controller().get_params();
        c.update_params(p);
      }
    }
  }

  // ------------------------------------------------------------------ stand-alone PID controllers
  // which, then: parameters | dt, error[PD], error rate[PD] | upper[PD], lower[PD], proportional | field, values
  template <int D, class B>
  void pid_op(B &b, const Op &op) {
    using V         = Eigen::Matrix<P, D, 1>;
    const double *a = op.a.data();
    double *ret     = side_ret_[(int)a[0]];
    switch (op.kind) {
      case OP_PID_NEW: b.make(pid_params<D>(unflat<PidCfg>(op.a, 1))); break;
      case OP_PID_RUN: {
        // the error reaches the controller as the difference of a reference and a state (exact by construction)
        V e = vd<D>(a + 2), half = e * (P)0.5;
        ov(ret, b->compute_control((P)a[1], b->get_error(V(-half), half)));
        break;
      }
      case OP_PID_RUND: {
        V e = vd<D>(a + 2), ed = vd<D>(a + 2 + PD), half = e * (P)0.5, halfd = ed * (P)0.5, err, errd;
        b->get_error(V(-half), half, V(-halfd), halfd, err, errd);
        ov(ret, b->compute_control((P)a[1], err, errd));
        break;
      }
      case OP_PID_PARAMS:
        if (a[1] == 0) b->update_pid_params(pid_params<D>(unflat<PidCfg>(op.a, 2)));
        else b->update_pid_params(b->get_params());
        break;
      case OP_PID_SAT: b->set_output_saturation(vd<D>(a + 1), vd<D>(a + 1 + PD), a[1 + 2 * PD] != 0); break;
      case OP_PID_NOSAT: b->disable_output_saturation(); break;
      case OP_PID_RESET: b->reset_controller(); break;
      case OP_PID_SET: {
        int f = (int)a[1];
        V v   = vd<D>(a + 2);
        if (f == 0) b->set_gains_kp(v);
        if (f == 1) b->set_gains_ki(v);
        if (f == 2) b->set_gains_kd(v);
        if (f == 3) b->set_anti_windup(v);
        if (f == 4) b->set_alpha(v);
        if (f == 5) b->set_reset_integral_saturation_flag(a[2] != 0);
        if (f == 6) b->set_proportional_saturation_flag(a[2] != 0);
        if (f == 7) b->set_gains(v, vd<D>(a + 2 + PD), vd<D>(a + 2 + 2 * PD));
        break;
      }
      default: break;
    }
  }
  void pid1_op(const Op &op) {
    const double *a = op.a.data();
    switch (op.kind) {
      case OP_PID_NEW: p1_.make(pid1_params(unflat<PidCfg>(op.a, 1))); break;
      case OP_PID_RUN: {
        P half = (P)a[2] * (P)0.5;
        side_ret_[1][0] = (double)p1_->compute_control((P)a[1], p1_->get_error(-half, half));
        break;
      }
      case OP_PID_RUND: {
        P half = (P)a[2] * (P)0.5, halfd = (P)a[2 + PD] * (P)0.5, e, ed;
        p1_->get_error(-half, half, -halfd, halfd, e, ed);
        side_ret_[1][0] = (double)p1_->compute_control((P)a[1], e, ed);
        break;
      }
      case OP_PID_PARAMS:
        if (a[1] == 0) p1_->update_params(pid1_params(unflat<PidCfg>(op.a, 2)));
        else p1_->update_params(p1_->get_params());
        break;
      case OP_PID_SAT: p1_->set_output_saturation((P)a[1], (P)a[1 + PD]); break;
      case OP_PID_NOSAT: p1_->disable_output_saturation(); break;
      case OP_PID_RESET: p1_->reset_controller(); break;
      case OP_PID_SET: {
        int f = (int)a[1];
        P v   = (P)a[2];
        if (f == 0) p1_->set_kp(v);
        if (f == 1) p1_->set_ki(v);
        if (f == 2) p1_->set_kd(v);
        if (f == 3) p1_->set_anti_windup(v);
        if (f == 4) p1_->set_alpha(v);
        if (f == 5) p1_->set_reset_integral_saturation_flag(a[2] != 0);
        if (f == 7) p1_->set_gains(v, (P)a[2 + PD], (P)a[2 + 2 * PD]);
        break;
      }
      default: break;
    }
  }
  void do_log(const Op &op, Result &r) {
    int what = (int)op.a[0], prec = (int)op.a[1];
    long lim  = (long)op.a[2];
    bool thr  = op.a[3] != 0;
    {
      FaultBuf b(-1);
      std::ostream os(&b);
      os.precision(prec);
      auto fl = os.flags();
      char fi = os.fill();
      write_record(os, what);
      r.views_ok = os.flags() == fl && os.precision() == prec && os.fill() == fi;
      r.out_ref = b.got;
      if (!os) r.out_ref += "<stream failed on a healthy device>";
    }
    FaultBuf b(lim);
    std::ostream os(&b);
    os.precision(prec);
    if (thr) os.exceptions(std::ios::badbit | std::ios::failbit);
    try {
      write_record(os, what);
    } catch (const std::ios_base::failure &) {
      r.stream_ok = false;
    }
    if (!os) r.stream_ok = false;
    r.out = b.got;
  }

  // ------------------------------------------------------------------ read views
  void do_read(Result &r) {
    const Sim &c = *sim_;
    Sim &s       = *sim_;
    auto bad     = [&](const char *n) {
      r.views_ok = false;
      r.views_bad += std::string(r.views_bad.empty() ? "" : ",") + n;
    };
    auto eqv = [](const auto &a, const auto &b) {
      for (int i = 0; i < a.size(); i++)
        if (memcmp(&a.data()[i], &b.data()[i], sizeof(P) > 8 ? 10 : sizeof(P)) != 0) return false;
      return true;
    };
    auto eqs = [](P a, P b) { return memcmp(&a, &b, sizeof(P) > 8 ? 10 : sizeof(P)) == 0; };
    auto eqst = [&](const State &a, const State &b) {
      StateCfg x, y;
      memset(&x, 0, sizeof x);
      memset(&y, 0, sizeof y);
      ostate(x, a);
      ostate(y, b);
      return memcmp(&x, &y, sizeof x) == 0;
    };
    auto eqo = [](auto fa, auto fb) {
      Obs x, y;
      memset(&x, 0, sizeof x);
      memset(&y, 0, sizeof y);
      fa(x);
      fb(y);
      return memcmp(&x, &y, sizeof x) == 0;
    };
    {
      State st;
      c.get_state(st);
      if (!eqst(st, c.get_state())) bad("get_state");
      Dyn d2;
      c.get_dynamics(d2);
      if (!eqst(d2.get_state(), st)) bad("get_dynamics(copy)");
      State st2;
      s.get_dynamics().get_state(st2);
      if (!eqst(st2, st)) bad("get_dynamics().get_state");
      if (!eqst(c.get_dynamics_const().get_state(), st)) bad("get_dynamics_const");
      Model m;
      c.get_dynamics_const().get_model(m);
      const Model &mc = c.get_dynamics_const().get_model_const();
      auto eqm = [&](const Model &a, const Model &b) { return eqo([&](Obs &x) { ob_model(x, a); }, [&](Obs &x) { ob_model(x, b); }); };
      if (!eqm(m, mc)) bad("get_model(copy)");
      if (!eqm(s.get_dynamics().get_model(), mc)) bad("get_model");
      if (!eqm(d2.get_model_const(), mc)) bad("get_dynamics(copy).get_model");
      const ModelP &mp = mc.get_params();
      if (!eqs(mp.vehicle_mass, mc.get_mass()) || !eqv(mp.vehicle_inertia, mc.get_vehicle_inertia()) ||
          !eqs(mp.vehicle_drag_coefficient, mc.get_vehicle_drag_coefficient()) ||
          !eqv(mp.vehicle_aero_moment_coefficient, mc.get_vehicle_aero_moment_coefficient()) || !eqv(mp.gravity, mc.get_gravity()) ||
          !eqs(mp.force_process_noise_auto_correlation, mc.get_force_process_noise_auto_correlation()) ||
          !eqs(mp.moment_process_noise_auto_correlation, mc.get_moment_process_noise_auto_correlation()) ||
          mp.motors_params.size() != mc.get_motors().size() || mc.get_num_rotors() != (int)mc.get_motors().size())
        bad("model.get_params");
      for (size_t i = 0; i < mp.motors_params.size() && i < mc.get_motors().size(); i++) {
        const MotorP &x = mp.motors_params[i], &y = mc.get_motors()[i];
        if (x.motor_rotation_direction != y.motor_rotation_direction || !eqs(x.thrust_coefficient, y.thrust_coefficient) ||
            !eqs(x.torque_coefficient, y.torque_coefficient) || !eqs(x.min_speed, y.min_speed) || !eqs(x.max_speed, y.max_speed) ||
            !eqs(x.time_constant, y.time_constant) || !eqs(x.rotational_inertia, y.rotational_inertia) ||
            !eqv(x.pose.matrix(), y.pose.matrix()))
          bad("model.get_motors");
      }
      // evaluating the model's force functions is reading too
      Model &mm     = s.get_dynamics().get_model();
      const VN &w   = st.actuators.motor_angular_velocity;
      const V3 f    = mm.get_force_vector_thrust_by_motors(w);
      const P scale = (P)64 * std::numeric_limits<P>::epsilon() * mc.get_mixer_force_matrix().cwiseAbs().sum() * w.cwiseAbs2().sum();
      if (std::fabs((double)(mm.get_force_thrust_by_motors(w) - f.z())) > (double)scale) bad("thrust by motors");
      (void)mm.get_torque_by_motors(w, st.actuators.motor_angular_acceleration);
      (void)mm.get_drag_force(st.kinematics.linear_velocity);
      (void)mm.get_aerodynamic_moment(st.kinematics.angular_velocity);
    }
    {
      Kin k;
      c.get_odometry(k);
      Kin k2 = c.get_odometry();
      V3 a, b, d, e;
      Q q;
      c.get_inertial_odometry_const().get_measurement(a, q, b, d, e);
      const Odo &o = c.get_inertial_odometry_const();
      if (!eqv(k.position, k2.position) || !eqv(k.position, a) || !eqv(k.position, o.get_position()))
        bad("odometry.position");
      if (!eqv(k.orientation.coeffs(), k2.orientation.coeffs()) ||
          !eqv(k.orientation.coeffs(), q.coeffs()) ||
          !eqv(k.orientation.coeffs(), o.get_orientation().coeffs()))
        bad("odometry.orientation");
      if (!eqv(k.linear_velocity, k2.linear_velocity) || !eqv(k.linear_velocity, b) ||
          !eqv(k.linear_velocity, o.get_linear_velocity()))
        bad("odometry.linear_velocity");
      if (!eqv(k.angular_velocity, k2.angular_velocity) || !eqv(k.angular_velocity, d) ||
          !eqv(k.angular_velocity, o.get_angular_velocity()))
        bad("odometry.angular_velocity");
      if (!eqv(k.linear_acceleration, k2.linear_acceleration) || !eqv(k.linear_acceleration, e) ||
          !eqv(k.linear_acceleration, o.get_linear_acceleration()))
        bad("odometry.linear_acceleration");
      Odo o2;
      c.get_inertial_odometry(o2);
      if (!eqv(o2.get_position(), k.position)) bad("get_inertial_odometry(copy)");
      if (!eqv(s.get_inertial_odometry().get_position(), k.position)) bad("get_inertial_odometry");
    }
    {
      V3 g, a, g2, a2, g3, a3;
      c.get_imu_measurement(g, a);
      const Imu &u = c.get_imu_const();
      u.get_measurement(g2, a2);
      auto pr = u.get_measurement();
      if (!eqv(g, g2) || !eqv(g, u.get_measurement_gyro()) || !eqv(g, V3(pr.first))) bad("imu.gyro");
      if (!eqv(a, a2) || !eqv(a, u.get_measurement_accel()) || !eqv(a, V3(pr.second)))
        bad("imu.accel");
      u.get_measurement_gyro(g3);
      u.get_measurement_accel(a3);
      if (!eqv(g, g3)) bad("imu.get_measurement_gyro");
      if (!eqv(a, a3)) bad("imu.get_measurement_accel");
      Imu i2;
      c.get_imu(i2);
      V3 b1, b2, b3, b4;
      i2.get_bias(b1, b2);
      u.get_bias(b3, b4);
      if (!eqv(i2.get_measurement_gyro(), g) || !eqv(b1, b3) || !eqv(b2, b4)) bad("get_imu(copy)");
      if (!eqv(s.get_imu().get_measurement_gyro(), g)) bad("get_imu");
    }
    {
      Ctrl k;
      c.get_controller(k);
      const Ctrl &kc = c.get_controller_const();
      auto eqc = [&](const Ctrl &a, const Ctrl &b) { return eqo([&](Obs &x) { ob_ctrl(x, a); }, [&](Obs &x) { ob_ctrl(x, b); }); };
      if (!eqc(k, kc)) bad("get_controller(copy)");
      if (!eqc(s.get_controller(), kc)) bad("get_controller");
      Ctrl &kr = s.get_controller();
      auto eqp = [&](const auto &a, const auto &b) { return eqo([&](Obs &x) { opid(x.side[0], a); }, [&](Obs &x) { opid(x.side[0], b); }); };
      if (!eqp(kr.get_position_controller(), kc.get_position_controller_const())) bad("get_position_controller");
      if (!eqp(kr.get_velocity_controller(), kc.get_velocity_controller_const())) bad("get_velocity_controller");
      if (!eqp(kr.get_trajectory_controller(), kc.get_trajectory_controller_const())) bad("get_trajectory_controller");
      if (!eqp(kr.get_indi_controller(), kc.get_indi_controller_const())) bad("get_indi_controller");
      if (!eqv(kr.get_acro_controller().get_desired_angular_velocity(), kc.get_acro_controller_const().get_desired_angular_velocity()) ||
          !eqs(kr.get_acro_controller().get_vehicle_mass(), kc.get_acro_controller_const().get_vehicle_mass()))
        bad("get_acro_controller");
      const auto &pc = kc.get_position_controller_const();
      const auto &vc = kc.get_velocity_controller_const();
      const auto &tc = kc.get_trajectory_controller_const();
      const auto &ic = kc.get_indi_controller_const();
      if (!eqv(pc.get_desired_linear_velocity(), pc.get_output()) || !eqv(pc.get_position_error(), pc.get_proportional_error())) bad("position controller");
      if (!eqv(vc.get_desired_linear_acceleration(), vc.get_output()) || !eqv(vc.get_velocity_error(), vc.get_proportional_error())) bad("velocity controller");
      if (!eqv(tc.get_desired_linear_acceleration(), tc.get_output()) || !eqv(tc.get_position_error(), tc.get_proportional_error()) ||
          !eqv(tc.get_velocity_error(), tc.get_derivative_error()))
        bad("trajectory controller");
      if (!eqv(ic.get_desired_angular_acceleration(), ic.get_output()) || !eqv(ic.get_angular_velocity_error(), ic.get_proportional_error())) bad("rate controller");
      auto pidviews = [&](const auto &p, const char *nm) {
        V3 kp, ki, kd, up, lo;
        p.get_gains(kp, ki, kd);
        p.get_saturation_limits(up, lo);
        PidP q = p.get_params();
        if (!eqv(kp, p.get_gains_kp()) || !eqv(ki, p.get_gains_ki()) || !eqv(kd, p.get_gains_kd()) || !eqv(kp, q.Kp_gains) ||
            !eqv(ki, q.Ki_gains) || !eqv(kd, q.Kd_gains) || !eqv(q.antiwindup_cte, p.get_anti_windup()) || !eqv(q.alpha, p.get_alpha()) ||
            q.reset_integral_flag != p.get_reset_integral_saturation_flag() || q.proportional_saturation_flag != p.get_proportional_saturation_flag())
          bad(nm);
        if (p.get_output_saturation_flag() && (!eqv(up, q.upper_output_saturation) || !eqv(lo, q.lower_output_saturation))) bad(nm);
      };
      pidviews(pc, "position controller parameters");
      pidviews(vc, "velocity controller parameters");
      pidviews(tc, "trajectory controller parameters");
      pidviews(ic, "rate controller parameters");
      pidviews(*p3_.p, "pid parameters");
      const Pid1 &p = *p1_.p;
      P kp, ki, kd, up, lo;
      p.get_gains(kp, ki, kd);
      p.get_saturation_limits(up, lo);
      Pid1P q = p.get_params();
      if (!eqs(kp, p.get_kp()) || !eqs(ki, p.get_ki()) || !eqs(kd, p.get_kd()) || !eqs(kp, q.Kp_gains) || !eqs(ki, q.Ki_gains) || !eqs(kd, q.Kd_gains) ||
          !eqs(q.antiwindup_cte, p.get_anti_windup()) || !eqs(q.alpha, p.get_alpha()) || q.reset_integral_flag != p.get_reset_integral_saturation_flag() ||
          (p.get_output_saturation_flag() && (!eqs(up, q.upper_output_saturation) || !eqs(lo, q.lower_output_saturation))))
        bad("1-d pid parameters");
    }
#define VB(f)                          \
  {                                    \
    bool x = !c.f();                   \
    c.f(x);                            \
    if (x != c.f()) bad(#f);           \
  }
#define VS(f)                          \
  {                                    \
    P x = (P)123;                      \
    c.f(x);                            \
    if (!eqs(x, c.f())) bad(#f);       \
  }
#define VV(f)                          \
  {                                    \
    V3 x = V3::Constant((P)123);       \
    c.f(x);                            \
    if (!eqv(x, c.f())) bad(#f);       \
  }
#define VNV(f)                         \
  {                                    \
    VN x = VN::Constant((P)123);       \
    c.f(x);                            \
    if (!eqv(x, c.f())) bad(#f);       \
  }
    VB(get_armed)
    VB(get_floor_collision_enabled)
    VS(get_floor_height)
    VNV(get_reference_motors_angular_velocity)
    VS(get_reference_thrust)
    VV(get_reference_angular_velocity)
    VV(get_reference_position)
    VV(get_reference_velocity)
    VV(get_reference_acceleration)
    VS(get_reference_yaw)
    VS(get_reference_yaw_rate)
    VNV(get_actuation_motors_angular_velocity)
    VV(get_external_force)
    {
      multirotor::ControlMode m  = (multirotor::ControlMode)((int)c.get_control_mode() ^ 1);
      multirotor::YawControlMode y = (multirotor::YawControlMode)((int)c.get_yaw_control_mode() ^ 1);
      c.get_control_mode(m);
      c.get_yaw_control_mode(y);
      if (m != c.get_control_mode()) bad("get_control_mode");
      if (y != c.get_yaw_control_mode()) bad("get_yaw_control_mode");
    }
#undef VB
#undef VS
#undef VV
#undef VNV
  }

  // copy a component out, use the copy, put an untouched second copy back: must change nothing
  void do_persist(int c) {
    Sim &s = *sim_;
    V3 e(1, 2, 3);
    if (c == 0) {
      Dyn a, b;
      s.get_dynamics(a);
      b = a;
      a.process_euler_explicit(VN::Constant((P)50), (P)0.003, e);
      a.get_model().set_stochastic_noise((P)0.01);
      s.get_dynamics() = b;
    } else if (c == 1) {
      Ctrl a, b;
      s.get_controller(a);
      b = a;
      a.compute_acro_control(e, (P)3, -e, (P)0.01);
      a.compute_velocity_control(e, M3::Identity(), e, -e, (P)0.3, (P)0.01);
      a.compute_position_control(e, M3::Identity(), e, e, -e, (P)0.3, (P)0.01);
      a.reset_controller();
      s.get_controller() = b;
    } else if (c == 2) {
      Imu a, b;
      s.get_imu(a);
      b = a;
      a.update((P)0.01, e, e);
      a.set_noise_variances((P)4, (P)5);
      a.reset();
      s.get_imu() = b;
    } else if (c == 4) {
      Sim &self = s;
      s = self;
    } else if (c == 5) {
      Sim a(s), b(a);
      a.update_controller((P)0.02);
      a.update_dynamics((P)0.02);
      a.update_imu((P)0.02);
      Sim m(std::move(b));
      s = std::move(m);
    } else {
      Odo a, b;
      s.get_inertial_odometry(a);
      b = a;
      a.update(e, e, (P)0.1);
      a.reset();
      s.get_inertial_odometry() = b;
    }
  }

  static void expl(Box<Sim> &b, const SimCfg &c) {
    SP sp;
    sp.dynamics_params          = dyn_params(c.dyn);
    sp.controller_params        = ctrl_params(c.ctrl, &c.dyn.model);
    sp.imu_params               = imu_params(c.imu);
    sp.inertial_odometry_params = odom_params(c.odom);
    b.make(sp);
  }

  struct AllocArm {  // the k-th allocation made while this is alive fails
    long before;
    AllocArm(int k) : before(g_alloc_count) { g_alloc_fail_at = k; }
    ~AllocArm() { g_alloc_fail_at = 0; }
    int used() const { return (int)(g_alloc_count - before); }
    void off() { g_alloc_fail_at = 0; }
  };

  void exec(const Op &op, Result &r) {
    const double *a = op.a.data();
    if (op.kind == OP_BOOT) {
      imu_q_ = qt(unflat<SimCfg>(op.a).imu.q);
      expl(sim_, unflat<SimCfg>(op.a));
      SimCfg c = unflat<SimCfg>(op.a);
      as_new(r, sim_->get_dynamics_const(), Dyn(dyn_params(c.dyn)), "vehicle");
      as_new(r, sim_->get_controller_const(), Ctrl(ctrl_params(c.ctrl, &c.dyn.model)), "controller");
      as_new(r, sim_->get_imu_const(), Imu(imu_params(c.imu)), "IMU");
      as_new(r, sim_->get_inertial_odometry_const(), Odo(odom_params(c.odom)), "odometry");
      return;
    }
    Sim &s = *sim_;
    switch (op.kind) {
      case OP_ARM: s.arm(); break;
      case OP_DISARM: s.disarm(); break;
      case OP_FLOOR_ON: s.enable_floor_collision((P)a[0]); break;
      case OP_FLOOR_OFF: s.disable_floor_collision(); break;
      case OP_MODE:
        s.set_control_mode((multirotor::ControlMode)(int)a[0],
                           (multirotor::YawControlMode)(int)a[1]);
        break;
      case OP_REF_MOTORS: s.set_refence_motors_angular_velocity(vn(a)); break;
      case OP_REF_ACRO: s.set_reference_acro((P)a[0], v3(a + 1)); break;
      case OP_REF_TRAJ: s.set_reference_trajectory(v3(a), v3(a + 3), v3(a + 6)); break;
      case OP_REF_VEL: s.set_reference_velocity(v3(a)); break;
      case OP_REF_POS: s.set_reference_position(v3(a)); break;
      case OP_REF_YAW: s.set_reference_yaw_angle((P)a[0]); break;
      case OP_REF_YAWRATE: s.set_reference_yaw_rate((P)a[0]); break;
      case OP_DYN: s.update_dynamics((P)a[0]); break;
      case OP_CTRL: s.update_controller((P)a[0]); break;
      case OP_IMU: s.update_imu((P)a[0]); break;
      case OP_ODOM: s.update_inertial_odometry((P)a[0]); break;
      case OP_DYN_DIRECT:
        // dt, ext3, noise, cmd[N]
        s.get_dynamics().process_euler_explicit(vn(a + 5), (P)a[0], v3(a + 1), a[4] != 0);
        break;
      case OP_IMU_DIRECT: s.get_imu().update((P)a[0], v3(a + 1), v3(a + 4)); break;
      case OP_ODOM_DIRECT: s.get_inertial_odometry().update(v3(a + 1), v3(a + 4), (P)a[0]); break;
      case OP_TELEPORT: {
        State st = state(unflat<StateCfg>(op.a));
        int how  = op.a.size() > sizeof(StateCfg) / 8 ? (int)op.a[sizeof(StateCfg) / 8] : 0;
        if (how == 0) s.get_dynamics().set_state(st);
        else if (how == 1) s.get_dynamics().set_state(&st);
        else s.get_dynamics().set_state((const State *)nullptr);
        break;
      }
      case OP_MODEL_PARAMS: {
        ModelP mp = model_params(unflat<ModelCfg>(op.a));
        if (op.a.size() > sizeof(ModelCfg) / 8) {  // a configuration file with the wrong number of motors
          MotorP last = mp.motors_params.back();
          mp.motors_params.resize((size_t)op.a[sizeof(ModelCfg) / 8], last);
        }
        AllocArm arm(op.alloc_fail);
        s.get_dynamics().get_model().update_params(mp);
        r.allocs = arm.used();
        break;
      }
      case OP_SET_DYN: {
        DynP dp = dyn_params(unflat<DynCfg>(op.a));
        AllocArm arm(op.alloc_fail);
        s.set_dynamics_params(dp);
        r.allocs = arm.used();
        arm.off();
        as_new(r, s.get_dynamics_const(), Dyn(dp), "vehicle");
        break;
      }
      case OP_SET_CTRL: {
        ModelCfg mc = unflat<ModelCfg>(op.a, sizeof(CtrlCfg) / 8);
        CtrlP cp    = ctrl_params(unflat<CtrlCfg>(op.a), &mc);
        AllocArm arm(op.alloc_fail);
        s.set_controller_params(cp);
        r.allocs = arm.used();
        arm.off();
        as_new(r, s.get_controller_const(), Ctrl(cp), "controller");
        break;
      }
      case OP_CTRL_PARAMS: {
        ModelCfg mc = unflat<ModelCfg>(op.a, sizeof(CtrlCfg) / 8);
        s.get_controller().update_params(ctrl_params(unflat<CtrlCfg>(op.a), &mc));
        break;
      }
      case OP_CTRL_PART: {  // which, CtrlCfg, ModelCfg
        ModelCfg mc = unflat<ModelCfg>(op.a, 1 + sizeof(CtrlCfg) / 8);
        CtrlP cp    = ctrl_params(unflat<CtrlCfg>(op.a, 1), &mc);
        Ctrl &k     = s.get_controller();
        switch ((int)a[0]) {
          case 0: k.update_acro_controller_params(cp.acro_controller_params); break;
          case 1: k.update_indi_controller_params(cp.indi_controller_params); break;
          case 2: k.update_position_controller_params(cp.position_controller_params); break;
          case 3: k.update_trajectory_controller_params(cp.trajectory_controller_params); break;
          case 4: k.update_velocity_controller_params(cp.velocity_controller_params); break;
          case 5: k.get_acro_controller().update_vehicle_mass(cp.acro_controller_params.vehicle_mass); break;
          case 6: k.get_acro_controller().update_gravity(cp.acro_controller_params.gravity); break;
          case 7: k.get_acro_controller().update_kp_rot(cp.acro_controller_params.kp_rot); break;
          case 8: k.get_indi_controller().update_inertia(cp.indi_controller_params.inertia); break;
          default: k.get_indi_controller().update_mixer_matrix_inverse(cp.indi_controller_params.mixer_matrix_inverse); break;
        }
        break;
      }
      case OP_SET_IMU:
        s.set_imu_params(imu_params(unflat<ImuCfg>(op.a)));
        imu_q_ = qt(unflat<ImuCfg>(op.a).q);
        as_new(r, s.get_imu_const(), Imu(imu_params(unflat<ImuCfg>(op.a))), "IMU");
        break;
      case OP_SET_ODOM:
        s.set_inertial_odometry_params(odom_params(unflat<OdomCfg>(op.a)));
        as_new(r, s.get_inertial_odometry_const(), Odo(odom_params(unflat<OdomCfg>(op.a))), "odometry");
        break;
      case OP_CTRL_RESET: s.get_controller().reset_controller(); break;
      case OP_IMU_SEED: s.get_imu().set_random_seed((int)a[0]); break;
      case OP_IMU_VAR: s.get_imu().set_noise_variances((P)a[0], (P)a[1]); break;
      case OP_IMU_CORR: s.get_imu().set_bias_autocorrelation_time((P)a[0], (P)a[1]); break;
      case OP_IMU_BIAS: s.get_imu().set_bias(v3(a), v3(a + 3), (P)a[6], (P)a[7]); break;
      case OP_IMU_ORI:
        s.get_imu().set_orientation(qt(a));
        imu_q_ = qt(a);
        break;
      case OP_IMU_RESET: s.get_imu().reset(); break;
      case OP_ODOM_RESET: s.get_inertial_odometry().reset(); break;
      case OP_ODOM_INIT: s.get_inertial_odometry().set_initial_orientation(qt(a)); break;
      case OP_READ: do_read(r); break;
      case OP_LOG: do_log(op, r); break;
      case OP_SNAP: {
        auto &b = slot_[(int)a[0]];
        AllocArm arm(op.alloc_fail);
        try {
          if (a[1] == 0 || !b.p) b.make(s);
          else *b = s;
        } catch (...) {
          b.drop();  // a snapshot that could not be taken does not exist
          throw;
        }
        r.allocs               = arm.used();
        slot_q_[(int)a[0]]     = imu_q_;
        break;
      }
      case OP_RESTORE: {
        auto &b = slot_[(int)a[0]];
        if (!b.p) break;
        imu_q_ = slot_q_[(int)a[0]];
        if (a[1] == 0) sim_.make(*b);
        else *sim_ = *b;
        break;
      }
      case OP_PERSIST: do_persist((int)a[0]); break;
      case OP_TWIN: do_twin(op, r); break;
      case OP_REWRITE: do_rewrite((int)a[0]); break;
      case OP_MODEL_SWAP: {
        Model m;
        s.get_dynamics().get_model(m);
        if (a[0] == 0) s.get_dynamics().set_model(m);
        else if (a[0] == 1) s.get_dynamics().set_model(&m);
        else s.get_dynamics().set_model((const Model *)nullptr);
        break;
      }
      case OP_PID_NEW:
      case OP_PID_RUN:
      case OP_PID_RUND:
      case OP_PID_PARAMS:
      case OP_PID_SAT:
      case OP_PID_NOSAT:
      case OP_PID_RESET:
      case OP_PID_SET:
        if (a[0] == 0) pid_op<3>(p3_, op);
        else if (a[0] == 2) pid_op<6>(p6_, op);
        else if (a[0] == 3) pid_op<2>(p2_, op);
        else pid1_op(op);
        break;
      default: break;
    }
  }

public:
  explicit SutImpl(int poison) : poison_(poison) {
    sim_.poison = poison;
    for (auto &s : slot_) s.poison = poison;
    p3_.poison = p1_.poison = p6_.poison = p2_.poison = poison;
    sim_.make();
    p3_.make();
    p1_.make();
    p6_.make();
    p2_.make();
  }
  int n() const override { return N; }
  bool flt() const override { return sizeof(P) == 4; }

  void apply(const Op &op, Result &r) override {
    scribble_stack(poison_);
    try {
      exec(op, r);
    } catch (const std::invalid_argument &e) {
      r.exc  = EX_INVALID_ARG;
      r.what = e.what();
    } catch (const std::bad_alloc &) {
      r.exc = EX_BAD_ALLOC;
    } catch (const std::exception &e) {
      r.exc  = EX_OTHER;
      r.what = e.what();
    } catch (...) {
      r.exc = EX_OTHER;
    }
    g_alloc_fail_at = 0;
  }

  void observe(Obs &o) const override {
    memset(&o, 0, sizeof o);
    const Sim &s = *sim_.p;
    ostate(o.st, s.get_state());
    Kin k = s.get_odometry();
    o3(o.op, k.position);
    oq(o.oq, k.orientation);
    o3(o.ov, k.linear_velocity);
    o3(o.ow, k.angular_velocity);
    o3(o.oa, k.linear_acceleration);
    V3 x, y;
    s.get_imu_measurement(x, y);
    o3(o.gyro, x);
    o3(o.accel, y);
    ob_imu(o, s.get_imu_const());
    on(o.rmot, s.get_reference_motors_angular_velocity());
    o.rthr = (double)s.get_reference_thrust();
    o3(o.rw, s.get_reference_angular_velocity());
    o3(o.rp, s.get_reference_position());
    o3(o.rv, s.get_reference_velocity());
    o3(o.ra, s.get_reference_acceleration());
    o.ryaw = (double)s.get_reference_yaw();
    o.ryr  = (double)s.get_reference_yaw_rate();
    on(o.act, s.get_actuation_motors_angular_velocity());
    o3(o.ext, s.get_external_force());
    o.armed    = s.get_armed();
    o.floor_en = s.get_floor_collision_enabled();
    o.floor_h  = (double)s.get_floor_height();
    o.mode     = (int)s.get_control_mode();
    o.ymode    = (int)s.get_yaw_control_mode();
    ob_ctrl(o, s.get_controller_const());
    ob_model(o, s.get_dynamics_const().get_model_const());
    opid(o.side[0], *p3_.p);
    opid1(o.side[1], *p1_.p);
    opid(o.side[2], *p6_.p);
    opid(o.side[3], *p2_.p);
    memcpy(o.side_ret, side_ret_, sizeof side_ret_);
    if (g_fp) fingerprints(o.fp);
  }
};

}  // namespace
}  // namespace dst

#define DST_REGISTER(P, N)                                                                     \
  namespace dst {                                                                              \
  static Sut *mk_##P##_##N(int poison) { return new SutImpl<P, N>(poison); }                   \
  static struct Reg_##P##_##N {                                                                \
    Reg_##P##_##N() { register_sut(N, sizeof(P) == 4, mk_##P##_##N); }                         \
  } reg_##P##_##N;                                                                             \
  }
