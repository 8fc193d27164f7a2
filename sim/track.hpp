// What the inputs alone say about the configuration in force (never read back from the library).
#pragma once
#include "exec.hpp"
#include "gen.hpp"
#include "world.hpp"

namespace dst {

inline bool contact_pattern(const Obs &o) {
  for (int i = 0; i < 3; i++)
    if (o.st.v[i] != 0 || o.st.w[i] != 0 || o.st.a[i] != 0 || o.st.al[i] != 0) return false;
  return o.floor_en != 0 && o.st.p[2] == o.floor_h;
}

// Did this dynamics update end on the floor? 0 no, 1 yes, 2 cannot tell: a vehicle that rests at floor
// height with no force at all on it looks the same without ever touching the floor. (The force is the
// one of the last integration step: it proves nothing about a longer update.)
inline int contact_kind(const Obs &pre, const Obs &post, double dt) {
  if (!contact_pattern(post)) return 0;
  if (pre.st.p[2] >= pre.floor_h) {
    bool rest = true;
    for (int i = 0; i < 3; i++) rest = rest && pre.st.v[i] == 0 && post.st.F[i] == 0;
    if (rest) return dt <= 0.0099 ? 0 : 2;
  }
  return 1;
}
inline bool is_contact(const Obs &pre, const Obs &post, double dt) { return contact_kind(pre, post, dt) == 1; }

inline bool valid_update(const Op &op, int n) {
  if (op.a.size() > sizeof(ModelCfg) / 8 && op.a[sizeof(ModelCfg) / 8] != n) return false;
  return ref::valid_model(unflat<ModelCfg>(op.a), n);
}

struct Track {
  int n = 4;
  SimCfg cfg;
  ref::Vehicle veh;
  bool contact = false;       // the last dynamics update ended on the floor
  bool unsure  = false;       // ... perhaps
  double gb = 0, ab = 0;      // bias drift intensity
  double gv = 0, av = 0;
  bool noise_ok = true;
  bool stoch = false;
  void load_model(const ModelCfg &m) {
    cfg.dyn.model = m;
    veh           = ref::make_vehicle(m, n);
    stoch         = m.qf != 0 || m.qm != 0;
  }
  void update(const Op &op, const Obs &pre, const Obs &post, const Result &r) {
    switch (op.kind) {
      case OP_BOOT:
        cfg = unflat<SimCfg>(op.a);
        load_model(cfg.dyn.model);
        contact = unsure = false;
        imu(cfg.imu);
        break;
      case OP_MODEL_PARAMS: {
        ModelCfg m = unflat<ModelCfg>(op.a);
        if (!r.exc && valid_update(op, n)) load_model(m);
        break;
      }
      case OP_SET_DYN:
        if (!r.exc) {
          cfg.dyn = unflat<DynCfg>(op.a);
          load_model(cfg.dyn.model);
        }
        break;
      case OP_SET_IMU:
        cfg.imu = unflat<ImuCfg>(op.a);
        imu(cfg.imu);
        break;
      case OP_SET_ODOM: cfg.odom = unflat<OdomCfg>(op.a); break;
      case OP_ODOM_INIT:
        for (int i = 0; i < 4; i++) cfg.odom.q[i] = op.a[i];
        break;
      case OP_IMU_VAR:
        gv = op.a[0];
        av = op.a[1];
        break;
      case OP_IMU_CORR:
        gb = op.a[0];
        ab = op.a[1];
        break;
      case OP_IMU_BIAS:
        gb = op.a[6];
        ab = op.a[7];
        break;
      case OP_IMU_ORI:
        for (int i = 0; i < 4; i++) cfg.imu.q[i] = op.a[i];
        break;
      case OP_DYN:
        if (!r.exc) {
          int ck = contact_kind(pre, post, op.a[0]);
          contact = ck == 1;
          unsure  = ck == 2;
          if (contact)
            for (int i = 0; i < 4; i++) cfg.odom.q[i] = post.st.q[i];
        }
        break;
      default: break;
    }
  }
  void imu(const ImuCfg &c) {
    gv = c.gv;
    av = c.av;
    gb = c.gb;
    ab = c.ab;
  }
  // the force the simulator feeds to the next dynamics update (floor support), and its command
  ref::V support(const Obs &pre) const {
    if (pre.floor_en && pre.st.p[2] < pre.floor_h) return -(veh.g * ref::R(veh.mass));
    return ref::V();
  }
};

inline bool finite_state(const StateCfg &s, double lim) {
  const double *d = (const double *)&s;
  for (size_t i = 0; i < sizeof s / 8; i++)
    if (!(std::fabs(d[i]) < lim)) return false;
  return true;
}

struct PropDef {
  const char *id;
  Profile pf;
  Checker *(*mk)();
  World *(*world)(Exec &, uint64_t, const Profile &);
  int quick, thorough;
  int instances;
  const char *rule;
};
const std::vector<PropDef> &props();
void register_prop(const PropDef &p);
struct RegProp {
  RegProp(const PropDef &p) { register_prop(p); }
};
inline World *plain_world(Exec &e, uint64_t s, const Profile &p) { return new World(e, s, p); }
template <class T>
Checker *mk_checker() { return new T; }
template <class T>
World *mk_world(Exec &e, uint64_t s, const Profile &p) { return new T(e, s, p); }

// accumulator of standardised samples; verdicts at >= 7 sigma
struct Stat {
  static constexpr int LAGS = 8, BINS = 5;
  double s1 = 0, s2 = 0, s3 = 0, lag[LAGS] = {0}, prev[LAGS] = {0};
  long n = 0, bin[BINS] = {0};
  void add(double x) {
    s1 += x;
    s2 += x * x;
    s3 += x * x * x;
    for (int k = 0; k < LAGS && k < n; k++) lag[k] += x * prev[(n - 1 - k) % LAGS];
    double a = std::fabs(x);
    bin[0] += a < 0.1, bin[1] += a > 1, bin[2] += a > 2, bin[3] += a > 2.5, bin[4] += a > 3.2;
    prev[n % LAGS] = x;
    n++;
  }
  // Chernoff bound on the probability of k successes in n trials, as its negative logarithm
  static double surprise(long k, long n, double p) {
    double q = (double)k / n, d = 0;
    if (q > 0) d += q * std::log(q / p);
    if (q < 1) d += (1 - q) * std::log((1 - q) / (1 - p));
    return n * d;
  }
  const char *verdict(std::string &d, long minn = 200) const {
    if (n < minn) return nullptr;
    char b[320];
    double m = s1 / n, v = s2 / n, l1 = n > 1 ? lag[0] / (n - 1) : 0;
    snprintf(b, sizeof b, "n=%ld mean=%.4g variance=%.4g lag-1=%.4g (standardised; want 0, 1, 0)", n, m, v, l1);
    d = b;
    if (std::fabs(m) > 8 / std::sqrt((double)n)) return "mean";
    if (std::fabs(v - 1) > 8 * std::sqrt(2.0 / n)) return "variance";
    for (int k = 0; k < LAGS; k++) {
      double l = lag[k] / (n - 1 - k);
      if (std::fabs(l) > 8 / std::sqrt((double)(n - 1 - k))) {
        snprintf(b, sizeof b, "n=%ld lag-%d correlation=%.4g", n, k + 1, l);
        d = b;
        return "lag";
      }
    }
    if (n >= 1000 && std::fabs(s3 / n) > 10 * std::sqrt(15.0 / n)) {
      snprintf(b, sizeof b, "n=%ld third moment=%.4g (standardised; want 0)", n, s3 / n);
      d = b;
      return "skewness";
    }
    static const double pr[BINS] = {0.07965567455405798, 0.31731050786291415, 0.04550026389635842, 0.012419330651552318, 0.0013742757935869};
    static const char *nm[BINS] = {"below 0.1", "above 1", "above 2", "above 2.5", "above 3.2"};
    for (int k = 0; k < BINS; k++)
      if (surprise(bin[k], n, pr[k]) > 28) {
        snprintf(b, sizeof b, "%ld of %ld samples %s sigma, a Gaussian has %.4g", bin[k], n, nm[k], pr[k] * n);
        d = b;
        return "shape";
      }
    return nullptr;
  }
};
struct Cross {
  double s = 0;
  long n = 0;
  void add(double a, double b) { s += a * b; n++; }
  bool bad(std::string &d, long minn = 200) const {
    if (n < minn) return false;
    char b[128];
    snprintf(b, sizeof b, "n=%ld correlation=%.4g", n, s / n);
    d = b;
    return std::fabs(s / n) > 8 / std::sqrt((double)n);
  }
};

}  // namespace dst
