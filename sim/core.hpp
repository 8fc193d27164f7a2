// Core vocabulary of the simulator: PRNG, plain-double configuration and observation records,
// operations (one operation = one atomic step of the simulated node) and the SUT interface.
// Nothing in here includes the library under test.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace dst {

constexpr int MAXN = 6;
constexpr int PD = 6;  // most axes of a PID controller (those of the cascade have 3, the stand-alone ones 1, 2, 3 and 6)

// ---------------------------------------------------------------- PRNG (splitmix64 / xoshiro256**)
inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) {
    for (auto &x : s) x = splitmix(seed);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  double u() { return (next() >> 11) * 0x1.0p-53; }
  double u(double a, double b) { return a + (b - a) * u(); }
  double logu(double a, double b) { return a * std::pow(b / a, u()); }
  int i(int n) { return (int)(next() % (uint64_t)n); }
  bool p(double q) { return u() < q; }
  double sgn() { return (next() & 1) ? 1.0 : -1.0; }
  double normal() {
    double a = u(), b = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  double expo(double mean) { return -mean * std::log(1.0 - u()); }
};
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint64_t *w = (const uint64_t *)p;
  for (size_t i = 0; i < n / 8; i++) {
    uint64_t x;
    memcpy(&x, w + i, 8);
    h = (h ^ x) * 1099511628211ull;
    h ^= h >> 29;
  }
  const unsigned char *b = (const unsigned char *)p + (n / 8) * 8;
  for (size_t i = 0; i < n % 8; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

// ---------------------------------------------------------------- configuration (doubles only)
struct MotorCfg {
  double dir, kt, kq, px, py, pz, qw, qx, qy, qz, wmin, wmax, tc, J;
};
struct ModelCfg {
  double layout;  // 0 custom (motor[]), 1 quad X, 2 quad +, 3 hexa (factory functions of the library)
  double lkt, lkq, lx, ly, lmin, lmax, ltc, lJ;  // arguments of the factory
  MotorCfg motor[MAXN];
  double mass, I[9], drag, aero[9], g[3], qf, qm;
};
struct StateCfg {
  double p[3], q[4] /*w x y z*/, v[3], w[3], a[3], al[3], F[3], T[3], mw[MAXN], ma[MAXN];
};
struct DynCfg {
  ModelCfg model;
  StateCfg st;
  double seed;
};
struct PidCfg {
  double kp[PD], ki[PD], kd[PD], aw[PD], alpha[PD], reset, prop, up[PD], lo[PD];
};
struct CtrlCfg {
  double amass, kprot[9], ag[3];
  double inertia[9], mixmode /*0 explicit, 1 library inverse of library mixer (N=4)*/, mix[MAXN * 6];
  PidCfg indi, pos, traj, vel;
};
struct ImuCfg {
  double gv, av, gb, ab, q[4], seed;
};
struct OdomCfg {
  double alpha, q[4];
};
struct SimCfg {
  DynCfg dyn;
  CtrlCfg ctrl;
  ImuCfg imu;
  OdomCfg odom;
};

// ---------------------------------------------------------------- observation (doubles only)
struct PidObs {
  double perr[PD], derr[PD], pc[PD], ic[PD], dc[PD], out[PD];
  double satflag;
  PidCfg par;
  double rlim[2 * PD];  // the stored limits, also while saturation is off (only when the property asks for them)
};
struct Obs {
  // ground truth
  StateCfg st;
  // odometry and IMU
  double op[3], oq[4], ov[3], ow[3], oa[3];
  double gyro[3], accel[3], gbias[3], abias[3], gvar, avar;
  // simulator registers
  double rmot[MAXN], rthr, rw[3], rp[3], rv[3], ra[3], ryaw, ryr;
  double act[MAXN], ext[3];
  double armed, floor_en, floor_h, mode, ymode;
  // controller
  double dmot[MAXN], dthr, dw[3], da[3], dv[3], dp[3];
  PidObs indi, pos, traj, vel;
  double itorque[3], ithrust[3], imotor[MAXN], iinertia[9], imix[MAXN * 6];
  double acw[3], acthr, acmass, acg[3], ackp[9];
  // model
  double sf[3], sm[3], mass, I[9], drag, aero[9], g[3], qf, qm;
  MotorCfg motor[MAXN];
  double mixf[3 * MAXN], mixt[3 * MAXN], mixi[3 * MAXN], mixv[MAXN], mix6[6 * MAXN];
  // side PIDs
  PidObs side[4];  // 0: three axes, 1: the one-axis class, 2: six axes, 3: two axes
  double side_ret[4][PD];
  // fingerprints of what cannot be read: hash of the near future of copies of the dynamics, the controller, the IMU, the
  // odometry, the whole vehicle and the position, trajectory, velocity and rate PIDs under fixed inputs (only when the
  // property asks for them)
  double fp[9];
};
extern bool g_fp, g_lim;
static_assert(sizeof(Obs) % 8 == 0, "doubles only");

// ---------------------------------------------------------------- operations
#define DST_OPS(X)                                                                                 \
  X(BOOT) X(ARM) X(DISARM) X(FLOOR_ON) X(FLOOR_OFF) X(MODE) X(REF_MOTORS) X(REF_ACRO) X(REF_TRAJ)  \
  X(REF_VEL) X(REF_POS) X(REF_YAW) X(REF_YAWRATE) X(DYN) X(CTRL) X(IMU) X(ODOM) X(DYN_DIRECT)      \
  X(IMU_DIRECT) X(ODOM_DIRECT) X(TELEPORT) X(MODEL_PARAMS) X(SET_DYN) X(SET_CTRL) X(SET_IMU)       \
  X(SET_ODOM) X(CTRL_PARAMS) X(CTRL_PART) X(CTRL_RESET) X(IMU_SEED) X(IMU_VAR) X(IMU_CORR)         \
  X(IMU_BIAS) X(IMU_ORI) X(IMU_RESET) X(ODOM_RESET) X(ODOM_INIT) X(READ) X(LOG) X(SNAP) X(RESTORE) \
  X(PERSIST) X(PID_NEW) X(PID_RUN) X(PID_RUND) X(PID_PARAMS) X(PID_SAT) X(PID_NOSAT) X(PID_RESET)  \
  X(PID_SET) X(MODEL_SWAP) X(TWIN) X(REWRITE) X(NOTE)
enum OpKind : int {
#define X(n) OP_##n,
  DST_OPS(X)
#undef X
      OP_COUNT
};
const char *op_name(int k);
int op_from_name(const std::string &s);

struct Op {
  int kind = 0;
  int inst = 0;       // instance of the simulated node the operation is delivered to
  int alloc_fail = 0; // k > 0: the k-th allocation inside the operation fails
  uint64_t group = 0; // != 0: runs interleaved with the neighbouring operations of the same group (schedule seed)
  int fault = 0;      // fault kind that caused this operation (for statistics only)
  double t = 0;       // simulated time (for the trace only)
  std::vector<double> a;
};
template <class T>
std::vector<double> flat(const T &x) {
  static_assert(sizeof(T) % 8 == 0, "");
  std::vector<double> v(sizeof(T) / 8);
  memcpy(v.data(), &x, sizeof(T));
  return v;
}
template <class T>
T unflat(const std::vector<double> &v, size_t off = 0) {
  T x;
  memset(&x, 0, sizeof x);
  size_t n = sizeof(T) / 8;
  if (off < v.size()) memcpy(&x, v.data() + off, 8 * std::min(n, v.size() - off));
  return x;
}

enum Exc { EX_NONE = 0, EX_INVALID_ARG = 1, EX_BAD_ALLOC = 2, EX_OTHER = 3 };
struct Result {
  int exc = EX_NONE;
  std::string what;
  std::string out;      // bytes that reached the (simulated) log device
  std::string out_ref;  // what the same write produces on a healthy device
  bool stream_ok = true;
  int allocs = 0;       // allocations made inside the operation
  bool views_ok = true; // READ: every overload of every getter agrees
  std::string views_bad;
  std::vector<double> extra;
};

struct Sut {
  virtual ~Sut() {}
  virtual int n() const                          = 0;
  virtual bool flt() const                       = 0;
  virtual void apply(const Op &op, Result &r)    = 0;
  virtual void observe(Obs &o) const             = 0;
};
// poison: byte pattern of the memory the library objects are built in
using SutMaker = Sut *(*)(int poison);
Sut *make_sut(int n, bool flt, int poison);  // null if that configuration is not in this build
bool have_sut(int n, bool flt);
void register_sut(int n, bool flt, SutMaker m);

// allocation seam (operator new of the process, defined in alloc.cpp)
extern thread_local long g_alloc_count;
extern thread_local long g_alloc_fail_at;  // 0: never

}  // namespace dst
