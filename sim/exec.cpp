#include "track.hpp"
namespace dst {
bool g_fp = false, g_lim = false;
const char *fault_names[] = {
#define X(n) #n,
    DST_FAULTS(X)
#undef X
};
static const char *opn[] = {
#define X(n) #n,
    DST_OPS(X)
#undef X
};
const char *op_name(int k) { return k >= 0 && k < OP_COUNT ? opn[k] : "?"; }
int op_from_name(const std::string &s) {
  for (int i = 0; i < OP_COUNT; i++)
    if (s == opn[i]) return i;
  return -1;
}
struct SutReg {
  int n;
  bool f;
  SutMaker m;
};
static std::vector<SutReg> &regs() {
  static std::vector<SutReg> v;
  return v;
}
void register_sut(int n, bool f, SutMaker m) { regs().push_back({n, f, m}); }
Sut *make_sut(int n, bool f, int poison) {
  for (auto &r : regs())
    if (r.n == n && r.f == f) return r.m(poison);
  return nullptr;
}
bool have_sut(int n, bool f) {
  for (auto &r : regs())
    if (r.n == n && r.f == f) return true;
  return false;
}
static std::vector<PropDef> &pl() {
  static std::vector<PropDef> v;
  return v;
}
const std::vector<PropDef> &props() { return pl(); }
void register_prop(const PropDef &p) { pl().push_back(p); }

Replay rexec(const Hdr &h, const std::vector<Op> &ops, int poison, bool keep) {
  Replay rp;
  Exec e(h, poison, 1);
  e.record = false;
  for (auto op : ops) {
    op.inst = 0;
    op.group = 0;
    e.apply(op);
    rp.hs.push_back(step_hash(e.last[0], e.res));
    if (keep) {
      rp.obs.push_back(e.last[0]);
      rp.res.push_back(e.res);
    }
  }
  rp.hash = e.hash;
  return rp;
}
void rexec_quiet(const Hdr &h, const std::vector<Op> &ops, int poison, Obs &o, Result &last) {
  ref::eps = h.flt ? (double)FLT_EPSILON : DBL_EPSILON;
  std::unique_ptr<Sut> s(make_sut(h.n, h.flt, poison));
  for (auto op : ops) {
    if (h.flt)
      for (double &x : op.a) x = (double)(float)x;
    op.inst = 0;
    last = Result();
    s->apply(op, last);
  }
  s->observe(o);
}
bool obs_equal(const Obs &a, const Obs &b) { return memcmp(&a, &b, sizeof a) == 0; }
std::string obs_diff(const Obs &a, const Obs &b) {
#define FLD(f) {#f, offsetof(Obs, f), sizeof(((Obs *)0)->f)}
  static const struct {
    const char *n;
    size_t o, s;
  } fl[] = {FLD(st.p), FLD(st.q), FLD(st.v), FLD(st.w), FLD(st.a), FLD(st.al), FLD(st.F), FLD(st.T), FLD(st.mw), FLD(st.ma),
            FLD(op), FLD(oq), FLD(ov), FLD(ow), FLD(oa), FLD(gyro), FLD(accel), FLD(gbias), FLD(abias), FLD(gvar), FLD(avar),
            FLD(rmot), FLD(rthr), FLD(rw), FLD(rp), FLD(rv), FLD(ra), FLD(ryaw), FLD(ryr), FLD(act), FLD(ext), FLD(armed),
            FLD(floor_en), FLD(floor_h), FLD(mode), FLD(ymode), FLD(dmot), FLD(dthr), FLD(dw), FLD(da), FLD(dv), FLD(dp),
            FLD(indi), FLD(pos), FLD(traj), FLD(vel), FLD(itorque), FLD(ithrust), FLD(imotor), FLD(iinertia), FLD(imix),
            FLD(acw), FLD(acthr), FLD(acmass), FLD(acg), FLD(ackp), FLD(sf), FLD(sm), FLD(mass), FLD(I), FLD(drag), FLD(aero), FLD(g),
            FLD(qf), FLD(qm), FLD(motor), FLD(mixf), FLD(mixt), FLD(mixi), FLD(mixv), FLD(mix6), FLD(side), FLD(side_ret), FLD(fp)};
  for (auto &f : fl) {
    const char *x = (const char *)&a + f.o, *y = (const char *)&b + f.o;
    if (memcmp(x, y, f.s) == 0) continue;
    for (size_t i = 0; i < f.s; i += 8) {
      double u, v;
      memcpy(&u, x + i, 8);
      memcpy(&v, y + i, 8);
      if (memcmp(&u, &v, 8)) {
        char buf[200];
        snprintf(buf, sizeof buf, "%s[%zu]: %.17g vs %.17g", f.n, i / 8, u, v);
        return buf;
      }
    }
  }
  return "";
}
bool finite_obs(const Obs &o, double lim) {
  if (!finite_state(o.st, lim * 100)) return false;
  for (int i = 0; i < 3; i++) {
    if (!(std::fabs(o.st.p[i]) < lim) || !(std::fabs(o.st.v[i]) < lim) || !(std::fabs(o.st.w[i]) < lim)) return false;
    if (!(std::fabs(o.op[i]) < lim * 10) || !(std::fabs(o.ov[i]) < lim * 10)) return false;
  }
  for (double x : o.act)
    if (!(std::fabs(x) < 1e12)) return false;
  return true;
}
}  // namespace dst
