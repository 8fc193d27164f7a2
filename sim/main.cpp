// Driver: seeded batches over all cores, violation gate (same seed twice, fresh-process replay),
// minimisation, replay files, statistics for the evidence file.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include "track.hpp"

using namespace dst;

namespace {
constexpr int COVBITS = 1 << 22;
struct Shared {
  std::atomic<long> best;           // lowest failing run index
  std::atomic<long> cur[64];        // run in progress per worker
  std::atomic<uint64_t> cov[COVBITS / 64];
};
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
NullBuf g_null;
void silence() {
  std::cout.rdbuf(&g_null);
  std::cerr.rdbuf(&g_null);
  std::clog.rdbuf(&g_null);
}
const PropDef *find_prop(const std::string &id) {
  for (auto &p : props())
    if (id == p.id) return &p;
  return nullptr;
}
uint64_t run_seed(uint64_t vs, const char *id, long i) {
  uint64_t h = fnv(id, strlen(id), 0x243F6A8885A308D3ull ^ vs * 0x9E3779B97F4A7C15ull);
  h ^= (uint64_t)i * 0xD1342543DE82EF95ull;
  return splitmix(h);
}
Hdr run_hdr(const PropDef &p, uint64_t seed) {
  Rng r(seed ^ 0xABCDEF1234567ull);
  Hdr h;
  h.seed = seed;
  bool f = r.p(p.pf.p_float), six = r.p(p.pf.p_n6);
  if (f && have_sut(4, true)) h.flt = true;
  if (six && have_sut(6, h.flt)) h.n = 6;
  return h;
}
void hang(int) { _exit(77); }
void arm_watchdog(int sec) {
  signal(SIGPROF, hang);
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

struct RunOut {
  bool failed = false;
  std::string cls, msg;
  int at = -1;
  uint64_t hash = 0;
  std::vector<Op> ops;
  double simtime = 0;
};
struct Totals {
  uint64_t evals = 0, nontriv = 0, runs = 0, ntruns = 0, ops = 0, excs = 0;
  uint64_t faults[F_COUNT] = {0}, opc[OP_COUNT] = {0};
  uint64_t cfg[4] = {0};
  double simtime = 0;
  std::map<std::string, uint64_t> probes;
  std::map<std::string, std::string> known;
};

RunOut do_run(const PropDef &p, uint64_t seed, Totals *tot, const std::function<void(uint64_t)> &seen,
              const std::function<void(const Op &)> &before = nullptr, uint64_t *nt = nullptr) {
  Hdr h = run_hdr(p, seed);
  std::unique_ptr<Checker> ck(p.mk());
  ck->h = h;
  Exec ex(h, 0xA5, p.instances);
  ex.ck   = ck.get();
  ex.seen = seen;
  ex.before = before;
  ck->begin();
  std::unique_ptr<World> w(p.world(ex, seed, p.pf));
  w->simulate();
  RunOut o;
  o.failed  = ck->failed;
  o.cls     = ck->cls;
  o.msg     = ck->msg;
  o.at      = ck->at;
  o.hash    = ex.hash;
  o.simtime = w->now;
  if (nt) *nt = ck->nontriv;
  if (tot) {
    tot->evals += ck->evals;
    tot->nontriv += ck->nontriv;
    tot->runs++;
    tot->ntruns += ck->nontriv > 0;
    tot->ops += ex.ops.size();
    tot->excs += ex.excs;
    tot->simtime += w->now;
    tot->cfg[(h.flt ? 2 : 0) + (h.n == 6)]++;
    for (int i = 0; i < F_COUNT; i++) tot->faults[i] += ex.faults[i];
    for (int i = 0; i < OP_COUNT; i++) tot->opc[i] += ex.opcount[i];
    for (auto &x : ck->probes) tot->probes[x.first] += x.second;
    for (auto &x : ck->known) tot->known.insert(x);
  }
  o.ops = std::move(ex.ops);
  return o;
}
// run a fixed operation list through the checker
RunOut do_ops(const PropDef &p, const Hdr &h, const std::vector<Op> &ops, std::map<std::string, std::string> *known = nullptr) {
  std::unique_ptr<Checker> ck(p.mk());
  ck->h = h;
  Exec ex(h, 0xA5, p.instances);
  ex.ck = ck.get();
  ck->begin();
  ex.play(ops);
  ex.end();
  RunOut o;
  o.failed = ck->failed;
  o.cls    = ck->cls;
  o.msg    = ck->msg;
  o.at     = ck->at;
  o.hash   = ex.hash;
  if (known) *known = ck->known;
  return o;
}

// ---------------------------------------------------------------- isolated evaluation (crashes, hangs)
struct Verdict {
  bool failed = false;
  std::string cls, msg;
  int at = -1;
};
Verdict isolated(const std::function<RunOut()> &f, int cpu_s = 20) {
  int pfd[2];
  if (pipe(pfd)) _exit(3);
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    close(pfd[0]);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2);
    arm_watchdog(cpu_s);
    RunOut o = f();
    std::ostringstream s;
    s << (o.failed ? 1 : 0) << "\n" << o.cls << "\n" << o.at << "\n" << o.hash << "\n" << o.msg;
    std::string t = s.str();
    size_t k = 0;
    while (k < t.size()) {
      ssize_t w = write(pfd[1], t.data() + k, t.size() - k);
      if (w <= 0) break;
      k += (size_t)w;
    }
    _exit(0);
  }
  close(pfd[1]);
  std::string t;
  char b[4096];
  ssize_t k;
  while ((k = read(pfd[0], b, sizeof b)) > 0) t.append(b, (size_t)k);
  close(pfd[0]);
  int st = 0;
  waitpid(c, &st, 0);
  Verdict v;
  if (WIFSIGNALED(st)) {
    v.failed = true;
    v.cls    = "crash";
    v.msg    = std::string("the library terminated the process: ") + strsignal(WTERMSIG(st));
    return v;
  }
  if (WEXITSTATUS(st) == 77) {
    v.failed = true;
    v.cls    = "hang";
    v.msg    = "the operation did not return within the CPU budget of the run";
    return v;
  }
  std::istringstream s(t);
  std::string l;
  std::getline(s, l);
  v.failed = l == "1";
  std::getline(s, v.cls);
  std::getline(s, l);
  v.at = atoi(l.c_str());
  std::getline(s, l);
  std::getline(s, v.msg, '\0');
  return v;
}

// ---------------------------------------------------------------- replay files
void write_replay(const std::string &path, const PropDef &p, const Hdr &h, const std::vector<Op> &ops, const Verdict &v, uint64_t vs,
                  long idx) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) return;
  fprintf(f, "# minimised schedule and fault trace; replay: /verif/check.py --replay %s\n", path.c_str());
  fprintf(f, "property %s\nprecision %s\nrotors %d\nverif_seed %llu\nrun %ld\nseed %llu\nclass %s\nmessage %s\n", p.id,
          h.flt ? "float" : "double", h.n, (unsigned long long)vs, idx, (unsigned long long)h.seed, v.cls.c_str(), v.msg.c_str());
  for (auto &o : ops) {
    fprintf(f, "op %s inst=%d alloc=%d group=%llu fault=%s t=%a n=%zu", op_name(o.kind), o.inst, o.alloc_fail, (unsigned long long)o.group, fault_names[o.fault], o.t, o.a.size());
    for (double x : o.a) fprintf(f, " %a", x);
    fprintf(f, "\n");
  }
  fclose(f);
}
bool read_replay(const std::string &path, std::string &prop, Hdr &h, std::vector<Op> &ops, std::string &cls) {
  std::ifstream f(path);
  if (!f) return false;
  std::string l;
  while (std::getline(f, l)) {
    std::istringstream s(l);
    std::string k;
    s >> k;
    if (k == "property") s >> prop;
    else if (k == "precision") { std::string x; s >> x; h.flt = x == "float"; }
    else if (k == "rotors") s >> h.n;
    else if (k == "seed") s >> h.seed;
    else if (k == "class") s >> cls;
    else if (k == "op") {
      Op o;
      std::string nm, a, b, g, c, t, n;
      s >> nm >> a >> b >> g >> c >> t >> n;
      o.group = strtoull(g.c_str() + 6, nullptr, 10);
      o.kind = op_from_name(nm);
      o.inst = atoi(a.c_str() + 5);
      o.alloc_fail = atoi(b.c_str() + 6);
      for (int i = 0; i < F_COUNT; i++) if (c == std::string("fault=") + fault_names[i]) o.fault = i;
      o.t = strtod(t.c_str() + 2, nullptr);
      int m = atoi(n.c_str() + 2);
      for (int i = 0; i < m; i++) {
        std::string x;
        s >> x;
        o.a.push_back(strtod(x.c_str(), nullptr));
      }
      if (o.kind < 0) return false;
      ops.push_back(o);
    }
  }
  return !ops.empty();
}

// ---------------------------------------------------------------- minimisation (ddmin, then arguments)
std::vector<Op> minimise(const PropDef &p, const Hdr &h, std::vector<Op> ops, const std::string &cls, double budget_s) {
  auto t0   = std::chrono::steady_clock::now();
  auto left = [&] { return budget_s - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  auto bad  = [&](const std::vector<Op> &o) {
    if (o.empty() || o[0].kind != OP_BOOT) return false;
    Verdict v = isolated([&] { return do_ops(p, h, o); });
    return v.failed && v.cls == cls;
  };
  size_t ch = ops.size() / 2;
  while (ch >= 1 && left() > 0) {
    bool any = false;
    for (size_t i = 1; i < ops.size() && left() > 0;) {
      std::vector<Op> t(ops.begin(), ops.begin() + i);
      t.insert(t.end(), ops.begin() + std::min(ops.size(), i + ch), ops.end());
      if (t.size() < ops.size() && bad(t)) { ops = t; any = true; }
      else i += ch;
    }
    if (!any || ch > ops.size()) ch = ch == 1 && any ? 1 : ch / 2;
  }
  // an earlier BOOT is superseded by a later one
  for (size_t i = 1; i < ops.size() && left() > 0; i++)
    if (ops[i].kind == OP_BOOT) {
      std::vector<Op> t(ops.begin() + i, ops.end());
      if (bad(t)) { ops = t; i = 0; }
    }
  // simpler arguments
  for (auto &o : ops) {
    if (o.a.size() > 60) continue;
    for (size_t j = 0; j < o.a.size() && left() > 0; j++) {
      double keep = o.a[j];
      for (double c : {0.0, 1.0, 0.01, std::round(keep), std::round(keep * 100) / 100}) {
        if (c == keep) break;
        o.a[j] = c;
        if (bad(ops)) break;
        o.a[j] = keep;
      }
    }
  }
  for (auto &o : ops) {
    if (o.fault == F_none || left() <= 0) continue;
    o.t = 0;
  }
  return ops;
}

std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r;
}
std::string brief(const Op &o) {
  std::ostringstream s;
  s.precision(6);
  if (o.inst) s << "#" << o.inst << " ";
  s << op_name(o.kind);
  if (o.group) s << "[interleaved, group " << o.group << "]";
  if (o.alloc_fail) s << "[alloc " << o.alloc_fail << " fails]";
  if (o.fault) s << "{" << fault_names[o.fault] << "}";
  s << "(";
  for (size_t i = 0; i < o.a.size() && i < 9; i++) s << (i ? "," : "") << o.a[i];
  if (o.a.size() > 9) s << ",..." << o.a.size() << " values";
  s << ")@" << o.t;
  return s.str();
}
}  // namespace

int main(int argc, char **argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  silence();
  if (a.count("--replay")) {
    std::string prop, cls;
    Hdr h;
    std::vector<Op> ops;
    if (!read_replay(a["--replay"], prop, h, ops, cls)) { printf("cannot read the replay file\n"); return 3; }
    const PropDef *p = find_prop(prop);
    if (p) g_fp = p->pf.fp, g_lim = p->pf.lim;
    if (!p || !have_sut(h.n, h.flt)) { printf("replay: configuration not available\n"); return 3; }
    Verdict v = isolated([&] { return do_ops(*p, h, ops); });
    if (v.failed) printf("REPRODUCED class=%s at operation %d: %s\n", v.cls.c_str(), v.at, v.msg.c_str());
    else printf("not reproduced\n");
    return v.failed ? 1 : 0;
  }
  const PropDef *p = find_prop(a["--prop"]);
  if (!p) { printf("unknown property\n"); return 3; }
  g_fp = p->pf.fp;
  g_lim = p->pf.lim;
  uint64_t vs = strtoull(a.count("--seed") ? a["--seed"].c_str() : "1", nullptr, 10);
  bool thorough = a["--tier"] == "thorough";
  long runs = a.count("--runs") ? atol(a["--runs"].c_str()) : (thorough ? p->thorough : p->quick);
  int W = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;
  if (W > 60) W = 60;
  std::string out = a.count("--out") ? a["--out"] : ".";

  if (a.count("--hashes")) {  // determinism proof: print the hash of every run
    for (long i = 0; i < runs; i++) {
      RunOut o = do_run(*p, run_seed(vs, p->id, i), nullptr, nullptr);
      printf("%ld %016llx %zu\n", i, (unsigned long long)o.hash, o.ops.size());
    }
    return 0;
  }
  if (a.count("--show")) {
    long i = atol(a["--show"].c_str());
    RunOut o = do_run(*p, run_seed(vs, p->id, i), nullptr, nullptr);
    for (auto &x : o.ops) printf("%s\n", brief(x).c_str());
    printf("%s %s %s\n", o.failed ? "FAILED" : "ok", o.cls.c_str(), o.msg.c_str());
    return 0;
  }

  auto T0 = std::chrono::steady_clock::now();
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t *hashes = (uint64_t *)mmap(nullptr, sizeof(uint64_t) * (size_t)std::max(1L, runs), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->best = runs;
  std::vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    sh->cur[w] = -1;
    pid_t c = fork();
    if (c == 0) {
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 2);
      Totals tot;
      auto seen = [&](uint64_t g) {
        uint64_t x = g;
        uint64_t k = splitmix(x) % COVBITS;
        uint64_t bit = 1ull << (k & 63);
        if (!(sh->cov[k >> 6].load(std::memory_order_relaxed) & bit)) sh->cov[k >> 6].fetch_or(bit);
      };
      for (long i = w; i < runs; i += W) {
        if (i > sh->best.load()) break;
        sh->cur[w] = i;
        arm_watchdog(thorough ? 60 : 20);
        uint64_t nt = 0;
        RunOut o = do_run(*p, run_seed(vs, p->id, i), &tot, seen, nullptr, &nt);
        hashes[i] = nt ? (o.hash | 1) : 0;
        if (o.failed) {
          long b = sh->best.load();
          while (i < b && !sh->best.compare_exchange_weak(b, i)) {}
          break;
        }
      }
      sh->cur[w] = -1;
      std::ofstream f(out + "/w" + std::to_string(w));
      f << "T evals " << tot.evals << "\nT nontriv " << tot.nontriv << "\nT runs " << tot.runs << "\nT ntruns " << tot.ntruns << "\nT ops "
        << tot.ops << "\nT excs " << tot.excs << "\n";
      f.precision(17);
      f << "S " << tot.simtime << "\n";
      for (int i = 0; i < F_COUNT; i++) f << "F " << fault_names[i] << " " << tot.faults[i] << "\n";
      for (int i = 0; i < OP_COUNT; i++) f << "O " << op_name(i) << " " << tot.opc[i] << "\n";
      for (int i = 0; i < 4; i++) f << "C " << i << " " << tot.cfg[i] << "\n";
      for (auto &x : tot.probes) f << "P " << x.second << " " << x.first << "\n";
      for (auto &x : tot.known) f << "K " << x.first << " " << esc(x.second) << "\n";
      f.close();
      _exit(0);
    }
    pids.push_back(c);
  }
  for (int w = 0; w < W; w++) {
    int st = 0;
    waitpid(pids[w], &st, 0);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { printf("worker killed\n"); return 3; }
      long i = sh->cur[w];
      if (i < 0) { printf("worker died outside a run\n"); return 3; }
      long b = sh->best.load();
      while (i < b && !sh->best.compare_exchange_weak(b, i)) {}
    }
  }
  double run_wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();

  // merge
  std::map<std::string, uint64_t> T, F, O, P, C;
  std::map<std::string, std::string> K;
  double sim = 0;
  for (int w = 0; w < W; w++) {
    std::ifstream f(out + "/w" + std::to_string(w));
    std::string l;
    while (std::getline(f, l)) {
      std::istringstream s(l);
      std::string k, n;
      s >> k;
      if (k == "T") { uint64_t v; s >> n >> v; T[n] += v; }
      if (k == "S") { double v; s >> v; sim += v; }
      if (k == "F") { uint64_t v; s >> n >> v; F[n] += v; }
      if (k == "O") { uint64_t v; s >> n >> v; O[n] += v; }
      if (k == "C") { uint64_t v; s >> n >> v; C[n] += v; }
      if (k == "P") { uint64_t v; s >> v; std::getline(s, n); P[n.substr(1)] += v; }
      if (k == "K") { s >> n; std::string d; std::getline(s, d); K.insert({n, d.empty() ? d : d.substr(1)}); }
    }
    unlink((out + "/w" + std::to_string(w)).c_str());
  }
  uint64_t cov = 0;
  for (auto &x : sh->cov) cov += (uint64_t)__builtin_popcountll(x.load());
  std::set<uint64_t> dh;
  for (long i = 0; i < runs; i++) if (hashes[i]) dh.insert(hashes[i]);

  long bi = sh->best.load();
  int rc = 0;
  std::string replay, vcls, vmsg;
  if (bi < runs) {
    uint64_t seed = run_seed(vs, p->id, bi);
    Hdr h = run_hdr(*p, seed);
    // regenerate the failing run in a child that streams its operations, so that a crash keeps them
    std::string tr = out + "/trace";
    auto gen = [&](const std::string &path) {
      return isolated([&, path] {
        FILE *f = fopen(path.c_str(), "w");
        auto before = [&](const Op &o) {
          fprintf(f, "op %s inst=%d alloc=%d group=%llu fault=%s t=%a n=%zu", op_name(o.kind), o.inst, o.alloc_fail, (unsigned long long)o.group, fault_names[o.fault], o.t, o.a.size());
          for (double x : o.a) fprintf(f, " %a", x);
          fprintf(f, "\n");
          fflush(f);
        };
        RunOut o = do_run(*p, seed, nullptr, nullptr, before);
        fclose(f);
        return o;
      }, 60);
    };
    // gate: the seed has to fail twice in the same way. Code that is itself not repeatable (uninitialised
    // memory, a hidden clock) may need several attempts; that is stated in the report.
    Verdict v1, v0;
    std::string pr, cl;
    Hdr hh;
    std::vector<Op> ops;
    int same_fails = 0, tries = 0;
    bool identical = true;
    std::string s1, m1;
    for (; tries < 8 && same_fails < 2; tries++) {
      Verdict v = gen(tr + "x");
      if (!v.failed) { identical = false; continue; }
      std::ifstream f(tr + "x");
      std::string t((std::istreambuf_iterator<char>(f)), {});
      if (same_fails == 0) {
        v1 = v;
        s1 = t;
        m1 = v.msg;
        same_fails = 1;
        rename((tr + "x").c_str(), (tr + "1").c_str());
      } else if (v.cls == v1.cls) {
        same_fails = 2;
        if (t != s1 || v.msg != m1) identical = false;
      } else identical = false;
    }
    unlink((tr + "x").c_str());
    bool unrepeatable = same_fails == 0;
    if (unrepeatable && strcmp(p->id, "P14") != 0) {
      printf("GATE: seed %llu failed once in a worker and not again in %d attempts\n", (unsigned long long)seed, tries);
      return 3;
    }
    if (unrepeatable) {  // the same seed, not the same outcome: exactly what P14 forbids
      gen(tr + "1");
      v1.failed = true;
      v1.cls = "nondeterminism";
      v1.msg = "the same seed failed in one process and not in another one";
    }
    read_replay(tr + "1", pr, hh, ops, cl);
    unlink((tr + "1").c_str());
    if (ops.empty()) { printf("GATE: no trace\n"); return 3; }
    if (!unrepeatable) {
      for (int k = 0; k < 8 && !(v0.failed && v0.cls == v1.cls); k++) v0 = isolated([&] { return do_ops(*p, h, ops); });
      if (!v0.failed || v0.cls != v1.cls) {
        printf("GATE: the recorded trace does not reproduce the violation (%s: %s)\n", v1.cls.c_str(), v1.msg.c_str());
        if (strcmp(p->id, "P14") != 0) return 3;
        unrepeatable = true;
      }
    }
    if (!identical) printf("note: the code under test is not repeatable: executions of one seed differ\n");
    size_t full = ops.size();
    Verdict v = v1;
    if (!unrepeatable) {
      std::vector<Op> m = minimise(*p, h, ops, v1.cls, 25);
      v.failed = false;
      for (int k = 0; k < 8 && !v.failed; k++) v = isolated([&] { return do_ops(*p, h, m); });
      if (v.failed) ops = m;
      else v = v1;
    }
    replay = a.count("--replay-out") ? a["--replay-out"] : out + "/replay.txt";
    write_replay(replay, *p, h, ops, v, vs, bi);
    vcls = v.cls;
    vmsg = v.msg;
    // fresh process
    bool fresh = false;
    for (int k = 0; k < 8 && !fresh; k++) {
      fflush(stdout);
      pid_t c = fork();
      if (c == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        execl("/proc/self/exe", "sim", "--replay", replay.c_str(), (char *)nullptr);
        _exit(9);
      }
      int st;
      waitpid(c, &st, 0);
      fresh = WIFEXITED(st) && WEXITSTATUS(st) == 1;
      if (!fresh) identical = false;
    }
    if (!fresh && strcmp(p->id, "P14") != 0) {
      printf("GATE: a fresh process does not reproduce %s\n", replay.c_str());
      return 3;
    }
    printf("violation class=%s run=%ld seed=%llu operations=%zu (minimised from %zu): %s\n", vcls.c_str(), bi, (unsigned long long)seed,
           ops.size(), full, vmsg.c_str());
    for (auto &o : ops) printf("  %s\n", brief(o).c_str());
    rc = 1;
  }
  // one sample written out
  RunOut smp = bi < runs ? RunOut() : do_run(*p, run_seed(vs, p->id, 0), nullptr, nullptr);
  std::ofstream f(out + "/summary.json");
  f.precision(12);
  f << "{\"property\":\"" << p->id << "\",\"evaluations\":" << T["evals"] << ",\"nontrivial_evaluations\":" << T["nontriv"]
    << ",\"runs\":" << T["runs"] << ",\"nontrivial_runs\":" << T["ntruns"] << ",\"distinct_runs\":" << dh.size() << ",\"operations\":" << T["ops"]
    << ",\"exceptions\":" << T["excs"] << ",\"simulated_s\":" << sim << ",\"run_wall_s\":" << run_wall << ",\"distinct_states\":" << cov
    << ",\"workers\":" << W << ",\"rule\":\"" << esc(p->rule) << "\"";
  auto dump = [&](const char *n, std::map<std::string, uint64_t> &m) {
    f << ",\"" << n << "\":{";
    bool first = true;
    for (auto &x : m) {
      f << (first ? "" : ",") << "\"" << esc(x.first) << "\":" << x.second;
      first = false;
    }
    f << "}";
  };
  dump("faults", F);
  dump("ops", O);
  dump("probes", P);
  std::map<std::string, uint64_t> CC = {{"double/4", C["0"]}, {"double/6", C["1"]}, {"float/4", C["2"]}, {"float/6", C["3"]}};
  dump("configurations", CC);
  f << ",\"known\":{";
  bool first = true;
  for (auto &x : K) {
    f << (first ? "" : ",") << "\"" << esc(x.first) << "\":\"" << esc(x.second) << "\"";
    first = false;
  }
  f << "},\"samples\":[{\"seed\":" << run_seed(vs, p->id, 0) << ",\"operations\":[";
  for (size_t i = 0; i < smp.ops.size() && i < 40; i++) f << (i ? "," : "") << "\"" << esc(brief(smp.ops[i])) << "\"";
  f << "],\"of\":" << smp.ops.size() << "}]";
  f << ",\"violation\":" << (rc ? 1 : 0) << ",\"class\":\"" << esc(vcls) << "\",\"message\":\"" << esc(vmsg) << "\",\"replay\":\"" << esc(replay) << "\"}\n";
  f.close();
  return rc;
}
