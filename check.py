#!/usr/bin/env python3
"""Driver of the checks. Builds the simulator from /repo's working tree, runs it, writes the evidence file.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N]
  check.py --replay FILE         re-executes a replay file against the current tree
  check.py --setup               builds the simulator once (warm-up, proves that the tool chain works)

exit 0: the property held on everything explored; 1: VIOLATION; 3: error of the check itself
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
UNIT = {}
for ids, tu in (("P01 P02 P03 P04 P05 P06", "checks_a"), ("P07 P08 P09 P10", "checks_b"), ("P11 P12 P13", "checks_c"),
                ("P14 P15 P16 P17 P18 P19 P20 P21 P22", "checks_d")):
    for i in ids.split():
        UNIT[i] = tu
SUTS = ["sut_d4", "sut_d6", "sut_f4", "sut_f6"]


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(3)


def build(dst, units, preempt=False):
    """Compile in parallel; only the double/4-rotor configuration is indispensable."""
    inc = ["-I/usr/include/eigen3"] + ["-I" + os.path.join(REPO, d) for d in (
        "multirotor_simulator", "multirotor_simulator/imu_simulator", "multirotor_simulator/multirotor_controllers",
        "multirotor_simulator/multirotor_dynamic_model", "pid_controller/include")]
    base = ["alloc", "exec", "ref", "main", "preempt"]

    def one(u):
        flags = ["-O2"]
        if preempt and u in SUTS:
            flags = ["-O1", "-fsanitize=thread"]  # every memory access is a switch point; preempt.cpp is the runtime
        cmd = ["g++", "-std=c++17", "-w"] + flags + inc + ["-c", os.path.join(SIM, u + ".cpp"), "-o", os.path.join(dst, u + ".o")]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode and u in SUTS:  # internal helpers of the library renamed or moved: do without them
            p2 = subprocess.run(cmd + ["-DDST_NO_INTERNAL"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p2.returncode == 0:
                p = p2
        return u, p.returncode, p.stdout

    order = SUTS + units + base
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, order))
    objs, notes = [], []
    for u, rc, out in res:
        if rc == 0:
            objs.append(os.path.join(dst, u + ".o"))
        elif u in SUTS and u != "sut_d4":
            notes.append(u + " does not compile against this tree: that configuration was not explored")
        else:
            fail("%s does not compile:\n%s" % (u, out[-3000:]))
    exe = os.path.join(dst, "sim")
    p = subprocess.run(["g++", "-o", exe] + objs + ["-Wl,--wrap=pthread_mutex_lock", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        fail("link: " + p.stdout[-2000:])
    return exe, notes


def known_findings():
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def prop_text(pid):
    for line in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(line)
        if d["id"] == pid:
            return d
    return {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=max(1, min(16, os.cpu_count() or 8)))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="dst_")
    try:
        if a.setup:
            build(tmp, sorted(set(UNIT.values())))
            print("simulator built in %.1f s" % (time.time() - t0))
            return 0
        if a.replay:
            m = re.search(r"^property (\S+)", open(a.replay).read(), re.M)
            if not m or m.group(1) not in UNIT:
                fail("not a replay file")
            exe, _ = build(tmp, [UNIT[m.group(1)]], m.group(1) == "P15")
            return subprocess.run([exe, "--replay", a.replay]).returncode
        if a.prop not in UNIT:
            fail("unknown property " + str(a.prop))
        exe, notes = build(tmp, [UNIT[a.prop]], a.prop == "P15")
        t1 = time.time()
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        replay = os.path.join(HERE, "replays", "%s-%s-seed%d.txt" % (a.prop, tier, a.seed))
        cmd = [exe, "--prop", a.prop, "--tier", tier, "--seed", str(a.seed), "--workers", str(a.workers), "--out", tmp, "--replay-out", replay]
        if a.runs:
            cmd += ["--runs", str(a.runs)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.stdout:
            print(p.stdout.rstrip())
        if p.returncode not in (0, 1):
            fail("the simulator ended with %d" % p.returncode)
        s = json.load(open(os.path.join(tmp, "summary.json")))
        listed = known_findings()
        unlisted = [k for k in s["known"] if (a.prop, k) not in listed]
        bad = p.returncode == 1
        wall = time.time() - t0
        rw = max(1e-3, s["run_wall_s"])
        ev = {
            "property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": s["runs"], "distinct_nontrivial": s["distinct_runs"], "rule": s["rule"], "samples": s["samples"],
                "oracle_evaluations": s["evaluations"], "oracle_evaluations_nontrivial": s["nontrivial_evaluations"],
                "operations_executed": s["operations"], "exceptions_observed": s["exceptions"],
                "runs_per_hour": round(s["runs"] * 3600 / rw), "seeds_per_hour": round(s["runs"] * 3600 / rw),
                "simulated_seconds": s["simulated_s"], "simulation_wall_s": rw, "build_wall_s": round(t1 - t0, 1),
                "faults_injected": {k: v for k, v in s["faults"].items() if k != "none" and v},
                "operations_by_kind": {k: v for k, v in s["ops"].items() if v},
                "rare_condition_probes": s["probes"], "configurations": s["configurations"],
                "distinct_states": s["distinct_states"],
                "distinct_states_measure": "set bits of a 2^22 hash map over (a) the last four (operation, time step class) pairs and "
                "(b) (mode, yaw mode, armed, floor, under the floor, at rest, outcome, operation)",
                "real_components": "the whole library of /repo (simulator, dynamics, controllers, PID, IMU, odometry, state records), "
                "compiled from the working tree for double/float and 4/6 rotors",
                "stubbed_components": "clients and their link, task timers and clocks, log device (stream buffer), allocator failure points, "
                "operator; reference models are used only as oracles",
            },
            "assumptions": ["one core scheduler decides every interleaving; library calls are atomic except where the property says otherwise"] + notes,
            "wall_s": round(wall, 2), "violations": 1 if bad else 0,
        }
        if preempted(s):
            ev["coverage"]["preempted_operations"] = s["faults"].get("preempt", 0)
        json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
        for k in s["known"]:
            if (a.prop, k) in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, k, listed[(a.prop, k)]))
        for n in notes:
            print("note: " + n)
        if not bad and unlisted:
            bad = True
            with open(replay, "w") as f:
                f.write("# an unlisted finding\nproperty %s\nfinding %s %s\n" % (a.prop, unlisted[0], s["known"][unlisted[0]]))
        print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d oracle evaluations, %.0f simulated s, %.1f s wall" % (
            a.prop, tier, a.seed, s["runs"], s["distinct_runs"], s["evaluations"], s["simulated_s"], wall))
        if bad:
            print("VIOLATION property=%s replay=%s" % (a.prop, replay))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def preempted(s):
    return s["faults"].get("preempt", 0) > 0


if __name__ == "__main__":
    sys.exit(main())
