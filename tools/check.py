#!/usr/bin/env python3
"""Decides one property by seeded simulation: check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, runs the seeds of this tier on all cores, and judges:
every failing seed is re-run twice in fresh processes (same class, same event-log hash: otherwise it is not
reported), its plan is minimised, and the minimised plan is written as a replay file.
  exit 0: the property held in every simulated run     exit 1: VIOLATION property=<id> replay=<path>
  exit 2: the simulator could not be built or run (no verdict)
check.py --replay FILE: replays a file written by this program.
"""
import collections, json, os, re, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B          # noqa: E402
from props import PROPS    # noqa: E402

NW = max(1, min(8, os.cpu_count() or 1))
FAIL = os.path.join(VERIF, "failures")


def simenv(tier):
    env = dict(os.environ)
    env.setdefault("SIM_LIMIT", "20")
    if tier == "thorough":
        env["SIM_THOROUGH"] = "1"
    env["VERIF_REPO_DIR"] = B.REPO
    return env


class Sweep:
    """Runs seeds of one scenario on NW worker processes"""

    def __init__(self, exe, scenario, first, count, budget, env):
        self.res, self.crashed, self.lock = [], [], threading.Lock()
        self.stop = False
        self.nviol = 0
        self.procs = []
        threads = []
        for i in range(NW):
            n = (count - i + NW - 1) // NW
            if n <= 0:
                continue
            p = subprocess.Popen([exe, "run", scenario, str(first + i), str(n), str(NW), str(budget)], env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
            self.procs.append(p)
            t = threading.Thread(target=self.read, args=(p, first + i))
            t.start()
            threads.append(t)
        deadline = time.time() + budget + 60
        for t in threads:
            t.join(max(0.1, deadline - time.time()))
        self.kill()
        for t in threads:
            t.join(5)

    def kill(self):
        self.stop = True
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    def read(self, p, first):
        n = 0
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            n += 1
            with self.lock:
                self.res.append(d)
                if d["status"] == "violation":
                    self.nviol += 1
                    if self.nviol >= 24 and not self.stop:
                        self.kill()
        p.wait()
        if n == 0 and not self.stop and p.returncode != 0:
            with self.lock:
                self.crashed.append((first, p.returncode))


def replay_many(exe, plans, env, timeout=300):
    """Runs plans (text) in one fresh process; returns one result (or None) for each"""
    with tempfile.TemporaryDirectory(prefix="sim") as d:
        fs = []
        for i, t in enumerate(plans):
            f = os.path.join(d, f"{i}.plan")
            open(f, "w").write(t)
            fs.append(f)
        try:
            r = subprocess.run([exe, "replay"] + fs, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired:
            return [None] * len(plans)
        out = []
        for l in r.stdout.decode(errors="replace").splitlines():
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
        if not out and r.returncode != 0:
            return [{"status": "violation", "class": "setup-failed", "what": "loading the robot models failed (exit status %d)" % r.returncode,
                     "hash": "0"}] * len(plans)
        return out + [None] * (len(plans) - len(out))


def split(plan):
    head = [l for l in plan.splitlines() if not l.startswith("event ") and l.strip()]
    ev = [l for l in plan.splitlines() if l.startswith("event ")]
    return head, ev


def join(head, ev):
    return "\n".join(head + ev) + "\n"


def minimise(exe, plan, cls, env, budget=40.):
    """ddmin over the events, then over the faults; a smaller plan must fail with the same class"""
    head, ev = split(plan)
    t0 = time.time()

    def fails(cands):
        for c, r in zip(cands, replay_many(exe, [join(head, c) for c in cands], env, timeout=60)):
            if r and r["status"] == "violation" and r["class"] == cls:
                return c
        return None
    n = 2
    while len(ev) >= 2 and time.time() - t0 < budget:
        size = max(1, len(ev) // n)
        chunks = [ev[i:i + size] for i in range(0, len(ev), size)]
        cands = [[e for j, c in enumerate(chunks) if j != i for e in c] for i in range(len(chunks))]
        got = None
        for k in range(0, len(cands), 16):
            got = fails(cands[k:k + 16])
            if got is not None or time.time() - t0 > budget:
                break
        if got is not None:
            ev = got
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ev), n * 2)
    for i in range(len(ev)):
        if time.time() - t0 > budget:
            break
        f = ev[i].split()
        if len(f) == 4 and f[3] != "-":
            c = ev[:i] + [" ".join(f[:3] + ["-"])] + ev[i + 1:]
            if fails([c]) is not None:
                ev = c
    return join(head, ev)


def known_findings():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("status") == "known":
                    out.append(d)
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay_cli(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    exes = sorted({s["exe"] for s in spec["scenarios"]})
    if B.build(exes) != 0:
        print(f"check {prop}: the simulator does not build against /repo")
        return 2
    t_build = time.time() - t0
    env = simenv(tier)
    cov = {"runs": 0}
    faults, counters = collections.Counter(), collections.Counter()
    states, scheds, hashes = set(), set(), set()
    checks = steps = skipped = evaluations = nontrivial = 0
    sim_time = 0.
    samples, viols, known_hits = [], [], {}
    kf = [k for k in known_findings() if k["property"] == prop]
    per = {}
    t_run = 0.
    for s in spec["scenarios"]:
        exe = os.path.join(B.BUILD, s["exe"])
        count = s[tier]
        budget = s.get("budget_" + tier, 150 if tier == "quick" else 3000)
        first = (seed % 100000) * 10000000 + 1
        t1 = time.time()
        sw = Sweep(exe, s["name"], first, count, budget, env)
        dt = time.time() - t1
        t_run += dt
        if not sw.res and not sw.crashed:
            print(f"check {prop}: scenario {s['name']} gave no result")
            return 2
        for f, rc in sw.crashed[:1]:
            viols.append((s, exe, {"seed": f, "class": "setup-failed", "what": f"worker ended with status {rc}", "hash": "0"}))
        for d in sorted(sw.res, key=lambda d: d["seed"]):
            evaluations += 1
            if d["status"] == "skip":
                skipped += 1
                continue
            checks += d["checks"]
            steps += d["steps"]
            sim_time += d["sim_time"]
            faults.update(d["faults"])
            counters.update(d["counters"])
            states |= {s["name"] + x for x in d["states"]}
            scheds.add(s["name"] + d["sched"])
            if d["status"] == "ok":
                if d["hash"] not in hashes and d["checks"] > 0:
                    nontrivial += 1
                hashes.add(d["hash"])
                if len(samples) < 3:
                    samples.append({k: d[k] for k in ("seed", "events", "steps", "checks", "faults", "counters", "hash")} | {"scenario": s["name"]})
            else:
                viols.append((s, exe, d))
        per[s["name"]] = {"runs": len(sw.res), "wall_s": round(dt, 1), "runs_per_hour": int(3600 * len(sw.res) / max(dt, 1e-3))}

    # determinism of the simulator itself: some passing seeds again, in fresh processes
    redo = mism = 0
    for s in spec["scenarios"]:
        exe = os.path.join(B.BUILD, s["exe"])
        mine = [x for x in samples if x["scenario"] == s["name"]][:2]
        for x in mine:
            p = subprocess.run([exe, "plan", s["name"], str(x["seed"])], env=env, stdout=subprocess.PIPE, text=True)
            r = replay_many(exe, [p.stdout], env)[0]
            redo += 1
            if not r or r["hash"] != x["hash"]:
                mism += 1

    # violations: group by class, confirm, minimise
    reported, unrepro = [], []
    bycls = collections.OrderedDict()
    listed = lambda scn, d: [k for k in kf if k["scenario"] == scn and k["class"] == d["class"] and re.search(k["match"], d["what"])]
    for v in viols:
        hit = listed(v[0]["name"], v[2])
        if hit:
            known_hits[hit[0]["id"]] = hit[0]
            continue
        bycls.setdefault((v[0]["name"], v[2]["class"]), []).append(v)
    for (scn, cls), vs in list(bycls.items())[:6]:
        for s, exe, d in sorted(vs, key=lambda v: v[2].get("events", 0))[:3]:
            p = subprocess.run([exe, "plan", s["name"], str(d["seed"])], env=env, stdout=subprocess.PIPE, text=True)
            a, b = replay_many(exe, [p.stdout], env)[0], replay_many(exe, [p.stdout], env)[0]
            same = a and b and a["status"] == b["status"] == "violation" and a["class"] == b["class"] == cls and a["hash"] == b["hash"]
            if not same:
                unrepro.append({"scenario": scn, "seed": d["seed"], "class": cls, "what": d["what"]})
                continue
            small = minimise(exe, p.stdout, cls, env) if not os.environ.get("SIM_NO_MIN") else p.stdout
            r = replay_many(exe, [small], env)[0]
            if not r or r["status"] != "violation":
                small, r = p.stdout, a
            os.makedirs(FAIL, exist_ok=True)
            path = os.path.join(FAIL, f"{prop}-{scn}-{cls}-{d['seed']}.plan".replace("/", "_").replace(" ", "_"))
            with open(path, "w") as f:
                f.write(f"# property {prop}\n# class {cls}\n# what {r['what']}\n# hash {r['hash']}\n# exe {s['exe']}\n"
                        f"# replay: python3 {HERE}/check.py --replay {path}\n" + small)
            reported.append((path, scn, cls, d["seed"], r["what"], len(split(small)[1]), d.get("events", 0)))
            break
        if len(reported) >= 2:
            break

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": nontrivial,
            "rule": "one evaluation is one seeded simulated run (plan of events and faults drawn from the seed); it counts as "
                    "distinct and non-trivial when at least one oracle was evaluated in it and its event-log hash differs from "
                    "every other run's. " + spec.get("rule", ""),
            "samples": samples,
            "oracle_checks": checks, "simulated_steps": steps, "simulated_time_s": round(sim_time, 3),
            "faults_fired": dict(faults), "reach_counters": dict(counters),
            "distinct_abstract_states": len(states), "distinct_schedules": len(scheds),
            "state_measure": spec.get("measure", "hash of the abstract state the scenario reports after each event"),
            "scenarios": per, "runs_per_hour": int(3600 * evaluations / max(t_run, 1e-3)),
            "runs_abandoned_in_eiquadprog": skipped,
            "determinism_reruns": redo, "determinism_mismatches": mism,
            "real_components": spec.get("real", []), "stubbed_components": spec.get("stub", []),
            "build_s": round(t_build, 1), "unreproducible_alarms": unrepro,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in known_hits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in unrepro:
        print(f"note: seed {u['seed']} of {u['scenario']} did not reproduce ({u['class']}), not reported")
    print(f"{prop} {tier}: {evaluations} runs, {checks} oracle checks, {sum(faults.values())} faults fired, "
          f"{len(states)} abstract states, {time.time() - t0:.1f} s (build {t_build:.1f} s)")
    for path, scn, cls, sd, what, n, m in reported:
        print(f"  {scn} seed {sd}: {cls}: {what} ({n} of {m} events after minimisation)")
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if reported else 0


def replay_cli(path):
    txt = open(path).read()
    meta = dict(re.findall(r"^# (\w+) (.*)$", txt, re.M))
    if B.build([meta["exe"]]) != 0:
        return 2
    exe = os.path.join(B.BUILD, meta["exe"])
    r = replay_many(exe, [txt], simenv("quick"))[0]
    print(json.dumps(r))
    if not r or r["status"] != "violation":
        print("the violation does not occur on this tree")
        return 0
    print("identical" if r["hash"] == meta.get("hash") else "same plan, different event log")
    print(f"VIOLATION property={meta['property']} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
