"""Seeded search over plans: generate, run, confirm, minimise, report."""
import argparse
import copy
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import boot
from .sim import digest

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Zygote:
    def __init__(self, prop, base, slots, hashseed):
        self.base = os.path.join(base, "z%s" % hashseed)
        os.makedirs(self.base, exist_ok=True)
        self.slots = slots
        self.hashseed = hashseed
        env = boot.child_env(hashseed, self.base)
        env["PYTHONPATH"] = VERIF
        self.p = subprocess.Popen(
            [sys.executable, "-m", "dst.zygote", self.base, str(slots), prop],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=VERIF,
            stderr=None if os.environ.get("DST_DEBUG") else subprocess.DEVNULL)
        self.lock = threading.Lock()
        self.wait = {}
        self.inflight = 0
        self.ready = threading.Event()
        self.error = None
        threading.Thread(target=self._reader, daemon=True).start()

    def _reader(self):
        for line in self.p.stdout:
            msg = json.loads(line)
            if msg["id"] == -1:
                self.error = msg.get("error")
                self.ready.set()
                continue
            with self.lock:
                cb = self.wait.pop(msg["id"], None)
                self.inflight -= 1
            if cb:
                cb(msg)
        if not self.ready.is_set():
            self.error = self.error or "zygote ended before it was ready"
            self.ready.set()
        with self.lock:
            cbs = list(self.wait.values())
            self.wait.clear()
        for cb in cbs:
            cb({"error": "zygote ended"})

    def submit(self, rid, plan, prop, timeout, cb):
        with self.lock:
            self.wait[rid] = cb
            self.inflight += 1
        self.p.stdin.write(json.dumps({"id": rid, "prop": prop, "plan": plan,
                                       "timeout": timeout}).encode() + b"\n")
        self.p.stdin.flush()

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()


class Pool:
    """Runs plans on zygotes started under different hash seeds."""

    def __init__(self, prop, hashseeds, workers):
        self.prop = prop
        self.base = tempfile.mkdtemp(prefix="dst-%s-" % prop)
        per = max(1, workers // len(hashseeds))
        self.zs = [Zygote(prop, self.base, per, h) for h in hashseeds]
        self.cv = threading.Condition()
        self.next = 0
        for z in self.zs:
            z.ready.wait(300)
            if z.error:
                raise RuntimeError("cannot import the code under test:\n" + z.error)

    def free(self):
        return [z for z in self.zs if z.inflight < z.slots]

    def submit(self, plan, timeout, cb, z=None):
        with self.cv:
            while True:
                c = [z] if (z is not None and z.inflight < z.slots) else ([] if z is not None else self.free())
                if c:
                    break
                self.cv.wait(1.0)
            c.sort(key=lambda q: q.inflight)
            rid = self.next
            self.next += 1

        def done(msg):
            cb(msg)
            with self.cv:
                self.cv.notify_all()
        c[0].submit(rid, plan, self.prop, timeout, done)

    def run(self, plan, timeout, z=None):
        ev = threading.Event()
        box = {}

        def cb(m):
            box["m"] = m
            ev.set()
        self.submit(plan, timeout, cb, z)
        ev.wait()
        return box["m"]

    def map(self, plans, timeout, z=None):
        """Run several plans concurrently, return their messages in order."""
        out = [None] * len(plans)
        left = [len(plans)]
        ev = threading.Event()
        if not plans:
            return out

        def mk(i):
            def cb(m):
                out[i] = m
                left[0] -= 1
                if left[0] == 0:
                    ev.set()
            return cb
        for i, p in enumerate(plans):
            self.submit(p, timeout, mk(i), z)
        ev.wait()
        return out

    def close(self):
        for z in self.zs:
            z.stop()
        shutil.rmtree(self.base, ignore_errors=True)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    e = json.loads(line)
                    if e.get("status") == "known" and e["property"] == prop:
                        out.append(e)
    return out


def match_known(known, v):
    for e in known:
        if e["oracle"] == v["oracle"] and all(s in v["detail"] for s in e.get("detail_contains", [])):
            return e
    return None


LIST_KEYS = ("faults", "ops", "noise", "sched")


def generic_shrinks(plan):
    for key in LIST_KEYS:
        seq = plan.get(key)
        if not isinstance(seq, list) or not seq:
            continue
        n = len(seq)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                cand = copy.deepcopy(plan)
                cand[key] = seq[:i] + seq[i + size:]
                if len(cand[key]) < n:
                    yield cand
            size //= 2


def minimise(pool, scen, plan, oracle, timeout, budget_s):
    t0 = time.time()
    best = plan
    tried = 0
    improved = True
    seen = {digest(plan)}
    while improved and time.time() - t0 < budget_s:
        improved = False
        cands = []
        for c in list(generic_shrinks(best)) + list(getattr(scen, "shrink", lambda p: [])(best)):
            d = digest(c)
            if d not in seen:
                seen.add(d)
                cands.append(c)
        for i in range(0, len(cands), 8):
            if time.time() - t0 > budget_s:
                break
            batch = cands[i:i + 8]
            res = pool.map(batch, timeout)
            tried += len(batch)
            for c, m in zip(batch, res):
                vs = m.get("outcome", {}).get("violations", [])
                if any(v["oracle"] == oracle for v in vs):
                    best = c
                    improved = True
                    break
            if improved:
                break
    return best, tried


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--shrink", type=float, help="seconds to spend on minimising a violation")
    ap.add_argument("--replay")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--selftest", type=int, default=0,
                    help="run N plans twice, under both hash seeds, and diff the event logs")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    scen = importlib.import_module("dst.scen." + prop.lower())
    if a.replay:
        return replay(prop, scen, a)
    return search(prop, scen, a)


def replay(prop, scen, a):
    with open(a.replay) as f:
        rp = json.load(f)
    pool = Pool(prop, [rp.get("hashseed", 0)], 1)
    try:
        msg = pool.run(rp["plan"], scen.TIMEOUT)
    finally:
        pool.close()
    if "outcome" not in msg:
        print("replay gave no outcome:", msg.get("error", "timeout"))
        return 2
    o = msg["outcome"]
    if a.show:
        print("\n".join(o["trace"]))
    same = o["digest"] == rp.get("digest")
    print("replay digest %s (%s)" % (o["digest"], "identical" if same else "recorded " + str(rp.get("digest"))))
    hit = [v for v in o["violations"] if v["oracle"] == rp["violation"]["oracle"]]
    if hit:
        print("  " + hit[0]["oracle"] + ": " + hit[0]["detail"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
        return 1
    print("the replay did not violate the property")
    return 0


def search(prop, scen, a):
    t_start = time.time()
    tier = "thorough" if a.tier.startswith("t") else "quick"
    cfg = dict(scen.TIERS[tier])
    runs = a.runs or cfg["runs"]
    budget = a.budget or cfg["budget_s"]
    timeout = scen.TIMEOUT
    hashseeds = getattr(scen, "HASHSEEDS", [0])
    print("property %s tier %s seed %d" % (prop, tier, a.seed), flush=True)
    pool = Pool(prop, hashseeds, a.workers)
    t_ready, walls = time.time() - t_start, []
    lock = threading.Lock()
    results = []       # (idx, plan, msg, hashseed)
    errors, timeouts = [], []
    bad = []
    states = {}
    agg = {"faults": {}, "io_ops": 0, "steps": 0, "sim_time": 0.0, "switches": 0}
    counters = {}
    nontriv = set()
    samples = []
    known = load_known(prop)
    known_hits = {}
    done_n = [0]

    def absorb(idx, plan, msg, hs):
        with lock:
            done_n[0] += 1
            walls.append(msg.get("wall", 0))
            if "outcome" not in msg:
                (timeouts if msg.get("timeout") else errors).append((idx, plan, msg))
                return
            o = msg["outcome"]
            st = o["stats"]
            for k, v in st["faults"].items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            for k in ("io_ops", "steps", "sim_time", "switches"):
                agg[k] += st[k]
            for k, v in (o.get("info", {}).get("count") or {}).items():
                counters[k] = counters.get(k, 0) + v
            states[o["state"]] = states.get(o["state"], 0) + 1
            if o["nontrivial"]:
                nontriv.add(o["state"])
                if len(samples) < 4 and (idx % 7 == 0 or not samples):
                    samples.append({"seed": "%d/%d" % (a.seed, idx), "plan": plan,
                                    "trace_head": o["trace"][:12], "digest": o["digest"]})
            for v in o["violations"]:
                e = match_known(known, v)
                if e is not None:
                    known_hits[e["id"]] = known_hits.get(e["id"], 0) + 1
                else:
                    bad.append((idx, plan, v, o, hs))
                    break

    selftest_n = a.selftest or cfg.get("selftest", 6)
    st_runs = {}
    rng0 = random.Random("%s:%d" % (prop, a.seed))
    idx = 0
    fixed = list(getattr(scen, "fixed_plans", lambda tier: [])(tier))
    # a loaded machine gets more time to reach the smallest acceptable number of runs
    least = min(runs, cfg.get("min_runs", 1))
    while idx < runs and (time.time() - t_start < budget or (idx < least and time.time() - t_start < max(300, 2 * budget))) and len(bad) < 3 and len(errors) < 8 and len(timeouts) < 4:
        if idx < len(fixed):
            plan = fixed[idx]
        else:
            rng = random.Random("%s:%d:%d" % (prop, a.seed, idx))
            plan = scen.gen(rng, idx, tier)
        plan.setdefault("id", "%d/%d" % (a.seed, idx))
        z = pool.zs[idx % len(pool.zs)] if len(pool.zs) > 1 else None

        def cb(msg, idx=idx, plan=plan, hs=(z.hashseed if z else hashseeds[0])):
            absorb(idx, plan, msg, hs)
            if idx < selftest_n and "outcome" in msg:
                st_runs[idx] = (plan, msg["outcome"]["digest"], hs)
        pool.submit(plan, timeout, cb, z)
        idx += 1
    while True:
        with lock:
            if done_n[0] >= idx:
                break
        time.sleep(0.02)

    t_search = time.time() - t_start

    # determinism: the same plan again, in another process, under another hash seed
    mism = []
    selft = sorted(st_runs.items())
    again = []
    for i, (plan, dg, hs) in selft:
        other = [z for z in pool.zs if z.hashseed != hs] or pool.zs
        again.append((i, plan, dg, other[0]))
    if again and not bad:
        boxes = {}
        ev = threading.Event()
        cnt = [len(again)]
        for i, plan, dg, z in again:
            def cb2(m, i=i):
                boxes[i] = m
                cnt[0] -= 1
                if cnt[0] == 0:
                    ev.set()
            pool.submit(plan, timeout, cb2, z)
        ev.wait()
        for i, plan, dg, z in again:
            m = boxes[i]
            if m.get("outcome", {}).get("digest") != dg:
                mism.append((i, plan, dg, m))
    if mism and getattr(scen, "DIGEST_MISMATCH_IS_VIOLATION", False):
        for i, plan, dg, m in mism:
            bad.append((i, plan, {"oracle": "same-plan-same-run", "detail":
                                  "the same simulated run gave two event logs (%s vs %s) in two processes with different hash seeds"
                                  % (dg, m.get("outcome", {}).get("digest"))}, m.get("outcome") or {"trace": [], "digest": None, "violations": []}, None))

    reported = []
    unconfirmed = []
    seen_oracle = set()
    for idx_b, plan, v, o, hs in bad:
        if v["oracle"] in seen_oracle:
            continue
        zc = [z for z in pool.zs if z.hashseed == hs] or pool.zs
        if v["oracle"] == "same-plan-same-run":
            reported.append((idx_b, plan, v, o, hs, plan, 0))
            seen_oracle.add(v["oracle"])
            continue
        for _ in range(3):
            m = pool.run(plan, timeout, zc[0])
            vs = m.get("outcome", {}).get("violations", [])
            if any(x["oracle"] == v["oracle"] for x in vs):
                break
        else:
            unconfirmed.append({"plan": plan, "violation": v})
            continue
        seen_oracle.add(v["oracle"])
        small, tried = minimise(pool, scen, plan, v["oracle"], timeout, cfg.get("shrink_s", 45) if a.shrink is None else a.shrink)
        m = pool.run(small, timeout, zc[0])
        mo = m.get("outcome", {})
        hit = [x for x in mo.get("violations", []) if x["oracle"] == v["oracle"]]
        if not hit:
            small, mo, hit = plan, o, [v]
        reported.append((idx_b, small, hit[0], mo, hs, plan, tried))
    pool.close()
    wall = time.time() - t_start
    if os.environ.get("DST_STATS"):
        w_ = sorted(walls)
        print("ready %.1fs search until %.1fs total %.1fs; per run: mean %.2fs median %.2fs max %.2fs sum %.1fs" % (
            t_ready, t_search, wall, sum(w_) / max(1, len(w_)), w_[len(w_) // 2] if w_ else 0, w_[-1] if w_ else 0, sum(w_)))

    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for k, (idx_b, small, v, o, hs, orig, tried) in enumerate(reported):
        path = os.path.join(rdir, "%s-seed%d-run%d.json" % (prop, a.seed, idx_b))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": "%d/%d" % (a.seed, idx_b), "hashseed": hs or 0,
                       "violation": v, "plan": small, "original_plan": orig,
                       "minimiser_runs": tried, "digest": o.get("digest"),
                       "trace": o.get("trace")}, f, indent=1)
        lines.append((v, path))

    for e in known:
        if known_hits.get(e["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
        else:
            print("note: listed finding %s was not met in this run" % e["id"])

    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": done_n[0],
            "distinct_nontrivial": len(nontriv),
            "rule": scen.RULE,
            "samples": samples or [{"note": "no non-trivial run"}],
            "simulated_runs": done_n[0],
            "runs_per_hour": round(done_n[0] / max(wall, 1e-9) * 3600),
            "seeds_per_hour": round(done_n[0] / max(wall, 1e-9) * 3600),
            "simulated_seconds": round(agg["sim_time"], 3),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "io_operations_intercepted": agg["io_ops"],
            "step_points_executed": agg["steps"],
            "thread_switches": agg["switches"],
            "distinct_states": len(states),
            "state_measure": getattr(scen, "STATE_MEASURE", "digest of the run's full event log"),
            "counters": dict(sorted(counters.items())),
            "components_real": scen.REAL,
            "components_stubbed": scen.STUB,
            "determinism_selftest": {"runs_executed_twice": len(again), "mismatches": len(mism),
                                     "hash_seeds": hashseeds},
            "known_findings_hit": known_hits,
            "unconfirmed": len(unconfirmed),
            "timeouts": len(timeouts), "harness_errors": len(errors),
        },
        "assumptions": getattr(scen, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print("runs %d  non-trivial distinct %d  states %d  faults %s  wall %.1fs" % (
        done_n[0], len(nontriv), len(states), dict(sorted(agg["faults"].items())), wall))
    if counters:
        print("counters", dict(sorted(counters.items())))
    if mism:
        print("determinism: %d of %d repeated runs differ" % (len(mism), len(again)))
        if os.environ.get("DST_DEBUG"):
            for i, plan, dg, m in mism[:2]:
                print(json.dumps(plan)[:500], dg, str(m)[:3000])
    for u in unconfirmed:
        print("unconfirmed (did not reproduce):", json.dumps(u)[:600])
    if lines:
        for v, path in lines:
            print("  %s: %s" % (v["oracle"], v["detail"][:700]))
        for v, path in lines:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or timeouts:
        for i, plan, m in (errors + timeouts)[:3]:
            print("run %d gave no answer: %s\nplan %s" % (i, m.get("error", "wall timeout"), json.dumps(plan)[:600]))
        return 2
    if mism:
        return 2 if not unconfirmed else 2
    if done_n[0] < least:
        print("too few runs finished")
        return 2
    return 0
