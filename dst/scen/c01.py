"""C01: a seeded search repeats exactly, whatever the process did before."""
import random

from .. import boot, work
from ..sim import canon

MODULES = boot.BASE_MODULES
TIMEOUT = 240
HASHSEEDS = [0, 4242]
DIGEST_MISMATCH_IS_VIOLATION = True
TIERS = {"quick": {"runs": 260, "budget_s": 40, "selftest": 40, "min_runs": 40},
         "thorough": {"runs": 20000, "budget_s": 1500, "selftest": 400, "min_runs": 200}}
RULE = ("one run = one estimator, data set, configuration and seed, executed in two simulated processes: "
        "a fresh one, and one whose history (other fits, failed and interrupted fits, perturbed random "
        "generators, jumping clock, leftover files, worker thread, other string-hash seed) is drawn from "
        "the run's seed; non-trivial = at least one such history event preceded a fit that returned a result")
REAL = ["KD_SGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression", "KD_DLGA",
        "PDEDataset", "torch, numpy, scipy, scikit-learn, numba"]
STUB = ["clock (virtual)", "TensorBoard writer (no-op)"]
ASSUMPTIONS = ["numeric libraries run with one thread", "the neural models are trained for few steps",
               "DLGA has no seed of its own: both executions start it from equal generator states"]
STATE_MEASURE = "digest of the run's event log (fit results included)"


def prepare(base):
    boot.standard_prepare()


def gen_noise(rng, target):
    k = rng.choice(["rng", "fit", "fit", "failed", "interrupted", "clock", "stale", "thread", "gc",
                    "same", "chdir", "viz"])
    n = {"n": k}
    if k == "rng":
        n["arg"] = rng.randrange(1, 10 ** 6)
    elif k in ("fit", "viz"):
        n["fit"] = work.sibling(rng, target) if rng.random() < 0.4 else work.gen_fit(rng)
        n["amb"] = rng.randrange(10 ** 6)
    elif k in ("failed", "interrupted"):
        n["fit"] = work.sibling(rng, target) if rng.random() < 0.4 else work.gen_fit(rng)
        n["amb"] = rng.randrange(10 ** 6)
        n["frac"] = round(rng.random(), 3)
        n["steps"] = int(10 ** rng.uniform(1.5, 4.3))
    elif k == "clock":
        n["arg"] = rng.choice([-1e6, 1e5, 3e9])
    elif k == "same":
        n["arg"] = rng.randrange(1, 10 ** 6)
    return n


def gen(rng, idx, tier):
    models = ["sga", "discover", "regression", "spr", "dlga"]
    f = work.gen_fit(rng, [models[idx % len(models)]])
    if f["model"] == "sga":
        f["ds"] = work.gen_sga_ds(rng)
        if f["ds"].get("nd"):
            f.update(gens=1, num=4, delete_edges=False)
        if rng.random() < 0.3:
            work.surrogate(rng, f)
    if f["model"] == "dlga" and rng.random() < 0.2:
        f["ds"]["order"] = ["t", "x"]
    noise = [gen_noise(rng, f) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    return {"fit": f, "noise": noise, "in_thread": rng.random() < 0.2,
            "amb0": rng.randrange(10 ** 6), "amb1": rng.randrange(10 ** 6)}


def shrink(plan):
    import copy
    if plan.get("in_thread"):
        c = copy.deepcopy(plan)
        c["in_thread"] = False
        yield c
    for key in ("gens", "epochs", "iters"):
        if plan["fit"].get(key, 1) > 1:
            c = copy.deepcopy(plan)
            c["fit"][key] = 1
            yield c


def run_noise(sim, n, plan):
    import gc
    k = n["n"]
    sim.log("history", k)
    if k == "rng":
        sim.perturb_rng(n["arg"])
        sim.count("history:rng")
    elif k in ("fit", "viz"):
        work.ambient(n["amb"])
        try:
            m = work.make(n["fit"])
            work.do_fit(m, n["fit"])
            if k == "viz":
                import kd.viz as kv
                try:
                    kv.render_equation(m)
                except Exception:
                    pass
        except Exception as e:
            sim.log("other fit raised", type(e).__name__)
        sim.count("history:" + k)
    elif k in ("failed", "interrupted"):
        work.ambient(n["amb"])
        what = {"do": "error"} if k == "failed" else {"do": "interrupt"}
        sim.install_steps()
        sim.step_hook = sim.strike_at(sim.step_no + n["steps"], what)
        try:
            m = work.make(n["fit"])
            work.do_fit(m, n["fit"])
        except (Exception, KeyboardInterrupt) as e:
            sim.log("other fit ended by", type(e).__name__)
        finally:
            sim.step_hook = None
            sim.remove_steps()
        sim.count("history:" + k)
    elif k == "clock":
        sim.clock += n["arg"]
        sim.count("history:clock")
    elif k == "stale":
        import os
        for d, name in (("model_save", "Net_500.pkl"), ("result_save", "best_save.pkl"), ("log", "x.csv")):
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, name), "wb") as fh:
                fh.write(b"\x80\x04K\x01.")
        sim.count("history:stale-files")
    elif k == "thread":
        import threading
        th = threading.Thread(target=lambda: work.ambient(n.get("arg", 5)))
        th.start()
        th.join()
        sim.count("history:thread")
    elif k == "chdir":
        import os
        os.makedirs("elsewhere", exist_ok=True)
        os.chdir("elsewhere")
        sim.count("history:chdir")
    elif k == "same":
        # the same configuration with another seed, then with the same seed
        for s in (n["arg"] % 1000, plan["fit"]["seed"]):
            g = dict(plan["fit"], seed=s)
            work.ambient(n["arg"])
            try:
                work.do_fit(work.make(g), g)
            except Exception as e:
                sim.log("other fit raised", type(e).__name__)
        sim.count("history:same-config")
    elif k == "gc":
        gc.collect()


def run(plan, sim):
    f = plan["fit"]

    def target(amb):
        if f["model"] == "dlga":
            work.ambient(f["seed"])
        else:
            work.ambient(amb)
        if f.get("deriv"):
            work.forget_surrogates()
        try:
            return work.fit_record(f)
        except Exception as e:
            return {"raised": type(e).__name__ + ": " + str(e)[:200]}

    def fresh():
        sim.install_clock()
        return target(plan["amb0"])

    def later():
        sim.install_clock()
        for n in plan["noise"]:
            run_noise(sim, n, plan)
        if plan.get("in_thread"):
            import threading
            box = {}
            th = threading.Thread(target=lambda: box.update(v=target(plan["amb1"])))
            th.start()
            th.join()
            sim.count("history:in-thread")
            return box.get("v", {"raised": "thread died"})
        return target(plan["amb1"])

    a = sim.incarnation(fresh, "fresh")
    b = sim.incarnation(later, "later")
    sim.log("fresh", canon(a.get("value")))
    sim.log("later", canon(b.get("value")))
    ok = a["exit"] == "ok" and b["exit"] == "ok"
    if not ok:
        raise RuntimeError("incarnation failed: %s %s" % (a, b))
    va, vb = a["value"], b["value"]
    sim.nontrivial = "raised" not in va and bool(plan["noise"] or plan.get("in_thread"))
    sim.info["count"] = {"model:" + f["model"]: 1, "fit raised": int("raised" in va)}
    if va != vb:
        keys = [k for k in sorted(set(va) | set(vb)) if va.get(k) != vb.get(k)]
        sim.violate("repeatable:" + f["model"],
                    "the same %s search (same data, configuration and seed) gave different results in a fresh "
                    "process and after %s%s; differing: %s; fresh %s / later %s" % (
                        f["model"], [n["n"] for n in plan["noise"]], " in a worker thread" if plan.get("in_thread") else "",
                        keys, {k: va.get(k) for k in keys[:3]}, {k: vb.get(k) for k in keys[:3]}))
