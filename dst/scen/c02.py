"""C02: an estimator whose fit failed or was interrupted can be fitted again."""
import copy
import os
import shutil

from .. import boot, work
from ..sim import canon

MODULES = boot.BASE_MODULES
TIMEOUT = 240
TIERS = {"quick": {"runs": 320, "budget_s": 40, "selftest": 10, "min_runs": 40},
         "thorough": {"runs": 20000, "budget_s": 1500, "selftest": 200, "min_runs": 200}}
RULE = ("one run = one estimator instance taken through 1-3 fits of which at least one is struck by a fault at an "
        "arbitrary executed line or I/O operation (keyboard interrupt, memory error, failing call, full disk, I/O "
        "error), then fitted once more without faults and compared exactly with a never-used instance in a fresh "
        "process; non-trivial = a fault really struck a fit and the last fit returned a result")
REAL = ["KD_SGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression", "KD_DLGA", "PDEDataset",
        "torch, numpy, scipy, scikit-learn, numba"]
STUB = ["clock (virtual)", "TensorBoard writer (no-op)", "file-system faults (injected at open/write/close/rename)"]
ASSUMPTIONS = ["numeric libraries run with one thread", "the neural models are trained for few steps"]
STATE_MEASURE = "digest of the run's event log (fault position, fit results)"


def prepare(base):
    boot.standard_prepare()


def gen(rng, idx, tier):
    models = ["sga", "discover", "regression", "spr", "dlga"]
    m = models[idx % len(models)]
    last = work.gen_fit(rng, [m])
    if m == "spr" and rng.random() < 0.15:
        last["entry"], last["ds"] = "xy", work.gen_ds(rng)
        last.pop("opts", None)
    if m == "sga":
        last["ds"] = work.gen_sga_ds(rng)
        if last["ds"].get("nd"):
            last.update(gens=1, num=4, delete_edges=False)
        if rng.random() < 0.3:
            work.surrogate(rng, last)
    if m == "dlga" and rng.random() < 0.2:
        last["ds"]["order"] = ["t", "x"]
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        f = dict(last) if rng.random() < 0.5 else _other(rng, m, last)
        r = rng.random()
        if r < 0.65:
            ops.append({"fit": f, "strike": {"do": rng.choice(["interrupt", "interrupt", "memerr", "error"]),
                                             "frac": round(rng.random(), 4)}})
        elif r < 0.9:
            ops.append({"fit": f, "io": {"on": rng.choice(["open-w", "write", "close", "open-r", "mkdir", "rename"]),
                                         "nth": rng.choice([1, 1, 2, 3]), "times": rng.choice([1, 1, 100]),
                                         "do": rng.choice(["ENOSPC", "EIO", "EACCES"]), "arg": rng.choice([0, 3, 0.5])}})
        else:
            ops.append({"fit": f})
    return {"fit": last, "ops": ops, "amb": rng.randrange(10 ** 6), "litter": rng.random() < 0.5 and not last.get("deriv")}


def _other(rng, m, last):
    """The same configured instance on other data (constructor arguments stay)."""
    f = dict(last)
    f["ds"] = work.gen_ds(rng)
    if m == "regression":
        f["ds"] = work.gen_fit(rng, ("regression",))["ds"]
    if m == "sga":
        f["ds"] = work.gen_sga_ds(rng)
        if f["ds"].get("nd") and last.get("delete_edges"):
            f["ds"] = work.gen_ds(rng)
    if rng.random() < 0.35:
        f["ds"] = dict(last["ds"], seed=rng.randrange(9))
        return f
    if m == "discover" and last["ds"].get("nd") != 2 and not last.get("ops") and rng.random() < 0.4:
        f["ds"] = {"nd": 2, "nx": 8, "nt": 8, "seed": rng.randrange(5)}
    elif last["ds"].get("nd") == 2 and rng.random() < 0.6:
        pass
    if m == "dlga":
        f["sample"] = rng.choice([None, 120])
    if m == "spr":
        g = work.gen_fit(rng, ("spr",))
        if last.get("entry") == "xy" and rng.random() < 0.7:
            g["ds"] = {"nd": 2, "nx": 7, "nt": 7, "seed": rng.randrange(5)}
            g.pop("entry", None)
        f["ds"] = g["ds"]
        for k in ("entry", "opts"):
            f.pop(k, None)
            if g.get(k):
                f[k] = g[k]
    return f


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if "strike" in op and op["strike"]["frac"] > 0:
            for fr in (0.0, 0.1, 0.5):
                if fr < op["strike"]["frac"]:
                    c = copy.deepcopy(plan)
                    c["ops"][i]["strike"]["frac"] = fr
                    yield c


def files():
    out = []
    for d, _, fs in os.walk("."):
        for f in fs:
            out.append(os.path.normpath(os.path.join(d, f)))
    return sorted(out)


def clean(sim):
    for name in os.listdir(sim.scratch):
        path = os.path.join(sim.scratch, name)
        shutil.rmtree(path) if os.path.isdir(path) else os.remove(path)


def twin_dlga(f, mod):
    """A never-used instance that starts from the same network weights."""
    twin = work.make(f)
    twin.Net.load_state_dict(copy.deepcopy(mod.Net.state_dict()))
    return twin


def run(plan, sim):
    last = plan["fit"]
    m = last["model"]

    # number of step points of each struck fit, so that `frac` is a position in it
    def count_steps():
        out = []
        sim.install_fs()
        for op in plan["ops"]:
            if "strike" not in op:
                out.append(0)
                continue
            work.ambient(plan["amb"])
            sim.install_steps()
            try:
                mod = work.make(op["fit"])
                sim.step_no = 0
                work.do_fit(mod, op["fit"])
            except Exception:
                pass
            out.append(sim.step_no)
            sim.remove_steps()
        return out

    def fresh():
        sim.install_clock()
        work.ambient(plan["amb"])
        mod = work.make(last)
        try:
            return {"rec": work.record(mod, last, work.do_fit(mod, last)), "files": files()}
        except Exception as e:
            return {"raised": type(e).__name__ + ": " + str(e)[:200]}

    steps = sim.incarnation(count_steps, "count")
    if steps["exit"] != "ok":
        raise RuntimeError(str(steps))
    steps = steps["value"]

    def used():
        sim.install_clock()
        sim.install_fs()
        sim.log_io = False
        work.ambient(plan["amb"])
        mod = work.make(last)
        struck = 0
        for op, n in zip(plan["ops"], steps):
            f = op["fit"]
            data = work.reg_data(f) if m == "regression" else work.dataset(f["ds"])
            try:
                if "strike" in op:
                    at = max(1, int(n * op["strike"]["frac"]))
                    sim.install_steps()
                    sim.step_no = 0
                    before = dict(sim.stats["faults"])
                    sim.step_hook = sim.strike_at(at, op["strike"])
                elif "io" in op:
                    sim.arm([op["io"]])
                work.do_fit(mod, f, data)
                sim.log("earlier fit completed")
            except (Exception, KeyboardInterrupt) as e:
                sim.log("earlier fit ended by", type(e).__name__)
                struck += 1
            finally:
                sim.step_hook = None
                sim.remove_steps()
                sim.arm([])
        if not plan.get("litter"):
            clean(sim)                     # the same disk as the fresh process
        work.ambient(plan["amb"])
        data = work.reg_data(last) if m == "regression" else work.dataset(last["ds"])
        try:
            twin = twin_dlga(last, mod) if m == "dlga" else None
            ret = work.do_fit(mod, last, data)
            if m == "dlga":
                rec = work.record(mod, last, ret)
                work.ambient(plan["amb"])
                data = work.dataset(last["ds"])
                return {"rec": rec, "struck": struck, "files": [],
                        "twin": work.record(twin, last, work.do_fit(twin, last, data))}
            return {"rec": work.record(mod, last, ret), "struck": struck, "files": files()}
        except Exception as e:
            import traceback
            return {"raised": type(e).__name__ + ": " + str(e)[:200], "struck": struck,
                    "tb": traceback.format_exc()[-1200:]}

    # none of the processes shares a disk with another
    clean(sim)
    a = sim.incarnation(fresh, "fresh")
    clean(sim)
    b = sim.incarnation(used, "used")
    if a["exit"] != "ok" or b["exit"] != "ok":
        raise RuntimeError("incarnation failed: %s %s" % (a, b))
    va, vb = a["value"], b["value"]
    sim.log("fresh", canon(va))
    sim.log("used", canon({k: v for k, v in vb.items() if k != "tb"}))
    sim.nontrivial = vb.get("struck", 0) > 0 and "rec" in vb
    sim.info["count"] = {"model:" + m: 1, "struck fits": vb.get("struck", 0), "fresh raised": int("raised" in va)}
    what = [(o.get("strike") or o.get("io") or {"do": "completed fit"})["do"] for o in plan["ops"]]
    if m == "dlga":
        # its network goes on training, so the reference starts from the same weights
        if "rec" in va:
            va = {"rec": vb.get("twin"), "files": []}
    if ("raised" in va) != ("raised" in vb):
        sim.violate("refit:" + m, "after %s the refit gave %s but a fresh estimator gives %s" % (
            what, vb.get("raised", "a result") + str(vb.get("tb", "")), va.get("raised", "a result")))
    elif "rec" in va and va["rec"] != vb["rec"]:
        keys = [k for k in va["rec"] if va["rec"][k] != vb["rec"].get(k)]
        sim.violate("refit:" + m, "after %s the refit differs from a fresh estimator in %s: fresh %s / refit %s" % (
            what, keys, {k: va["rec"][k] for k in keys[:3]}, {k: vb["rec"].get(k) for k in keys[:3]}))
    elif "rec" in va and va["files"] != vb["files"] and not plan.get("litter"):
        sim.violate("refit-files:" + m, "after %s the refit writes other files than a fresh estimator: fresh %s / refit %s" % (
            what, va["files"], vb["files"]))
