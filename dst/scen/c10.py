"""C10: the runner's result.json is complete, truthful and about this run."""
import copy
import hashlib
import inspect
import json
import os
import sys

from .. import boot, work
from ..sim import _real_open, canon

MODULES = boot.BASE_MODULES
TIMEOUT = 200
TIERS = {"quick": {"runs": 900, "budget_s": 36, "selftest": 10, "min_runs": 60, "shrink_s": 30},
         "thorough": {"runs": 30000, "budget_s": 1500, "selftest": 200, "min_runs": 400}}
RULE = ("one run = 1-3 executions of the real runner (python -m kd.runner) as simulated processes sharing one output "
        "directory, under crashes at arbitrary executed lines or I/O operations, disk faults, failing models, another execution meanwhile, bad or "
        "vanished data files and clock jumps; non-trivial = the model was started at least once and a fault or an "
        "earlier result was present")
REAL = ["kd.runner.main", "KD_DLGA, KD_Discover_SPR (small populations, few steps)", "PDEDataset", "kd.viz adapters"]
STUB = ["the search itself in 70 % of the executions", "process = forked incarnation", "clock (virtual)", "file-system faults", "population size and network steps reduced"]
ASSUMPTIONS = ["os.replace is atomic and rename survives the crash model used (process kill, not power loss)"]
STATE_MEASURE = "digest of the run's event log"


def prepare(base):
    boot.standard_prepare(models=("spr",))


NAMES = ["data.mat", "mesure é.mat", "field.npy", "数据.npy"]


QUICK = ["u_{t} = -0.9983 u u_{x} + 0.1 u_{xx}", "∂u/∂t = 0.5·∂²u/∂x²", "u_t = \\bad{ 1.0 u", "1.0*u1 + é", "u_t=0", None]


def gen(rng, idx, tier):
    ops = []
    n = rng.choice([1, 1, 2, 2, 3])
    for k in range(n):
        ops.append(gen_op(rng, last=(k == n - 1)))
    plan = {"ops": ops, "amb": rng.randrange(10 ** 6)}
    if rng.random() < 0.45:
        plan["stale"] = rng.choice(["success", "error", "torn"])
    return plan


def gen_op(rng, last, inner=False):
    model = rng.choice(["dlga", "dlga", "spr", "spr", "none", "bogus"] if rng.random() < 0.15 else ["dlga", "spr"])
    op = {"model": model, "seed": rng.randrange(50)}
    if rng.random() < 0.7:
        op["quick"] = rng.choice(QUICK)       # the search is replaced by this finding
    r = rng.random()
    if r < 0.12:
        op["name"] = rng.choice(["burgers", "chafee-infante", "kdv", "PDE_divide", "no-such-dataset"])
    else:
        op["file"] = rng.choice(NAMES)
        op["field"] = {"kind": rng.choice(work.KINDS), "nx": rng.choice([18, 20]), "nt": rng.choice([14, 16]),
                       "seed": rng.randrange(7)}
        op["transposed"] = rng.random() < 0.3
        op["keys"] = rng.random() < 0.3
        op["name"] = rng.choice([None, None, "burgers"])
        op["domain"] = rng.random() < 0.5
        op["bad"] = rng.choice([None] * 7 + ["missing", "ext", "noshape"])
    op["outdir"] = rng.choice(["flag", "config", "both"])
    if model == "dlga":
        op["params"] = {"operators": rng.choice(["u,u_x,u_xx,u_xxx", "u, u_x, u_xx", ["u", "u_x", "u_xxx"]]),
                        "epi": rng.choice([0.1, 0.01, "0.05"]), "max_iter": rng.choice([3, 6, "5"]),
                        "sample": rng.choice([None, 120, "100"])}
        if rng.random() < 0.15:
            op["params"] = {"max_iter": 4, "note": "é∂u"}
    else:
        op["params"] = {"binary_operators": rng.choice(["add_t,mul_t,diff_t,diff2_t", ["add_t", "mul_t", "diff_t"]]),
                        "unary_operators": rng.choice(["n2_t", ["n2_t"]]), "n_samples_per_batch": rng.choice([10, 14]),
                        "seed": rng.randrange(40), "n_epochs": 1,
                        "sample_ratio": rng.choice([0.2, 0.4]) if op.get("file") else 0.01}
    r = rng.random()
    op["faults"] = []
    if r < 0.25:
        op["strike"] = {"do": rng.choice(["crash", "crash", "interrupt"]), "frac": round(rng.random() ** 0.5, 4)}
    elif r < 0.33:
        # near the end, where the result is written and the pictures are drawn
        op["strike"] = {"do": rng.choice(["crash", "crash", "interrupt"]), "frac": round(1 - rng.random() * 0.05, 5)}
    elif r < 0.75:
        for _ in range(rng.choice([1, 1, 2])):
            op["faults"].append(gen_fault(rng))
    elif r < 0.9 and not inner:
        # another execution on the same machine, from start to end at some point of this one
        other = gen_op(rng, last, inner=True)
        other["quick"] = other.get("quick", QUICK[0])
        other["faults"] = [dict(f, match=f["match"].replace("out/", "outb/")) if "match" in f else f
                           for f in other["faults"] if f["do"] != "clock"] if rng.random() < 0.3 else []
        other.pop("strike", None)
        op["meanwhile"] = {"op": other, "frac": round(rng.choice([rng.random(), 1 - rng.random() * 0.05]), 5)}
    return op


def gen_fault(rng):
    r = rng.random()
    if r < 0.4:
        return {"on": rng.choice(["open-w", "write", "write", "close", "rename"]), "match": "out/*result*",
                "nth": rng.choice([1, 1, 1, 2, 5, 20]), "times": rng.choice([1, 1, 1000]),
                "do": rng.choice(["crash", "ENOSPC", "EIO", "EACCES"]), "arg": rng.choice([0, 1, 0.5, 3])}
    if r < 0.55:
        return {"on": rng.choice(["open-w", "write"]), "match": "out/*.png", "nth": 1, "times": rng.choice([1, 1000]),
                "do": rng.choice(["ENOSPC", "EIO", "crash"]), "arg": rng.choice([0, 0.5])}
    if r < 0.63:
        return {"on": "mkdir", "match": "out*", "nth": 1, "times": 1000, "do": rng.choice(["EACCES", "ENOSPC"])}
    if r < 0.72:
        return {"on": "open-r", "match": "in/*", "nth": 1, "times": rng.choice([1, 1000]),
                "do": rng.choice(["EIO", "ENOENT", "EACCES", "truncate"]), "arg": rng.choice([0.0, 0.3, 0.9])}
    if r < 0.78:
        return {"on": "remove", "match": "out/*", "nth": 1, "times": 1000, "do": rng.choice(["EACCES", "EIO"])}
    if r < 0.93:
        if rng.random() < 0.4:
            return {"on": "picture", "nth": rng.choice([1, 1, 2]), "do": rng.choice(["error", "memerr", "exit", "exit", "interrupt", "crash"])}
        return {"on": "model:*", "nth": 1, "do": rng.choice(["error", "error", "memerr", "bare", "bare", "interrupt", "crash"])}
    return {"on": "clock", "nth": rng.choice([1, 2, 5, 9]), "times": 1, "do": "clock", "arg": rng.choice([-86400, -3600, 7200])}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for j in range(len(op["faults"])):
            c = copy.deepcopy(plan)
            del c["ops"][i]["faults"][j]
            yield c
        if op.get("meanwhile"):
            c = copy.deepcopy(plan)
            del c["ops"][i]["meanwhile"]
            yield c
    if plan.get("stale"):
        c = copy.deepcopy(plan)
        del c["stale"]
        yield c


def write_inputs(op, k, out="out"):
    """The data file and the configuration of one execution; returns what they mean."""
    import numpy as np
    import scipy.io
    cfg = {"model": {"spr": "dscv_spr", "none": None, "bogus": "magic"}.get(op["model"], op["model"]),
           "params": op["params"]}
    if op["outdir"] in ("config", "both"):
        cfg["output_dir"] = "elsewhere" if op["outdir"] == "both" else out
    want = {"params": op["params"], "data": None, "info": op.get("name")}
    if op.get("name"):
        cfg["dataset_name"] = op["name"]
    if op.get("file"):
        name = op["file"]
        if op["bad"] == "ext":
            name = name.rsplit(".", 1)[0] + ".csv"
        path = os.path.join("in", str(k), name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        x, t, u = work.field(**op["field"])
        fc = {}
        if name.endswith(".npy"):
            if op["domain"]:
                fc["domain"] = {"x": [-2.0, 2.0], "t": [0.1, 1.1]}
            else:
                x, t = np.linspace(0, 1, len(x)), np.linspace(0, 1, len(t))
            if op["bad"] != "noshape":
                fc["shape"] = [len(x), len(t)]
            if op["bad"] != "missing":
                np.save(path, u.reshape(-1) if op["transposed"] else u)
        else:
            ks = ("space", "time", "field") if op["keys"] else ("x", "t", "usol")
            if op["keys"]:
                fc = {"x_key": "space", "t_key": "time", "u_key": "field"}
            if op["bad"] != "missing":
                with open(path, "wb") as fh:
                    scipy.io.savemat(fh, {ks[0]: x.reshape(-1, 1), ks[1]: t, ks[2]: u.T if op["transposed"] else u})
        cfg["dataset_file"] = path
        if fc:
            cfg["file_config"] = fc
        want["info"] = path
        if not op["bad"] or (op["bad"] == "noshape" and not name.endswith(".npy")):
            want["data"] = [canon(np.asarray(v, dtype=float)) for v in (x, t, u)]
    with open("config-%s.json" % k, "w", encoding="utf-8") as f:
        json.dump(cfg, f, ensure_ascii=False)
    return cfg, want


def builtin(name):
    import numpy as np
    from kd.dataset import load_pde
    try:
        d = load_pde(name)
    except Exception:
        return None
    return [canon(np.asarray(v, dtype=float)) for v in (d.x, d.t, d.usol)]


def install_spies(sim, op):
    """Record what the models are given and what they find; keep them small."""
    import numpy as np
    from kd.model.kd_dlga import KD_DLGA
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR

    def data_of(ds):
        return [canon(np.asarray(v, dtype=float)) for v in (ds.x, ds.t, ds.usol)]

    done = []

    def wrap(cls, base, small, equation, label):
        init, fit = cls.__init__, cls.fit_dataset
        names = [p for p in inspect.signature(base.__init__).parameters if p not in ("self", "kwargs", "args")]

        def __init__(self, *a, **k):
            given = dict(zip(names, a))
            given.update(k)
            sim.log("SPY ctor", label, json.dumps(canon(given), sort_keys=True))
            init(self, *a, **k)
            small(self)

        def fit_dataset(self, dataset, *a, **k):
            sim.log("SPY fit", label, json.dumps({"data": data_of(dataset), "args": len(a), "kw": canon(k)}, sort_keys=True))
            f = sim.fault("model:fit", label)
            if f is not None:
                sim.apply(f, "model")
            try:
                if "quick" in op:
                    ret = None
                    if label == "dlga":
                        self.eq_latex = op["quick"]
                    elif op["quick"] is not None:
                        ret = {"expression": op["quick"], "r": 0.5}
                else:
                    ret = fit(self, dataset, *a, **k)
            except BaseException as e:
                sim.log("SPY failed", label, type(e).__name__)
                raise
            sim.log("SPY found", json.dumps(equation(self, ret)))
            done.append(1)
            return ret
        cls.__init__, cls.fit_dataset = __init__, fit_dataset

    def small_dlga(m):
        m.pop_size, m.n_generations, m.max_iter = 8, 2, min(6, m.max_iter)

    def small_spr(m):
        m.config_pinn.update(pretrain_epoch=4, pinn_epoch=2, iter_num=1, duration=5)
        m.config_training["stability_selection"] = 1 if op["seed"] % 5 == 0 else 0

    # drawing: a fault at the first use of a figure after the model finished
    from matplotlib.figure import Figure
    fig_init = Figure.__init__

    def init_figure(self, *a, **k):
        if done:
            f = sim.fault("picture", "figure")
            if f is not None:
                sim.apply(f, "picture")
        return fig_init(self, *a, **k)
    Figure.__init__ = init_figure

    wrap(KD_DLGA, KD_DLGA, small_dlga, lambda m, r: m.eq_latex, "dlga")
    wrap(KD_Discover_SPR, KD_Discover, small_spr, lambda m, r: r["expression"] if r else None, "spr")


def ops_list(v):
    return [o.strip() for o in v.split(",") if o.strip()] if isinstance(v, str) else list(v)


def expected_ctor(op):
    p = op["params"]
    if op["model"] == "dlga":
        return {"operators": ops_list(p.get("operators", "u,u_x,u_xx,u_xxx")), "epi": float(p.get("epi", 0.1)),
                "max_iter": int(p["max_iter"])}, {"sample": int(p["sample"]) if p.get("sample") else None}
    return {"binary_operators": ops_list(p["binary_operators"]), "unary_operators": ops_list(p["unary_operators"]),
            "n_samples_per_batch": int(p["n_samples_per_batch"]), "seed": int(p["seed"])}, \
        {"n_epochs": int(p["n_epochs"]), "sample_ratio": float(p["sample_ratio"])}


STALE = {"success": json.dumps({"model": "dlga", "dataset": "old", "equation": "u_t = OLD", "elapsed_seconds": 1.0,
                                "status": "success", "params": {"old": 1}}),
         "error": json.dumps({"model": "dlga", "dataset": "old", "equation": "(error)", "elapsed_seconds": 1.0,
                              "status": "error", "params": {"old": 1}, "error": "OLD"}),
         "torn": '{"model": "dlga", "dataset": "ol'}


def result_file(out="out"):
    try:
        with open(out + "/result.json", "rb") as f:
            return f.read()
    except OSError:
        return None


def run(plan, sim):
    os.makedirs("in")
    before = None
    if plan.get("stale"):
        os.makedirs("out")
        before = STALE[plan["stale"]].encode()
        with open("out/result.json", "wb") as f:
            f.write(before)
    started = 0
    for k, op in enumerate(plan["ops"]):
        cfg, want = write_inputs(op, k)
        strike = other = None
        if op.get("strike") or op.get("meanwhile"):
            keep = result_file()
            sim.incarnation(lambda: execute(sim, plan, op, k, [], {}), "count%d" % k)
            n = int(open("steps").read()) if os.path.exists("steps") else 0
            restore(keep)
            what = op.get("strike") or op["meanwhile"]
            strike = dict(what, at=max(1, int(n * what["frac"])))
        if op.get("meanwhile"):
            op2, k2 = op["meanwhile"]["op"], "%d-b" % k
            cfg2, want2 = write_inputs(op2, k2, "outb")
            other = sim.reserve(lambda: execute(sim, plan, op2, k2, op2["faults"], out="outb"), "meanwhile%d" % k)
        mark = len(sim.trace)
        res = sim.incarnation(lambda: execute(sim, plan, op, k, op["faults"], strike, other=other), "run%d" % k)
        events = [ln.split("] ", 1)[1] for ln in sim.trace[mark:] if ln.startswith("[run%d] " % k)]
        after = result_file()
        sim.log("after run", k, res["exit"], "result", None if after is None else hashlib.sha256(after).hexdigest()[:10] if
                b"Traceback" in after or b"elapsed" in after else repr(after[:60]))
        judge(sim, k, op, cfg, want, res, events, before, after)
        if any(e.startswith("SPY fit") for e in events):
            started += 1
        before = after
        if other is not None and os.path.exists("other.json"):
            with open("other.json") as f:
                res2 = json.load(f)
            os.remove("other.json")
            mid = "[meanwhile%d] " % k
            events = [ln.split(mid, 1)[1] for ln in sim.trace[mark:] if mid in ln]
            sim.log("the other run", res2["exit"])
            judge(sim, k2, op2, cfg2, want2, res2, events, None, result_file("outb"))
            restore(None, "outb")
    sim.nontrivial = started > 0 and (bool(sim.stats["faults"]) or bool(plan.get("stale")) or len(plan["ops"]) > 1)
    sim.info["count"] = {"models started": started}


def execute(sim, plan, op, k, faults, strike=None, out="out", other=None):
    """One execution of the runner, in this process."""
    import kd.runner
    work.ambient(plan["amb"])
    boot.small_pictures()
    sim.install_clock()
    install_spies(sim, op)
    sim.install_fs()
    sim.log_io = False
    sim.arm(faults)
    if strike is not None:
        kd_dir = os.path.join(boot.REPO, "kd") + os.sep
        sim.install_steps(prefixes=[kd_dir + p for p in (
            "runner.py", "dataset", "viz", "utils", "base.py", os.path.join("model", "kd_"))])
        if other is not None:
            sim.step_hook = sim.aside(strike["at"], lambda: run_other(other))
        elif strike.get("at"):
            sim.step_hook = sim.strike_at(strike["at"], strike)
    sys.argv = ["kd.runner", "--config", "config-%s.json" % k]
    if op["outdir"] != "config":
        sys.argv += ["--output_dir", out]
    try:
        kd.runner.main()
    finally:
        sim.step_hook = None
        if strike is not None and not strike.get("at"):
            with open("steps", "w") as f:
                f.write(str(sim.step_no))
    return "returned"


def run_other(other):
    res = other()
    with _real_open("other.json", "w") as f:
        json.dump(res, f, default=repr)


def restore(keep, out="out"):
    if keep is None:
        if os.path.exists(out + "/result.json"):
            os.remove(out + "/result.json")
    else:
        os.makedirs("out", exist_ok=True)
        with open("out/result.json", "wb") as f:
            f.write(keep)


def judge(sim, k, op, cfg, want, res, events, before, after):
    fits = [json.loads(e.split(" ", 3)[3]) for e in events if e.startswith("SPY fit ")]
    ctors = [json.loads(e.split(" ", 3)[3]) for e in events if e.startswith("SPY ctor ")]
    found = [json.loads(e.split(" ", 2)[2]) for e in events if e.startswith("SPY found ")]
    trouble = any(e.startswith("fault ") and " clock " not in e for e in events) or any(e.startswith("SPY failed") for e in events)
    exit_ = res["exit"]
    tag = "execution %s (%s, exit %s, faults %s)" % (k, op["model"], exit_, [e for e in events if e.startswith("fault")][:4])

    # what the model was trained on
    if op.get("file"):
        data = want["data"]
    else:
        data = builtin(op["name"]) if op.get("name") else None
    for f in fits:
        if data is None:
            sim.violate("dataset", "%s: a model was trained although the configured data cannot be read" % tag)
        elif f["data"] != data:
            sim.violate("dataset", "%s: the model was trained on other data than the configured %s" % (tag, want["info"]))
    if ctors and op["model"] in ("dlga", "spr"):
        c, kw = expected_ctor(op)
        for have, need, where in ((ctors[-1], c, "model"), (fits[-1]["kw"] if fits else None, kw, "fit")):
            if have is None:
                continue
            for name, v in need.items():
                if name in have and have[name] != canon(v):
                    sim.violate("params", "%s: %s got %s=%r instead of the configured %r" % (tag, where, name, have[name], v))
                elif name not in have and where == "model" and v != {"epi": 0.1}.get(name, object()):
                    sim.violate("params", "%s: %s did not get %s" % (tag, where, name))

    # the file
    doc = None
    if after is not None:
        if after == before and not fits:
            pass                    # this execution never got to its model
        else:
            if after == before and before is not None:
                same_is_new = False
                try:
                    same_is_new = json.loads(after).get("dataset") == want["info"] and json.loads(after).get("params") == op["params"]
                except ValueError:
                    pass
                if not same_is_new:
                    sim.violate("stale", "%s: result.json is still the earlier run's: %r" % (tag, after[:200]))
                    return
            try:
                doc = json.loads(after.decode("utf-8"))
                if not isinstance(doc, dict):
                    raise ValueError("not an object")
            except ValueError as e:
                sim.violate("torn", "%s: result.json is not complete JSON (%s): %r" % (tag, e, after[-80:]))
                return
    if doc is not None:
        need = {"model", "dataset", "equation", "elapsed_seconds", "status", "params"}
        if not need <= set(doc):
            sim.violate("fields", "%s: result.json lacks %s" % (tag, sorted(need - set(doc))))
            return
        if doc["model"] != cfg["model"] or doc["dataset"] != want["info"] or doc["params"] != op["params"]:
            sim.violate("identity", "%s: result.json describes another run: %s / %s / %s" % (
                tag, doc["model"], doc["dataset"], doc["params"]))
        el = doc["elapsed_seconds"]
        if not isinstance(el, (int, float)) or not el == el or el < 0 or el > 3600:
            sim.violate("elapsed", "%s: elapsed_seconds is %r" % (tag, el))
        if doc["status"] == "success":
            if "error" in doc:
                sim.violate("status", "%s: success with an error text" % tag)
            if not found:
                sim.violate("status", "%s: success although the model did not finish" % tag)
            elif doc["equation"] != (found[-1] or doc["equation"]):
                sim.violate("equation", "%s: result.json says %r, the model found %r" % (tag, doc["equation"], found[-1]))
        elif doc["status"] == "error":
            if not doc.get("error"):
                sim.violate("status", "%s: an error without its text" % tag)
            if found and found[-1] and doc["equation"] == found[-1] and len(found[-1]) > 3:
                sim.violate("status", "%s: an error that reports the equation as found" % tag)
            if found and not trouble:
                sim.violate("status", "%s: error although nothing failed: %s" % (tag, doc.get("error", "")[-300:]))
        else:
            sim.violate("status", "%s: status %r" % (tag, doc["status"]))
    # exit status
    if exit_ in ("ok", "exit:0"):
        if doc is None or doc["status"] != "success":
            sim.violate("exit", "%s: exit status 0 without a success on disk (%s)" % (tag, doc and doc["status"]))
    elif exit_ == "exit:1" or exit_ == "error":
        hard = any(" interrupt" in e for e in events if e.startswith("fault"))
        if doc is not None and doc["status"] == "success" and not hard:
            sim.violate("exit", "%s: failure exit although the result is a success: %s" % (tag, res.get("error")))
    # progress: without faults a readable configuration succeeds, a bad one is reported
    clean = not trouble and exit_ != "crash"
    if clean:
        good = op["model"] in ("dlga", "spr") and data is not None
        if good and not (op["model"] == "spr" and not found):
            if not (doc is not None and doc["status"] == "success" and exit_ in ("ok", "exit:0")):
                sim.violate("progress", "%s: nothing failed but there is no success: %s %s" % (
                    tag, doc and doc["status"], (doc or {}).get("error", res.get("error", ""))[-600:]))
        if op["model"] in ("dlga", "spr") and data is None and not (doc is not None and doc["status"] == "error" and exit_ == "exit:1"):
            sim.violate("progress", "%s: an unusable dataset is not reported: %s" % (tag, doc and doc["status"]))
        if op["model"] in ("none", "bogus") and exit_ in ("ok", "exit:0"):
            sim.violate("exit", "%s: exit status 0 for an unknown model" % tag)
    # a finished training is on disk, whatever becomes of its pictures
    struck = [e for e in events if e.startswith("fault ") and " clock " not in e]
    if found and struck and all(e.startswith("fault picture") for e in struck) and op["model"] in ("dlga", "spr") and found[-1]:
        if doc is None or doc["status"] != "success":
            sim.violate("lost", "%s: the model finished, then drawing failed, and the result is lost: %s" % (tag, doc and doc["status"]))
    # a failed model is reported when the disk works
    model_failed = [e for e in events if e.startswith("SPY failed")] or [e for e in events if e.startswith("fault model:fit") and
                                                                         e.split()[-1] in ("error", "memerr", "bare")]
    io_fault = [e for e in events if e.startswith("fault ") and not e.startswith("fault model") and not e.startswith("fault clock")]
    if model_failed and not io_fault and not any(" interrupt" in e or " crash" in e for e in events if e.startswith("fault")):
        if not (doc is not None and doc["status"] == "error" and exit_ == "exit:1"):
            sim.violate("status", "%s: the model failed but result.json says %s" % (tag, doc and doc["status"]))
