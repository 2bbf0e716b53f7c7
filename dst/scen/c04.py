"""C04: nothing the caller hands in is ever changed."""
import copy

from .. import boot, work
from ..sim import canon, digest
from .c07 import install_linalg

MODULES = boot.BASE_MODULES
TIMEOUT = 150
TIERS = {"quick": {"runs": 1500, "budget_s": 34, "selftest": 8, "min_runs": 30, "shrink_s": 40},
         "thorough": {"runs": 60000, "budget_s": 1500, "selftest": 150, "min_runs": 800}}
RULE = ("one run = 1-3 estimators fitted to one shared dataset, predicting, drawing and sampling, with errors, interrupts, exhausted memory "
        "and failing linear algebra at seeded points; every array, list and dictionary of the caller is compared byte for byte after every call "
        "and at seeded executed lines inside every call; the last fit is compared with one on a fresh dataset in a fresh process; "
        "non-trivial = a fault struck or at least two calls shared the dataset")
REAL = ["KD_SGA, KD_DLGA, KD_Discover, KD_Discover_Regression, KD_Discover_SPR, PDEDataset, kd.viz"]
STUB = ["errors at executed lines", "numpy.linalg failures", "clock (virtual)"]
ASSUMPTIONS = ["the dataset's own label attributes (names, aliases) are not data"]
STATE_MEASURE = "digest of the run's event log"


def prepare(base):
    import logging
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    boot.standard_prepare(models=("sga", "dlga", "discover", "regression", "spr"))


USE = {"sga": ["latex", "viz"], "dlga": ["predict", "viz"], "discover": ["step", "viz", "plot"], "regression": ["predict", "step"], "spr": ["viz"]}
VIZ = {"sga": ["equation", "parity", "residual", "field_comparison"], "dlga": ["parity", "residual", "training_curve", "search_evolution", "derivative_relationships"],
       "discover": ["search_evolution", "density", "equation", "residual", "parity"], "spr": ["equation", "residual", "parity", "spr_residual", "spr_field_comparison"]}


WHAT = ["sample", "ratio", "uniform", "mesh", "mesh", "mesh_xy", "bounds", "get_data", "derivative", "derivative_t", "range", "boundaries", "point", "repr"]


def gen(rng, idx, tier):
    reg = rng.random() < 0.15
    ds = work.gen_ds(rng)
    r = rng.random()
    models = []
    if r < 0.15:
        ds = {"nd": 2, "nx": 8, "nt": 8, "seed": rng.randrange(5)}
        if rng.random() < 0.5:
            ds["order"] = rng.sample(["x", "y", "t"], 3)
    elif r < 0.27:
        ds["extra"] = rng.choice([1, 2, 2])
        if ds["extra"] == 1 and rng.random() < 0.4:
            ds["target"] = "v"
    elif r < 0.35:
        ds["order"] = rng.sample(["x", "t"], 2)
    if rng.random() < 0.15:
        ds["param"] = 1
    order = rng.choice(["C", "C", "F", "strided"])
    for _ in range(rng.choice([1, 2, 2, 3])):
        kinds = ["regression"] if reg else ["sga"] if ds.get("extra") else (["sga"] if ds.get("order") and not ds.get("nd") else ["sga", "discover"]) if ds.get("param") else ["sga", "discover", "spr"] if ds.get("nd") else ["sga", "spr"] if ds.get("order") else ["sga", "dlga", "discover", "spr", "discover", "dlga"]
        f = work.gen_fit(rng, kinds)
        f["ds"] = ds
        if f["model"] == "discover":
            f["ops"] = None if ds.get("nd") else f["ops"]
            f["batch"], f["epochs"] = rng.choice([10, 20]), 1
        if f["model"] == "sga":
            f["num"], f["gens"] = rng.choice([4, 8]), rng.choice([1, 3])
            if ds.get("extra") == 2:
                f["num"], f["gens"], f["width"], f["depth"] = 10, 4, 4, rng.choice([3, 4])
            f["delete_edges"] = f["delete_edges"] and not ds.get("nd") and not ds.get("extra")
            if rng.random() < 0.2:
                work.surrogate(rng, f)
        if f["model"] == "spr":
            f["batch"], f["iters"] = 10, 1
            if ds.get("nd") or ds.get("order"):
                f.pop("opts", None)
        if f["model"] in ("discover", "regression") and rng.random() < 0.6:
            f["conf"] = {"training": {"epsilon": rng.choice([0.1, 0.3])}, "controller": {"pqt_k": rng.choice([2, 5]), "pqt_batch_size": 1},
                         "prior": {"length": {"min_": 3, "max_": 20, "on": True}}}
        models.append(f)
    ops = []
    fitted = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if r < 0.65 or not fitted:
            i = rng.randrange(len(models))
            op = {"do": "fit", "on": i}
            fitted.append(i)
        elif r < 0.83:
            i = rng.choice(fitted)
            m = models[i]["model"]
            op = {"do": rng.choice(USE[m]), "on": i}
            if op["do"] == "viz":
                op["kind"] = rng.choice(VIZ[m])
            if op["do"] == "plot":
                op["kind"] = rng.choice(["evolution", "density", "tree"])
        else:
            op = {"do": "dataset", "what": rng.choice(WHAT)}
        op["seed"] = rng.randrange(10000)
        op["every"] = rng.choice([0, 37, 211, 1009])
        r = rng.random()
        if op["do"] != "dataset":
            if r < 0.35:
                op["strike"] = {"do": rng.choice(["error", "interrupt", "memerr"]), "frac": round(rng.random(), 4)}
            elif r < 0.45:
                op["linalg"] = {"on": "linalg", "match": "*", "nth": rng.choice([1, 3, rng.randrange(1, 80)]), "times": rng.choice([1, 1000]), "do": "linalg"}
        ops.append(op)
    last = rng.randrange(len(models))
    ops.append({"do": "fit", "on": last, "seed": rng.randrange(10000), "every": 0, "fresh": True})
    return {"models": models, "ops": ops, "order": order}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for k in ("strike", "linalg"):
            if k in op:
                c = copy.deepcopy(plan)
                del c["ops"][i][k]
                yield c
    if plan["order"] != "C":
        c = copy.deepcopy(plan)
        c["order"] = "C"
        yield c


def relayout(a, order):
    """The same numbers in another memory layout, as callers' arrays come."""
    import numpy as np
    if order == "F":
        return np.asfortranarray(a)
    if order == "strided":
        big = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a


def caller(plan):
    """Everything the caller owns: dataset with its arrays, raw arrays, lists, dicts."""
    import numpy as np
    from kd.dataset import PDEDataset
    spec = plan["models"][0]["ds"]
    own = {"arrays": {}, "plain": {}}
    if plan["models"][0]["model"] == "regression":
        X, y = work.reg_data(plan["models"][0])
        own["arrays"] = {"X": relayout(X, plan["order"]), "y": relayout(y, plan["order"])}
    else:
        base = work.dataset(spec)
        if getattr(base, "fields_data", None):
            fields = {k: relayout(np.array(v, float), plan["order"]) for k, v in base.fields_data.items()}
            coords = {k: np.array(v, float) for k, v in base.coords_1d.items()}
            order = list(base.axis_order)
            par = {k: relayout(np.array(v, float), plan["order"]) for k, v in (base.param_fields or {}).items()}
            own["ds"] = PDEDataset(equation_name="mine", fields_data=fields, coords_1d=coords, axis_order=order,
                                   target_field=spec.get("target", "u"), lhs_axis="t", **({"param_fields": par} if par else {}))
            own["arrays"] = {"u": fields["u"]}
            own["arrays"].update({"p_" + k: v for k, v in par.items()})
            own["arrays"].update({"f_" + k: v for k, v in fields.items()})
            own["arrays"].update({"c_" + k: v for k, v in coords.items()})
            own["plain"] = {"fields": fields, "coords": coords, "order": order, "params": par}
        else:
            x, t, u = (np.array(base.x, float), np.array(base.t, float), relayout(np.array(base.usol, float), plan["order"]))
            par = {k: relayout(np.array(v, float), plan["order"]) for k, v in (base.param_fields or {}).items()}
            own["ds"] = PDEDataset(equation_name="mine", x=x, t=t, usol=u, **({"param_fields": par} if par else {}))
            own["arrays"] = {"x": x, "t": t, "u": u}
            own["arrays"].update({"p_" + k: v for k, v in par.items()})
            own["plain"] = {"params": par}
        for f in plan["models"]:
            if f.get("entry") == "xy":
                xt, val, (lb, ub) = work.xy_data(f)
                own["arrays"].update(xt=relayout(xt, plan["order"]), val=relayout(val, plan["order"]), lb=lb, ub=ub)
    own["confs"] = [copy.deepcopy(f.get("conf")) for f in plan["models"]]
    own["opers"] = [list(f["ops"]) if f.get("ops") else None for f in plan["models"]]
    own["opers"] += [[o for o in ops if not o.startswith("n")] if ops else None for ops in own["opers"]] + \
        [[o for o in ops if o.startswith("n")] if ops else None for ops in own["opers"]]
    own["spr"] = [["add_t", "mul_t", "diff_t", "diff2_t"], ["n2_t"]]
    return own


def snapshot(own):
    """Byte-exact picture of it."""
    out = {"arrays": {k: canon(v) for k, v in own["arrays"].items()},
           "plain": {k: sorted(v) if isinstance(v, dict) else list(v) for k, v in own["plain"].items()},
           "confs": copy.deepcopy(own["confs"]), "opers": copy.deepcopy(own["opers"] + own["spr"])}
    ds = own.get("ds")
    if ds is not None:
        st = {}
        for k in ("x", "t", "usol", "fields_data", "coords_1d", "axis_order", "target_field", "lhs_axis", "param_fields", "equation_name",
                  "u", "domain", "epi", "aliases", "legacy_name", "registry_name"):
            if hasattr(ds, k):
                st[k] = canon(getattr(ds, k))
        out["ds"] = st
    return out


class Watch:
    """Cheap comparison of the arrays with their first contents."""

    def __init__(self, own):
        import numpy as np
        self.np = np
        self.pairs = [(k, v, v.copy()) for k, v in own["arrays"].items()]

    def changed(self):
        for k, v, c in self.pairs:
            if not self.np.array_equal(v, c, equal_nan=True):
                return k
        return None


def build(plan, own, i):
    from kd.model import KD_Discover, KD_Discover_Regression, KD_Discover_SPR, KD_DLGA
    f = plan["models"][i]
    m = work.make(dict(f, conf=None))
    # hand in the caller's own objects
    if f["model"] in ("discover", "regression") and own["confs"][i] is not None:
        cls = KD_Discover if f["model"] == "discover" else KD_Discover_Regression
        kw = {"config_out": own["confs"][i]}
        if f["model"] == "discover" and own["opers"][i]:
            n = len(plan["models"])
            kw["binary_operators"], kw["unary_operators"] = own["opers"][n + i], own["opers"][2 * n + i]
        m = cls(n_iterations=f["epochs"], n_samples_per_batch=f["batch"], seed=f["seed"], **kw)
    if f["model"] == "spr":
        p = m.config_pinn
        m = KD_Discover_SPR(n_iterations=f["epochs"], n_samples_per_batch=f["batch"], seed=f["seed"],
                            binary_operators=own["spr"][0], unary_operators=own["spr"][1])
        m.config_pinn.update({k: p[k] for k in ("pretrain_epoch", "pinn_epoch", "iter_num", "duration", "local_sample")})
    if f["model"] == "dlga":
        m = KD_DLGA(operators=own["opers"][i], epi=0.01, input_dim=2, max_iter=f["max_iter"])
        m.pop_size, m.n_generations = f["pop"], f["gens"]
    return m


def call(m, f, op, own):
    import numpy as np
    d = op["do"]
    if d == "fit":
        if f.get("deriv"):
            work.forget_surrogates()
        a = own["arrays"]
        data = (a["X"], a["y"]) if f["model"] == "regression" else \
            (a["xt"], a["val"], (a["lb"], a["ub"])) if f.get("entry") == "xy" else own["ds"]
        return work.record(m, f, work.do_fit(m, f, data))
    if d == "predict":
        if f["model"] == "regression":
            return canon(np.asarray(m.predict(own["arrays"]["X"])))
        grid = np.stack(np.meshgrid(own["arrays"]["x"], own["arrays"]["t"], indexing="ij"), -1).reshape(-1, 2)
        own["arrays"]["grid"] = grid
        return canon(np.asarray(m.predict(grid)))
    if d == "step":
        m.train_one_step(epoch=2, verbose=False)
    elif d == "plot":
        m.plot(op["kind"])
    elif d == "latex":
        m.equation_latex()
    elif d == "viz":
        from kd.viz.core import VizRequest, render
        o = {}
        if op["kind"] in ("residual", "field_comparison"):
            u = own["arrays"]["u"]
            if u.ndim == 2:
                o = {"actual": u, "predicted": u, "x_coords": own["arrays"].get("x", own["arrays"].get("c_x")),
                     "t_coords": own["arrays"].get("t", own["arrays"].get("c_t")), "true_field": u, "predicted_field": u}
                if op["kind"] == "residual":
                    o = {"actual": o["actual"].reshape(-1), "predicted": o["predicted"].reshape(-1)}
                else:
                    o.pop("actual"), o.pop("predicted")
        render(VizRequest(op["kind"], m, o))
    elif d == "dataset":
        ds, w = own["ds"], op["what"]
        got = {"sample": lambda: ds.sample(30), "ratio": lambda: ds.sample(0.2), "uniform": lambda: ds.sample(25, method="uniform"),
               "mesh": ds.mesh, "mesh_xy": lambda: ds.mesh(indexing="xy"), "bounds": ds.mesh_bounds, "get_data": ds.get_data,
               "derivative": lambda: ds.get_derivative("x"), "derivative_t": lambda: ds.get_derivative("t"),
               "range": lambda: ds.get_range((-1, 1), (0, 1)), "boundaries": lambda: [ds.get_boundaries(), ds.get_size()],
               "point": lambda: ds.get_datapoint(1, 2), "repr": lambda: repr(ds)}[w]()
        val = canon(got)
        if w not in ("get_data", "range", "point"):      # these show the data itself, the others are the caller's to change
            for a in got if isinstance(got, (tuple, list)) else [got]:
                if isinstance(a, np.ndarray):
                    a *= 3.0
                    a += 1.0
        return val
    return None


def run(plan, sim):
    import matplotlib.pyplot as plt
    import json
    install_linalg(sim)
    sim.install_clock()
    boot.small_pictures()
    if plan["models"][0]["model"] == "regression" or plan["models"][0]["ds"].get("nd"):
        plan = dict(plan, ops=[op for op in plan["ops"] if op["do"] != "dataset"])
    fresh_op = plan["ops"][-1] if plan["ops"] and plan["ops"][-1].get("fresh") else None

    def reference():
        own = caller(plan)
        work.ambient(11)
        m = build(plan, own, fresh_op["on"])
        work.ambient(fresh_op["seed"])
        return call(m, plan["models"][fresh_op["on"]], fresh_op, own)
    ref = sim.incarnation(reference, "fresh") if fresh_op else None
    own = caller(plan)
    first = snapshot(own)
    watch = Watch(own)
    models = {}
    struck = n = 0
    for i, op in enumerate(plan["ops"]):
        f = plan["models"][op["on"]] if "on" in op else None
        tag = "call %d (%s%s)" % (i, op["do"], " " + f["model"] if f else " " + op["what"])
        if f is not None and (op["on"] not in models or op.get("fresh")):
            work.ambient(11)
            models[op["on"]] = build(plan, own, op["on"])
        m = models.get(op.get("on"))
        if op.get("strike"):
            def twin():
                sim.install_steps()
                sim.step_no = 0
                work.ambient(op["seed"])
                try:
                    call(m, f, op, own)
                except BaseException:
                    pass
                return sim.step_no
            lines = sim.incarnation(twin, "measure%d" % i).get("value") or 1
        work.ambient(op["seed"])
        mark = len(sim.trace)
        sim.arm([op["linalg"]] if op.get("linalg") else [])
        sim.linalg_on = True
        every, bad = op["every"], []
        if every or op.get("strike"):
            sim.install_steps()
            sim.step_no = 0
            hit = sim.strike_at(max(1, int(lines * op["strike"]["frac"])), op["strike"]) if op.get("strike") else None

            def hook(no, code, line):
                if every and no % every == 0 and not bad:
                    k = watch.changed()
                    if k is not None:
                        bad.append([k, code.co_name])
                if hit is not None:
                    hit(no, code, line)
            sim.step_hook = hook
        how, val = "ok", None
        try:
            val = call(m, f, op, own)
        except BaseException as e:
            how, val = "raised", "%s: %s" % (type(e).__name__, str(e)[:100])
        sim.step_hook = None
        sim.remove_steps()
        sim.linalg_on = False
        sim.arm([])
        plt.close("all")
        hits = [ln for ln in sim.trace[mark:] if ln.startswith("fault ")]
        struck += bool(hits)
        n += 1
        sim.log(tag, how, digest(val))
        own["arrays"].pop("grid", None)
        if bad:
            sim.violate("meanwhile", "%s: the caller's %s was changed while %s ran" % (tag, bad[0][0], bad[0][1]))
        now = snapshot(own)
        if now != first:
            where = [k for k in now if now[k] != first[k]]
            what = [j for k in where if isinstance(now[k], dict) for j in now[k] if now[k][j] != first[k].get(j)]
            sim.violate("changed", "%s (%s): the caller's %s changed" % (tag, how if how == "ok" else val, ", ".join(where + what)))
            return
        if op["do"] == "dataset":
            if how == "raised":
                sim.violate("raises", "%s: nothing failed but it raised %s" % (tag, val))
                return
            alone = caller(plan)
            for whose, o in (("a fresh one", alone), ("the same again, its first answer overwritten by the caller,", own)):
                work.ambient(op["seed"])
                other = call(None, None, op, o)
                if other != val:
                    sim.violate("used", "%s gives %s, %s %s" % (tag, str(val)[:150], whose, str(other)[:150]))
        if how == "raised" and not hits and op["do"] == "fit":
            sim.violate("raises", "%s: nothing failed but it raised %s" % (tag, val))
        if op.get("fresh") and how == "ok":
            if ref["exit"] != "ok" or json.loads(json.dumps(val, default=repr)) != ref["value"]:
                sim.violate("used", "%s: on the dataset used before the result is %s, on a fresh one %s" % (tag, str(val)[:150], str(ref.get("value", ref))[:150]))
    sim.nontrivial = struck > 0 or n > 1
    sim.info["count"] = {"model:" + f["model"]: 1 for f in plan["models"]}
