"""C13: visualizations report exactly what they drew and leave everything else alone."""
import hashlib
import inspect
import io
import os
import sys

from .. import boot, work
from ..sim import _real_open, canon, digest

MODULES = boot.BASE_MODULES
TIMEOUT = 120
TIERS = {"quick": {"runs": 1200, "budget_s": 45, "selftest": 12, "min_runs": 40, "shrink_s": 40},
         "thorough": {"runs": 60000, "budget_s": 1500, "selftest": 200, "min_runs": 1000}}
RULE = ("one run = 2-7 pictures of fitted models (all intents of all models, through the facade, the plot_* functions and the "
        "older plotting modules) in one process, between changes of the configuration, with disk faults and errors or "
        "interrupts at executed lines of the drawing code; every undisturbed picture is compared byte for byte with the same "
        "picture drawn in a fresh process; non-trivial = at least two pictures were drawn and a fault struck, an older file "
        "existed or the configuration changed")
REAL = ["kd.viz (core, api, adapters, style, renderer, dlga_viz, discover_viz)", "fitted KD_SGA, KD_DLGA, KD_Discover (1-D and 2-D), KD_Discover_SPR",
        "matplotlib (Agg)"]
STUB = ["resolution lowered to 30 dpi (cost)", "file-system faults", "clock (virtual)"]
ASSUMPTIONS = ["pictures are drawn from one thread (pyplot is global)",
               "an error or interrupt does not strike inside a clean-up (a finally body), which then could not be finished"]
STATE_MEASURE = "digest of the run's event log"

FITTED = {}
SPECS = {
    "sga": {"model": "sga", "ds": {"kind": "heat", "nx": 18, "nt": 16, "seed": 1}, "seed": 3, "num": 4, "depth": 2, "width": 2, "gens": 1},
    "sgab": {"model": "sga", "ds": {"kind": "heat", "nx": 18, "nt": 16, "seed": 2}, "seed": 5, "num": 4, "depth": 2, "width": 3, "gens": 1},
    "sga2": {"model": "sga", "ds": {"nd": 2, "nx": 7, "nt": 7, "seed": 2}, "seed": 5, "num": 4, "depth": 2, "width": 2, "gens": 1},
    "sgao": {"model": "sga", "ds": {"kind": "wave", "nx": 18, "nt": 14, "seed": 2, "order": ["t", "x"], "extra": 1, "target": "v"}, "seed": 6,
             "num": 4, "depth": 2, "width": 3, "gens": 1},
    "sgaa": {"model": "sga", "ds": {"kind": "shock", "nx": 18, "nt": 16, "seed": 2}, "seed": 6, "num": 4, "depth": 2, "width": 3, "gens": 1,
             "deriv": "autograd", "max_epoch": 10},
    # a search on another grid than the data's own, of an equation that is known
    "sgag": {"model": "sga", "ds": {"kind": "wave", "nx": 18, "nt": 16, "seed": 3, "name": "kdv"}, "seed": 6, "num": 4, "depth": 2, "width": 3, "gens": 1,
             "delete_edges": True},
    "sgam": {"model": "sga", "ds": {"kind": "heat", "nx": 12, "nt": 11, "seed": 3, "name": "Burgers"}, "seed": 6, "num": 4, "depth": 2, "width": 2, "gens": 1,
             "deriv": "metadata", "max_epoch": 1000, "net": 2},
    "dlga": {"model": "dlga", "ds": {"kind": "wave", "nx": 18, "nt": 16, "seed": 1}, "seed": 3, "pop": 8, "gens": 2, "max_iter": 5,
             "ops": ["u", "u_x", "u_xx", "u_xxx"], "sample": None},
    "dlgab": {"model": "dlga", "ds": {"kind": "wave", "nx": 18, "nt": 16, "seed": 3}, "seed": 4, "pop": 8, "gens": 3, "max_iter": 8,
              "ops": ["u", "u_x", "u_xx"], "sample": 120},
    "disc": {"model": "discover", "ds": {"kind": "heat", "nx": 18, "nt": 16, "seed": 2}, "seed": 1, "batch": 20, "epochs": 2, "ops": None},
    "discb": {"model": "discover", "ds": {"kind": "wave", "nx": 22, "nt": 18, "seed": 3}, "seed": 4, "batch": 260, "epochs": 11, "ops": None},
    "discc": {"model": "discover", "ds": {"kind": "heat", "nx": 18, "nt": 16, "seed": 5}, "seed": 1, "batch": 20, "epochs": 1, "ops": None},
    "disc2": {"model": "discover", "ds": {"nd": 2, "nx": 8, "nt": 8, "seed": 1}, "seed": 2, "batch": 20, "epochs": 1, "ops": None},
    "disc3": {"model": "discover", "ds": {"nd": 3, "nx": 6, "nt": 7, "seed": 1}, "seed": 2, "batch": 10, "epochs": 1, "ops": None},
    "disco": {"model": "discover", "ds": {"nd": 2, "nx": 8, "nt": 8, "seed": 3, "order": ["t", "y", "x"]}, "seed": 3, "batch": 20, "epochs": 1, "ops": None},
    "spr": {"model": "spr", "ds": {"kind": "heat", "nx": 18, "nt": 16, "seed": 2}, "seed": 1, "batch": 10, "epochs": 1, "iters": 1,
            "ratio": 0.4, "random_state": 3},
    "sprb": {"model": "spr", "ds": {"kind": "heat", "nx": 18, "nt": 16, "seed": 4}, "seed": 2, "batch": 10, "epochs": 1, "iters": 1,
             "ratio": 0.4, "random_state": 4},
    "spr2": {"model": "spr", "ds": {"nd": 2, "nx": 7, "nt": 7, "seed": 2}, "seed": 1, "batch": 10, "epochs": 1, "iters": 1,
             "ratio": 0.4, "random_state": 3},
}
NAMES = sorted(SPECS)


MODULES_OF_KD = []
# what user code starts from
ENTRY = ["kd", "kd.model", "kd.dataset", "kd.viz", "kd.model.kd_sga", "kd.model.kd_dlga", "kd.model.kd_discover", "kd.model.kd_discover_regression"]


def available(order):
    """Which pictures each model has when the package is imported in this order, starting with none of it."""
    import importlib
    for k in [k for k in sys.modules if k == "kd" or k.startswith("kd.")]:
        del sys.modules[k]
    for name in order:
        importlib.import_module(name)
    import kd.model
    import kd.viz
    from kd.viz.registry import get_adapter
    out = {}
    for n in ("KD_SGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"):
        a = get_adapter(getattr(kd.model, n))
        out[n] = sorted(a.capabilities) if a is not None else None
    return out


def prepare(base):
    import logging
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    boot.standard_prepare(models=("discover", "spr"))
    here = os.getcwd()
    d = os.path.join(base, "fit")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    import contextlib
    for n in NAMES:
        work.ambient(7)
        with contextlib.redirect_stdout(io.StringIO()):
            if "net" in SPECS[n]:
                store(SPECS[n])
            m = work.make(SPECS[n])
            work.do_fit(m, SPECS[n])
        FITTED[n] = m
    import kd.viz
    MODULES_OF_KD[:] = sorted(k for k in sys.modules if k == "kd" or k.startswith("kd."))
    work.ambient(1)
    os.chdir(here)


def store(spec):
    """The model file a metadata fit reads."""
    import torch
    from .c06 import model_file, network
    torch.save(network(spec["net"], spec["ds"]).state_dict(), model_file(spec, spec["ds"]))


LEGACY = ["plot_evolution", "plot_density", "plot_pde_residual_analysis", "plot_field_comparison", "plot_actual_vs_predicted",
          "plot_spr_residual_analysis", "plot_spr_field_comparison", "plot_spr_actual_vs_predicted", "plot_training_loss",
          "plot_validation_loss", "plot_optimization_analysis", "plot_derivative_relationships", "plot_pde_parity",
          "plot_pde_comparison", "plot_time_slices", "plot_residual_analysis"]
KINDS = {"sga": ["equation", "field_comparison", "time_slices", "parity", "residual"],
         "dlga": ["training_curve", "validation_curve", "search_evolution", "equation", "residual", "optimization", "field_comparison",
                  "time_slices", "derivative_relationships", "parity"],
         "disc": ["search_evolution", "density", "tree", "equation", "residual", "field_comparison", "parity"],
         "spr": ["search_evolution", "density", "equation", "residual", "parity", "spr_residual", "spr_field_comparison"]}


def gen(rng, idx, tier):
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5, 7])):
        ops.append(gen_op(rng))
    plan = {"ops": ops, "stale": rng.random() < 0.35, "amb": rng.randrange(1000)}
    if rng.random() < 0.3:
        plan["imports"] = [rng.choice([rng.random(), rng.choice(ENTRY)]) for _ in range(rng.choice([1, 1, 2, 4]))]
    return plan


# the same instance fitted again, on the other one's data
REFIT = {"disc": "discc", "sga": "sgab", "dlga": "dlgab", "spr": "sprb"}
NOW = {}


def refit(m, where):
    """Fit an instance again (off the pictures' directory)."""
    import contextlib
    here = os.getcwd()
    os.makedirs(where)
    os.chdir(where)
    work.ambient(11)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            work.do_fit(FITTED[m], dict(SPECS[m], ds=SPECS[REFIT[m]]["ds"]))
    finally:
        os.chdir(here)
    NOW[m] = SPECS[REFIT[m]]["ds"]


def gen_op(rng):
    r = rng.random()
    if r < 0.12:
        op = {"do": "configure"}
        if rng.random() < 0.7:
            op["save_dir"] = rng.choice(["sd1", "sd2/deep", None])
        if rng.random() < 0.4:
            op["style"] = rng.choice([{"font.size": 7}, {"axes.labelsize": 21, "figure.titlesize": 4}, {}])
        return op
    if r < 0.19:
        m = rng.choice(sorted(REFIT))
        return {"do": "refit", "m": m}
    m = rng.choice(NAMES)
    fam = {"discover": "disc"}.get(SPECS[m]["model"], SPECS[m]["model"])
    op = {"do": "draw", "m": m, "via": rng.choice(["render", "api", "api"]), "kind": rng.choice(KINDS[fam])}
    r = rng.random()
    if r < 0.12:
        op["via"], op["kind"] = "legacy", rng.choice(LEGACY)
        if fam == "sga":
            op["m"], op["kind"] = rng.choice([m, "sgag", "sgam"]), rng.choice(["plot_results", "plot_figures"])
    elif r < 0.16:
        op["kind"] = rng.choice(["nonsense", "optimization", "tree"])
        op["via"] = "render"
    o = {}
    if rng.random() < 0.3:
        o["output_dir"] = rng.choice(["od1", "od2/deep"])
    if rng.random() < 0.15:
        o["style"] = rng.choice([{"font.size": 19}, {"axes.labelsize": 5}])
    if rng.random() < 0.15:
        o["title"] = "T é"
    if rng.random() < 0.15:
        o["figsize"] = [5, 4]
    if rng.random() < 0.1:
        o["notation"] = "leibniz"
    if rng.random() < 0.08:
        o["solution_index"] = rng.choice([0, 1, 99])
    if rng.random() < 0.1:
        o["font_size"] = 9
    if rng.random() < 0.1:
        o["top_n_terms"] = 2
    for k, vs in (("slice_axis", [0, 1]), ("slice_index", [0, 2]), ("compare", ["equation", "metadata"]), ("bins", [7]), ("cmap", ["plasma"]),
                  ("slice_count", [2]), ("max_curves", [1, 3]), ("field_label", ["F"]), ("dpi", [20])):
        if rng.random() < 0.06:
            o[k] = rng.choice(vs)
    op["opt"] = o
    op["noargs"] = rng.random() < 0.06
    r = rng.random()
    if r < 0.28:
        op["fault"] = {"on": rng.choice(["open-w", "write", "write", "close", "mkdir", "rename"]), "match": rng.choice(["*.png", "*"]),
                       "nth": rng.choice([1, 1, 2]), "times": rng.choice([1, 1, 50]), "do": rng.choice(["ENOSPC", "EIO", "EACCES"]),
                       "arg": rng.choice([0, 0.5])}
    elif r < 0.5:
        op["strike"] = {"do": rng.choice(["error", "interrupt", "memerr"]), "at": rng.choice([rng.randrange(1, 30), rng.randrange(1, 150)])}
    return op


def deep(v, depth=0):
    import dataclasses
    import pathlib
    import numpy as np
    if isinstance(v, pathlib.PurePath):
        return v.name
    if dataclasses.is_dataclass(v) and not isinstance(v, type) and depth < 6:
        return {f.name: deep(getattr(v, f.name), depth + 1) for f in dataclasses.fields(v)}
    if isinstance(v, dict):
        return {str(k): deep(x, depth + 1) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    if isinstance(v, (list, tuple)):
        return [deep(x, depth + 1) for x in v]
    if isinstance(v, np.ndarray):
        return canon(v)
    return canon(v)


def fields(m):
    import numpy as np
    ds = NOW.get(m) or SPECS[m]["ds"]
    x, t, u = work.field(ds["kind"], ds["nx"], ds["nt"], ds["seed"]) if "kind" in ds else work.field("heat", 8, 8)
    return {"x": x, "t": t, "true": u, "pred": u * 1.02 + 0.01 * np.cos(u)}


def draw(op):
    """One picture; returns what was reported."""
    import kd.viz as V
    from kd.viz import api, discover_viz, dlga_viz
    from kd.viz.core import VizRequest, render
    m = FITTED[op["m"]]
    o = dict(op["opt"])
    if "figsize" in o:
        o["figsize"] = tuple(o["figsize"])
    f = fields(op["m"])
    kind = op["kind"]
    extra = {}
    if kind in ("field_comparison", "time_slices") and not op["noargs"]:
        extra = {"x_coords": f["x"], "t_coords": f["t"], "true_field": f["true"], "predicted_field": f["pred"]}
        if kind == "time_slices":
            extra["slice_times"] = [0.2, 0.7]
        elif len(op["opt"]) % 2:
            extra["residual_field"] = f["pred"] - f["true"]
        if SPECS[op["m"]]["ds"].get("nd") == 2:
            import numpy as np
            n = 6
            g = np.linspace(0, 1, n)
            U = np.sin(3 * g)[:, None, None] * np.cos(2 * g)[None, :, None] * np.exp(-g)[None, None, :]
            extra.update(spatial_coords=[g, g], t_coords=g, true_field=U, predicted_field=U * 1.1)
            extra.pop("x_coords", None), extra.pop("residual_field", None)
    if kind == "residual" and not op["noargs"]:
        n = 60 if len(op["m"]) % 2 else None
        extra = {"actual": f["true"].reshape(-1)[:n], "predicted": f["pred"].reshape(-1)[:n]}
        if len(op["opt"]) % 2:
            extra["coordinates"] = f["pred"].reshape(-1)[:n] * 2
    if op["via"] == "legacy" and op["m"].startswith("sga"):
        if kind == "plot_results":
            m.plot_results()
        else:
            from kd.model.sga.sgapde.visualizer import plot_figures
            plot_figures(m.context_, m.config_, output_dir=o.get("output_dir", "od1").split("/")[0])
        return {"legacy": True}
    if op["via"] == "legacy":
        mod = discover_viz if hasattr(discover_viz, kind) and (not hasattr(dlga_viz, kind) or op["m"].startswith(("disc", "spr"))) else dlga_viz
        fn = getattr(mod, kind, None)
        if fn is None:
            return None
        ps = inspect.signature(fn).parameters
        have = {"model": m, "output_dir": o.get("output_dir", "od1").split("/")[0], "u_true": f["true"], "u_pred": f["pred"], "x": f["x"], "t": f["t"],
                "slice_times": [0.2, 0.7], "X_train": None, "y_train": None}
        if "best_program" in ps:
            try:
                have["best_program"] = m.searcher.best_p
            except AttributeError:
                return None
        if kind == "plot_residual_analysis":
            import numpy as np
            T, X = np.meshgrid(f["t"], f["x"])
            have["X_train"] = np.stack([X.reshape(-1), T.reshape(-1)], 1)[:50]
            have["y_train"] = f["true"].reshape(-1)[:50]
        fn(**{k: v for k, v in have.items() if k in ps})
        return {"legacy": True}
    if op["via"] == "api":
        fn = {"training_curve": api.plot_training_curve, "validation_curve": api.plot_validation_curve,
              "search_evolution": api.plot_search_evolution, "optimization": api.plot_optimization, "equation": api.render_equation,
              "time_slices": api.plot_time_slices, "residual": api.plot_residuals, "field_comparison": api.plot_field_comparison,
              "derivative_relationships": api.plot_derivative_relationships, "parity": api.plot_parity}.get(kind)
        if fn is not None and not (op["noargs"] and kind in ("time_slices", "residual", "field_comparison")):
            res = fn(m, **dict(o, **extra))
            return report(res, op, extra)
    o.update(extra)
    return report(V.render(VizRequest(kind, m, o)) if render is not None else None, op, extra)


def same(a, b):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    size = float(np.max(np.abs(b))) if b.size else 0.0
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-5, atol=1e-6 * size, equal_nan=True))     # float32 inside


def untrue(res, op, given):
    """What the result says the picture shows that is not the model's own (or the given) data."""
    import numpy as np
    m, meta, kind = FITTED[op["m"]], res.metadata or {}, res.intent
    fam = SPECS[op["m"]]["model"]
    data = next((v for k, v in sorted(meta.items()) if k in ("residual", "residual_data", "parity", "field_comparison", "field_comparison_data",
                                                             "time_slices_data", "time_slices")), None)
    a, p = getattr(data, "actual", getattr(data, "actual_values", None)), getattr(data, "predicted", getattr(data, "predicted_values", None))
    if a is not None and not same(data.residuals, np.asarray(a) - np.asarray(p)):
        return "residuals that are not actual - predicted"
    if a is not None and "rmse" in (meta.get("summary") or {}) and not same(meta["summary"]["rmse"], np.sqrt(np.mean((np.asarray(a, float) - np.asarray(p, float)) ** 2))):
        return "an error that is not that of its values"
    t, q = getattr(data, "true_field", None), getattr(data, "predicted_field", None)
    if fam == "dlga" and given and data is not None:
        for have, key in ((a, "actual"), (p, "predicted"), (t, "true_field"), (q, "predicted_field")):
            if have is not None and key in given and not same(np.ravel(have), np.ravel(given[key])):
                return "%s is not what was given" % key
    if fam == "sga":
        c = m.context_
        if kind == "parity" and a is not None:
            if not same(a, np.ravel(c.ut)) or m.best_equation_details_.predicted_rhs is not None and \
                    not same(p, np.ravel(m.best_equation_details_.predicted_rhs)):
                return "parity is not of this search"
        if kind == "residual" and a is not None and (not same(p, np.ravel(c.right_side_full)) or
                                                     not (same(a, np.ravel(c.ut)) or same(a, np.ravel(c.ut_origin)))):
            return "residuals are not of this search"
        if t is not None:
            from .c06 import raw
            r = raw(NOW.get(op["m"]) or SPECS[op["m"]]["ds"])
            axes = [x for x in r["axes"] if x != "t"] + ["t"]
            perm = [r["axes"].index(x) for x in axes]
            want = np.transpose(r["fields"][r["target"]], perm)
            at = list(data.spatial_coords) + [data.t_coords]
            for i, x in enumerate(axes):
                if not same(at[i], np.ravel(c.coords_1d[x])):
                    return "the %s axis is not that of the search" % x
                want = np.apply_along_axis(lambda v, i=i, x=x: np.interp(at[i], r["coords"][x], v), i, want)
            if not same(t, want) or not same(q, np.transpose(c.u, perm)):
                return "the fields are not those of the search and the data"
        if kind == "equation" and op["opt"].get("notation", "subscript") != "leibniz" and meta.get("latex") not in (None, m.equation_latex()):
            return "%s is not the equation" % meta["latex"]
    if fam == "dlga":
        for k, key, have in (("training_curve", "points", m.train_loss_history), ("validation_curve", "points", m.val_loss_history),
                             ("search_evolution", "generations", m.evolution_history)):
            if kind == k and key in meta and meta[key] != len(have):
                return "%s %s of %d" % (meta[key], key, len(have))
        if "optimization" in meta and not same(meta["optimization"].objective, [g["fitness"] for g in m.evolution_history]):
            return "fitness values are not those of the search"
        if kind == "equation" and not op["opt"].get("solution_index") and "latex" in meta and meta["latex"] != m.eq_latex:
            return "%s is not the equation" % meta["latex"]
    if fam in ("discover", "spr") and "reward_evolution" in meta:
        have = [float(np.max(r)) for r in m.searcher.r_train]
        if not same(meta["reward_evolution"].best_reward, np.maximum.accumulate(have)):
            return "best rewards %s of a search with %s" % (list(meta["reward_evolution"].best_reward), have)
    return None


def report(res, op, given):
    return {"untrue": untrue(res, op, given), "intent": res.intent, "paths": [os.path.relpath(os.path.abspath(str(p))) for p in res.paths], "warnings": list(res.warnings),
            "figure": res.figure is not None, "meta": digest(deep(res.metadata))}


def snap(root):
    out = {}
    for dp, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(dp, f)
            with _real_open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = hashlib.sha256(fh.read()).hexdigest()[:16]
    return out


def whole_png(path):
    try:
        with _real_open(path, "rb") as f:
            d = f.read()
    except OSError:
        return False
    return d[:8] == b"\x89PNG\r\n\x1a\n" and d[-8:-4] == b"IEND"


def settings():
    import matplotlib
    from kd.viz.core import configure
    c = configure()
    return digest({k: repr(v) for k, v in matplotlib.rcParams.items() if not k.startswith("backend")}), \
        digest([c.style, str(c.save_dir), c.backend])


def rng_state():
    import random
    import numpy as np
    import torch
    return digest([hash(random.getstate()), canon(np.random.get_state()[1]), np.random.get_state()[2], canon(torch.random.get_rng_state())])


def outcome(op):
    try:
        return "ok", draw(op)
    except BaseException as e:
        text = str(e).replace(os.getcwd(), ".").replace(os.path.realpath(os.getcwd()), ".")
        return "raised", "%s: %s" % (type(e).__name__, text[:160])


def run(plan, sim):
    import matplotlib.pyplot as plt
    from kd.viz.core import configure
    work.ambient(plan["amb"])
    boot.small_pictures()
    os.makedirs("w")
    os.makedirs("tmp")
    sim.install_tmp(os.path.abspath("tmp"))
    cfg = {"save_dir": None, "style": None}
    drawn = faulty = 0
    if plan.get("imports"):
        order = [q if isinstance(q, str) else MODULES_OF_KD[int(q * len(MODULES_OF_KD))] for q in plan["imports"]]
        got = [sim.incarnation(lambda o=o: available(o), "imports%d" % j) for j, o in enumerate((["kd.viz"], order))]
        sim.log("imports", order, got[1].get("value"))
        if got[0]["exit"] != got[1]["exit"] or got[0].get("value") != got[1].get("value"):
            sim.violate("imports", "importing %s first: the models' pictures are %s, with kd.viz first %s" %
                        (order, got[1].get("value", got[1]["exit"]), got[0].get("value", got[0]["exit"])))
    # each picture in a fresh process, before anything is drawn in this one
    refs, now = {}, dict(cfg)
    for i, op in enumerate(plan["ops"]):
        if op["do"] == "configure":
            now.update({k: op[k] for k in ("save_dir", "style") if k in op})
        if op["do"] != "draw":
            continue
        ref_dir = "ref%d" % i
        os.makedirs(ref_dir)

        def fresh(i=i, op=op, ref_dir=ref_dir, now=dict(now)):
            for j, o in enumerate(plan["ops"][:i]):
                if o["do"] == "refit" and o["m"] == op["m"]:
                    refit(o["m"], "fit%d-%d" % (j, i))
            os.chdir(ref_dir)
            configure(**{k: v for k, v in now.items() if v is not None})
            sim.install_clock()
            how, val = outcome(dict(op))
            return [how, val, snap(".")]
        refs[i] = pristine(sim, fresh, i)
    for i, op in enumerate(plan["ops"]):
        if op["do"] == "configure":
            kw = {k: op[k] for k in ("save_dir", "style") if k in op}
            configure(**kw)
            cfg.update(kw)
            sim.log("configure", kw)
            continue
        if op["do"] == "refit":
            refit(op["m"], "fit%d" % i)
            sim.log("refit", op["m"])
            continue
        tag = "picture %d (%s of %s via %s)" % (i, op["kind"], op["m"], op["via"])
        ref = refs[i]
        os.chdir("w")
        try:
            if plan["stale"]:
                for f in ref[2]:
                    os.makedirs(os.path.dirname(f) or ".", exist_ok=True)
                    if not os.path.exists(f):
                        with _real_open(f, "wb") as fh:
                            fh.write(b"OLD PICTURE")
            s0, before, figs0, rng0 = settings(), snap("."), len(plt.get_fignums()), rng_state()
            mark = len(sim.trace)
            sim.arm([op["fault"]] if op.get("fault") else [])
            sim.install_fs()
            sim.fs_on = True
            if op.get("strike"):
                sim.install_steps(prefixes=[os.path.join(boot.REPO, "kd", "viz") + os.sep])
                sim.step_no = 0
                sim.step_hook = sim.strike_at(op["strike"]["at"], op["strike"], spare_cleanup=True)
            how, val = outcome(op)
            sim.step_hook = None
            sim.remove_steps()
            sim.arm([])
            sim.fs_on = False
            after = snap(".")
            hit = any(ln.startswith("fault ") for ln in sim.trace[mark:])
            faulty += hit
            sim.log(tag, how, val if how == "raised" else (val and (val.get("paths"), val.get("warnings"), val.get("meta"))))
            judge(sim, tag, op, cfg, ref, how, val, before, after, hit)
            if settings()[0] != s0[0]:
                sim.violate("style", "%s: the process's matplotlib settings are changed afterwards" % tag)
            if settings()[1] != s0[1]:
                sim.violate("config", "%s: the visualization configuration is changed afterwards" % tag)
            if not hit and how == "ok" and len(plt.get_fignums()) > figs0:
                sim.violate("figures", "%s: left %d figures open" % (tag, len(plt.get_fignums()) - figs0))
            if not hit and rng_state() != rng0:
                sim.violate("random", "%s: drew from the process's random generators" % tag)
            drawn += how == "ok"
        finally:
            os.chdir("..")
    sim.nontrivial = drawn >= 2 and (faulty > 0 or plan["stale"] or any(o["do"] == "configure" for o in plan["ops"]))
    sim.info["count"] = {"pictures drawn": drawn}


def pristine(sim, fn, i):
    """Run fn where nothing was drawn or configured yet."""
    from kd.viz.core import configure
    import matplotlib

    def go():
        import matplotlib.pyplot as plt
        plt.close("all")
        matplotlib.rcParams.update(RC0)
        configure(style={}, save_dir=None)
        return fn()
    if not RC0:
        RC0.update(matplotlib.rcParams.copy())
    res = sim.incarnation(go, "fresh%d" % i)
    if res["exit"] != "ok":
        raise RuntimeError("reference failed: %s" % res)
    return res["value"]


RC0 = {}


def judge(sim, tag, op, cfg, ref, how, val, before, after, hit):
    rhow, rval, rfiles = ref
    base = op["opt"].get("output_dir") or (cfg["save_dir"] if op["via"] != "legacy" else "od1")
    if op["kind"] == "plot_results":
        base = "artifacts"      # where that method always draws
    changed = sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f))
    for f in changed:
        if base and not (f + os.sep).startswith(base.split("/")[0] + os.sep):
            sim.violate("outside", "%s: changed %s, pictures belong under %s" % (tag, f, base))
        elif f not in rfiles and not hit:
            sim.violate("outside", "%s: changed %s, a fresh process changes %s" % (tag, f, sorted(rfiles)))
    if how == "ok" and val is not None and not val.get("legacy"):
        for p in val["paths"]:
            if not whole_png(p):
                sim.violate("missing", "%s: reports %s, which is %s" % (tag, p, "no complete picture" if os.path.exists(p) else "not there"))
            elif p not in after or after[p] != rfiles.get(p):
                if rhow == "ok":
                    sim.violate("picture", "%s: reports %s, but it is not the picture of this model" % (tag, p))
            if base and not os.path.abspath(p).startswith(os.path.abspath(base) + os.sep):
                sim.violate("outside", "%s: reports %s outside %s" % (tag, p, base))
        if val["untrue"] and not hit:
            sim.violate("untrue", "%s: %s" % (tag, val["untrue"]))
        if not val["paths"] and not val["warnings"] and not val["figure"]:
            sim.violate("silent", "%s: neither a picture nor a warning" % tag)
    if hit:
        return
    if how != rhow:
        sim.violate("history", "%s: %s, in a fresh process: %s" % (tag, (how, val), (rhow, rval)))
        return
    if how == "raised":
        if op["via"] != "legacy" and not op["noargs"] and op["kind"] not in ("nonsense",):
            sim.violate("raises", "%s: nothing failed but it raised %s" % (tag, val))
        return
    if val != rval:
        sim.violate("history", "%s: reports %s, in a fresh process %s" % (tag, val, rval))
    for f, d in rfiles.items():
        if after.get(f) != d:
            sim.violate("picture", "%s: %s differs from the picture a fresh process draws" % (tag, f))
