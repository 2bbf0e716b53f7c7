"""Small complete workloads for each estimator, and canonical result records."""
import copy
import random

from .sim import canon


def field(kind, nx, nt, seed=0):
    """A smooth analytic field on a grid; distinct (kind, seed) are distinct."""
    import numpy as np
    x = np.linspace(-2.0, 2.0, nx)
    t = np.linspace(0.1, 1.1, nt)
    X, T = np.meshgrid(x, t, indexing="ij")
    a = 1.0 + 0.13 * (seed % 7)
    if kind == "heat":
        u = np.exp(-a * T) * np.sin(1.3 * X) + 0.5 * np.exp(-0.3 * a * T) * np.cos(0.7 * X)
    elif kind == "wave":
        u = np.sin(X - a * T) + 0.4 * np.sin(2 * X + 0.5 * a * T)
    elif kind == "shock":
        u = -np.tanh((X - 0.4 * T) * 1.7 * a) + 0.1 * np.cos(X)
    elif kind == "zeros":
        # contains exact zeros: an antisymmetric profile sampled on a symmetric grid
        u = X * np.exp(-a * T) * (X ** 2 - 1.0)
        u[np.abs(u) < 1e-12] = 0.0
    elif kind == "edge":
        # identically zero near the boundaries (compact support)
        u = np.where(np.abs(X) < 1.2, np.cos(X * np.pi / 2.4) ** 2, 0.0) * np.exp(-0.2 * a * T)
    else:
        raise ValueError(kind)
    return x, t, u


KINDS = ["heat", "wave", "shock", "zeros", "edge"]


def dataset(spec):
    """spec: {"kind","nx","nt","seed","nd"?}"""
    import numpy as np
    from kd.dataset import PDEDataset
    if spec.get("nd") == 2:
        n, nt = spec.get("nx", 10), spec.get("nt", 10)
        x = np.linspace(-1, 1, n)
        y = np.linspace(-1, 1, n + 1)
        t = np.linspace(0, 1, nt)
        X, Y, T = np.meshgrid(x, y, t, indexing="ij")
        a = 1.0 + 0.1 * (spec.get("seed", 0) % 5)
        u = np.exp(-a * T) * np.sin(1.1 * X) * np.cos(0.9 * Y) + 0.1 * X
        return _structured("sim2d", {"u": u}, {"x": x, "y": y, "t": t}, spec)
    if spec.get("nd") == 3:
        n, nt = spec.get("nx", 6), spec.get("nt", 7)
        c = {"x": np.linspace(-1, 1, n), "y": np.linspace(-1, 1, n + 1), "z": np.linspace(0, 1, n), "t": np.linspace(0, 1, nt)}
        X, Y, Z, T = np.meshgrid(*c.values(), indexing="ij")
        a = 1.0 + 0.1 * (spec.get("seed", 0) % 5)
        u = np.exp(-a * T) * np.sin(1.1 * X) * np.cos(0.9 * Y) * (1 + 0.4 * Z) + 0.1 * X
        return _structured("sim3d", {"u": u}, c, spec)
    x, t, u = field(spec["kind"], spec["nx"], spec["nt"], spec.get("seed", 0))
    if spec.get("scale"):
        u = u * spec["scale"]
    if spec.get("extra"):
        # a second measured field on the same grid
        v = np.cos(0.8 * x)[:, None] * (1.0 + 0.5 * t)[None, :] + 0.2 * u
        if spec["extra"] == 2:
            v = np.zeros_like(u)        # a field that happens to be zero
        return _structured("sim_" + spec["kind"] + "_uv", {"u": u, "v": v}, {"x": x, "t": t}, spec)
    if spec.get("order"):
        return _structured("sim_" + spec["kind"], {"u": u}, {"x": x, "t": t}, spec)
    # "name": that of one of the built-in benchmarks, whose equation is known
    kw = {"param_fields": {"k": _param(x, t)}} if spec.get("param") else {}
    return PDEDataset(equation_name=spec.get("name") or "sim_" + spec["kind"], x=x, t=t, usol=u, **kw)


def _param(*coords):
    import numpy as np
    grids = np.meshgrid(*coords, indexing="ij")
    return 0.5 + 0.3 * np.sin(0.9 * grids[0]) + 0.05 * grids[-1]


def _structured(name, fields, coords, spec):
    """spec options: "order" of the axes, "target" field, "param": a parameter field k."""
    import numpy as np
    from kd.dataset import PDEDataset
    axes = list(coords)
    kw = {}
    if spec.get("param"):
        kw["param_fields"] = {"k": _param(*[coords[a] for a in axes])}
    order = spec.get("order")
    if order:
        perm = [axes.index(a) for a in order]
        fields = {k: np.transpose(v, perm).copy() for k, v in fields.items()}
        if kw:
            kw["param_fields"] = {k: np.transpose(v, perm).copy() for k, v in kw["param_fields"].items()}
        axes = list(order)
    return PDEDataset(equation_name=name, fields_data=fields, coords_1d={a: coords[a] for a in axes},
                      axis_order=axes, target_field=spec.get("target", "u"), lhs_axis="t", **kw)


def ds_state(ds):
    """Every array a dataset object holds, canonically."""
    out = {}
    for k, v in sorted(vars(ds).items()):
        if k.startswith("_"):
            continue
        out[k] = canon(v)
    return out


# ---------------------------------------------------------------- estimators

def gen_ds(rng, nd=False, small=True):
    return {"kind": rng.choice(KINDS), "nx": rng.choice([18, 20, 23]), "nt": rng.choice([14, 16, 19]),
            "seed": rng.randrange(7)}


SPR_OPTS = [{"noise_level": 0.05}, {"data_ratio": 0.5}, {"cut_quantile": 0.1}, {"spline_sample": True},
            {"spline_sample": True, "data_ratio": 0.4}, {"noise_level": 0.1, "data_ratio": 0.6, "cut_quantile": 0.15}]


def gen_fit(rng, models=("sga", "discover", "regression", "spr", "dlga")):
    m = rng.choice(list(models))
    f = {"model": m, "ds": gen_ds(rng), "seed": rng.randrange(1000)}
    if m == "sga":
        f.update(num=rng.choice([4, 6]), depth=rng.choice([2, 3]), width=rng.choice([2, 3]),
                 gens=rng.choice([1, 2, 3]), delete_edges=rng.random() < 0.3)
    elif m == "discover":
        f.update(batch=rng.choice([15, 25]), epochs=rng.choice([1, 2, 3]),
                 ops=rng.choice([None, ["add", "mul", "diff", "diff2", "n2"],
                                 ["add", "sub", "mul", "div", "diff", "diff2", "diff3", "n2", "n3"]]))
        if rng.random() < 0.15:
            f["ds"] = {"nd": 2, "nx": 8, "nt": 8, "seed": rng.randrange(5)}
            f["ops"] = None
            if rng.random() < 0.5:
                f["ds"]["order"] = rng.sample(["x", "y", "t"], 3)
        if rng.random() < 0.15:
            f["ds"]["param"] = 1
    elif m == "regression":
        f.update(batch=rng.choice([12, 20]), epochs=rng.choice([1, 2]))
        f["ds"]["cols"] = rng.choice([1, 2, 2, 3])
        f["ds"]["rows"] = rng.choice([20, 30, 30, 41])
    elif m == "spr":
        f.update(batch=rng.choice([10, 15]), epochs=1, iters=rng.choice([1, 2]),
                 ratio=rng.choice([0.3, 0.5]), random_state=rng.randrange(100))
        r = rng.random()
        if r < 0.15:
            f["ds"] = {"nd": 2, "nx": 7, "nt": 7, "seed": rng.randrange(5)}
            if rng.random() < 0.5:
                f["ds"]["order"] = rng.sample(["x", "y", "t"], 3)
        elif r < 0.3:
            f["entry"] = "xy"
        elif r < 0.5:
            f["opts"] = rng.choice(SPR_OPTS)
        f["local"] = rng.random() < 0.5
    elif m == "dlga":
        f.update(pop=rng.choice([8, 10, 12]), gens=rng.choice([1, 2, 3]),
                 max_iter=rng.choice([3, 7, 12]), ops=rng.choice([["u", "u_x", "u_xx", "u_xxx"],
                                                                  ["u", "u_x", "u_xx"]]),
                 sample=rng.choice([None, 120, 150]))
    return f


def sibling(rng, f):
    """The same fit in all but the values: what a cache may take for the same."""
    g = copy.deepcopy(f)
    if rng.random() < 0.8:
        g["ds"]["seed"] = rng.randrange(9)
    if rng.random() < 0.4:
        g["seed"] = rng.randrange(1000)
    return g


def gen_sga_ds(rng):
    """Data for SGA: also a second field, a parameter field, more dimensions, axes in another order."""
    r = rng.random()
    if r < 0.12:
        return dict({"nd": 2, "nx": 6, "nt": 7, "seed": rng.randrange(5)}, **({"order": rng.sample(["x", "y", "t"], 3)} if rng.random() < 0.5 else {}))
    ds = gen_ds(rng)
    if r < 0.3:
        ds["extra"] = 1
        if rng.random() < 0.5:
            ds["target"] = "v"
    if rng.random() < 0.25:
        ds["param"] = 1
    if rng.random() < 0.2:
        ds["order"] = ["t", "x"]
    elif not ds.get("extra") and rng.random() < 0.2:
        ds["name"] = rng.choice(BENCHMARKS)
    return ds


BENCHMARKS = ["kdv", "burgers", "chafee-infante", "KdV_equation", "Burgers2"]


def surrogate(rng, f):
    """Let this SGA fit take its derivatives from a network it trains."""
    f["deriv"], f["max_epoch"], f["gens"] = "autograd", rng.choice([4, 15]), min(f["gens"], 2)


def forget_surrogates():
    """A stored surrogate is an input of a fit; a fresh directory holds none."""
    import glob
    import os
    for p in glob.glob("*_Adam.pkl"):
        os.remove(p)


def make(f):
    m = f["model"]
    if m == "sga":
        from kd.model import KD_SGA
        return KD_SGA(sga_run=f["gens"], num=f["num"], depth=f["depth"], width=f["width"],
                      seed=f["seed"], delete_edges=bool(f.get("delete_edges")),
                      use_autograd=f.get("deriv") == "autograd", max_epoch=f.get("max_epoch", 100000),
                      use_metadata=f.get("deriv") == "metadata")
    if m == "discover":
        from kd.model import KD_Discover
        kw = {}
        if f.get("ops"):
            ops = f["ops"]
            kw["binary_operators"] = [o for o in ops if not o.startswith("n")]
            kw["unary_operators"] = [o for o in ops if o.startswith("n")]
        if f.get("conf"):
            kw["config_out"] = copy.deepcopy(f["conf"])
        return KD_Discover(n_iterations=f["epochs"], n_samples_per_batch=f["batch"], seed=f["seed"], **kw)
    if m == "regression":
        from kd.model import KD_Discover_Regression
        kw = {"config_out": copy.deepcopy(f["conf"])} if f.get("conf") else {}
        return KD_Discover_Regression(n_iterations=f["epochs"], n_samples_per_batch=f["batch"], seed=f["seed"], **kw)
    if m == "spr":
        from kd.model import KD_Discover_SPR
        mod = KD_Discover_SPR(n_iterations=f["epochs"], n_samples_per_batch=f["batch"], seed=f["seed"],
                              binary_operators=["add_t", "mul_t", "diff_t", "diff2_t"], unary_operators=["n2_t"])
        p = mod.config_pinn
        p["pretrain_epoch"] = f.get("pre", 6)
        p["pinn_epoch"] = f.get("pinn", 3)
        p["iter_num"] = f["iters"]
        p["duration"] = 5
        p["local_sample"] = bool(f.get("local", True))
        return mod
    if m == "dlga":
        from kd.model import KD_DLGA
        mod = KD_DLGA(operators=list(f["ops"]), epi=0.01, input_dim=2, verbose=bool(f.get("verbose", True)),
                      max_iter=f["max_iter"])
        mod.pop_size = f["pop"]
        mod.n_generations = f["gens"]
        return mod
    raise ValueError(m)


def reg_data(f):
    import numpy as np
    r = np.random.RandomState(f["ds"]["seed"] + 17)
    X = r.uniform(-1.5, 1.5, (f["ds"].get("rows", 30), f["ds"].get("cols", 2)))
    y = 1.2 * X[:, 0] ** 2 - 0.7 * X[:, -1] + 0.3 + 0.05 * f["ds"]["seed"] * X[:, 0]
    return X, y


def xy_data(f):
    """Scattered measurements and their domain, for the entry point without a dataset object."""
    import numpy as np
    r = np.random.RandomState(f["ds"].get("seed", 0) + 29)
    lb, ub = np.array([-2.0, 0.1]), np.array([2.0, 1.1])
    xt = lb + (ub - lb) * r.uniform(0, 1, (80, 2))
    a = 1.0 + 0.13 * (f["ds"].get("seed", 0) % 7)
    return xt, np.sin(1.3 * xt[:, :1]) * np.exp(-a * xt[:, 1:]), (lb, ub)


def do_fit(mod, f, ds=None):
    """Run the estimator's public fit entry point; returns its return value."""
    m = f["model"]
    if m == "spr" and f.get("entry") == "xy":
        xt, val, dom = ds if isinstance(ds, tuple) else xy_data(f)
        return mod.fit(xt, val, dom, n_epochs=f["epochs"], verbose=False)
    if m == "regression":
        X, y = ds if ds is not None else reg_data(f)
        return mod.fit(X, y)
    ds = ds if ds is not None else dataset(f["ds"])
    if m == "sga":
        return mod.fit_dataset(ds)
    if m == "discover":
        return mod.fit_dataset(ds, n_epochs=f["epochs"], verbose=False)
    if m == "spr":
        return mod.fit_dataset(ds, n_epochs=f["epochs"], verbose=False, sample_ratio=f["ratio"],
                               colloc_num=40, random_state=f["random_state"], **(f.get("opts") or {}))
    if m == "dlga":
        return mod.fit_dataset(ds, sample=f["sample"])
    raise ValueError(m)


def record(mod, f, ret):
    """What the user gets: equation, score, history, as exact values."""
    import numpy as np
    m = f["model"]
    if m == "sga":
        return canon({"pde": mod.best_pde_, "score": float(mod.best_score_),
                      "latex": _try(mod.equation_latex)})
    if m in ("discover", "spr"):
        s = mod.searcher
        p = ret["program"]
        return canon({"expr": ret["expression"], "r": float(ret["r"]), "traversal": ret["traversal"],
                      "best": float(s.r_best), "coef": np.asarray(p.w, dtype=float),
                      "history": [np.asarray(h, dtype=float) for h in s.r_history],
                      "queue": [str(i[0]) for i in s.pq.iter_in_order()]})
    if m == "regression":
        X, y = reg_data(f)
        return canon({"expr": ret["expression"], "reward": ret["reward"], "mse": ret["mse"],
                      "constants": ret["constants"], "pred": np.asarray(mod.predict(X))})
    if m == "dlga":
        return canon({"latex": mod.eq_latex, "chrom": mod.Chrom[0], "coef": np.asarray(mod.coef[0]),
                      "fitness": float(mod.Fitness[0]), "lhs": mod.name[0],
                      "train": mod.train_loss_history, "val": mod.val_loss_history,
                      "fit_hist": [float(v) for v in mod.fitness_history],
                      "evo": mod.evolution_history,
                      "epoch": int(mod.best_epoch),
                      "pred": mod.predict(np.asarray([[0.1, 0.3], [-0.4, 0.8]]))})
    raise ValueError(m)


def _try(fn):
    try:
        return fn()
    except Exception as e:
        return "raised " + type(e).__name__


def fit_record(f, ds=None, mod=None):
    mod = mod or make(f)
    ret = do_fit(mod, f, ds)
    return record(mod, f, ret)


def ambient(seed):
    """Seed the process-global generators (a perturbation, or for DLGA the seed)."""
    import numpy as np
    import torch
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    torch.manual_seed(seed)
