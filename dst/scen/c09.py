"""C09: loading data is exact or fails openly, whatever was loaded, changed or failed before."""
import contextlib
import copy
import io
import os
import warnings

from .. import boot, threads, work
from ..sim import _real_open, canon, digest

MODULES = boot.BASE_MODULES
TIMEOUT = 60
TIERS = {"quick": {"runs": 4000, "budget_s": 26, "selftest": 14, "min_runs": 150, "shrink_s": 40},
         "thorough": {"runs": 300000, "budget_s": 1200, "selftest": 200, "min_runs": 4000}}
RULE = ("one run = 3-10 loads (built-in datasets, regression tables, the users' own .mat/.npy/.npz/.csv files, through every loading entry point) "
        "in one process or in 2-3 simulated threads, between changes of earlier results, replaced files and directory changes, under unreadable, "
        "vanished or shortened files and errors or interrupts at executed lines; every undisturbed result is compared with what the file says, read "
        "independently, and its metadata with a fresh process; non-trivial = a fault struck, an earlier result was changed, a file was replaced or threads were switched")
REAL = ["kd.dataset (registry, loaders, PDEDataset)", "kd.runner.load_dataset", "scipy.io, numpy, csv readers"]
STUB = ["file-system faults on reading", "errors at executed lines", "thread scheduling"]
ASSUMPTIONS = ["a disk returns an error or a shortened file, not altered bytes"]
STATE_MEASURE = "digest of the run's event log"

# what the shipped files contain: name -> (field file, field key, x, t)
TABLE = {
    "chafee-infante": ("chafee_infante_CI.npy", None, "chafee_infante_x.npy", "chafee_infante_t.npy"),
    "burgers": ("burgers2.mat", "usol", "x", "t"),
    "burgers-reflib": ("burgers_reflib.mat", "usol", "x", "t"),
    "kdv": ("KdV_equation.mat", "uu", "x", "tt"),
    "PDE_divide": ("PDE_divide.npy", None, (1.0, 2.0, 100), (0.0, 1.0, 251)),
    "PDE_compound": ("PDE_compound.npy", None, (1.0, 2.0, 100), (0.0, 0.5, 251)),
    "fisher": ("fisher_nonlin_groundtruth.mat", "U", "x", "t"),
    "fisher_linear": ("fisher_groundtruth.mat", "U", "x", "t"),
    "@burgers": ("burgers2.mat", "usol", "x", "t"),
    "@kdv": ("KdV_equation.mat", "uu", "x", "tt"),
}
REG = {"tlc_cc_t1": "tlc_cc_Rf_t1.npy", "tlc_cc_t2": "tlc_cc_Rf_t2.npy"}
EXPECT = {}
RAW = {}


def data_dir():
    return os.path.join(boot.REPO, "kd", "dataset", "data")


def prepare(base):
    import numpy as np
    import scipy.io
    boot.warm_torch()
    import kd.dataset  # noqa: F401
    import kd.runner  # noqa: F401
    d = data_dir()
    for name, (f, key, xs, ts) in TABLE.items():
        if f.endswith(".npy"):
            u = np.load(os.path.join(d, f))
        else:
            m = scipy.io.loadmat(os.path.join(d, f))
            u = m[key]
        if isinstance(xs, tuple):
            x, t = np.linspace(*xs), np.linspace(*ts)
            if u.shape == (len(t), len(x)):
                u = u.T
            u = u.reshape(len(x), len(t))
        else:
            x, t = (np.load(os.path.join(d, xs)), np.load(os.path.join(d, ts))) if key is None else (m[xs], m[ts])
            x, t = np.asarray(x, float).ravel(), np.asarray(t, float).ravel()
            if u.shape != (len(x), len(t)):
                u = u.T
        EXPECT[name] = [arr(x), arr(t), arr(np.real(u))]
    for name, f in REG.items():
        a = np.load(os.path.join(d, f))
        EXPECT[name] = [arr(a[:, :2]), arr(a[:, 2])]


def arr(v):
    import numpy as np
    v = np.asarray(v)
    if np.iscomplexobj(v):
        return digest(["complex", list(v.shape), canon(np.ascontiguousarray(v))])
    return digest([list(v.shape), canon(np.ascontiguousarray(v, dtype=np.float64))])


# ---------------------------------------------------------------- plans

VIA = {"mat": ["loader", "loader-name", "mat_file", "pde_dataset", "runner", "runner"], "npy": ["loader", "loader-name", "runner"],
       "npz": ["loader"], "csv": ["loader", "csv"]}


def gen_file(rng, k):
    fmt = rng.choice(["mat", "mat", "mat", "npy", "npy", "npz", "csv"])
    nx = rng.choice([5, 8, 12])
    f = {"fmt": fmt, "nx": nx, "nt": rng.choice([5, 8, 12, nx]), "seed": rng.randrange(9), "T": rng.random() < 0.35,
         "dtype": rng.choice(["f8", "f8", "f8", "f4", "i4", "c16"]), "keys": rng.random() < 0.4, "row": rng.random() < 0.5,
         "order": rng.choice(["C", "F"]), "dir": rng.choice(["up", "up/sub dir", "up/données"]), "name": rng.choice(["a", "b c", "ü"]) + str(k),
         "zip": rng.random() < 0.3, "domain": rng.random() < 0.5}
    if fmt in ("npz", "csv"):
        f["dtype"] = "f8"
    return f


def gen_op(rng, files):
    r = rng.random()
    op = {}
    if r < 0.34:
        op = {"do": "load", "name": rng.choice([n for n in TABLE])}
    elif r < 0.42:
        op = {"do": "reg", "name": rng.choice(sorted(REG))}
    elif r < 0.72 and files:
        k = rng.randrange(len(files))
        op = {"do": "file", "k": k, "via": rng.choice(VIA[files[k]["fmt"]])}
    elif r < 0.8:
        return {"do": "draw", "back": rng.choice([1, 1, 2, 3]), "seed": rng.randrange(1000), "n": rng.choice([7, 25, 0.1, 0.5]),
                "what": rng.choice(["random", "random", "uniform", "mesh", "mesh", "range", "point", "data", "derivative"])}
    elif r < 0.84:
        nx = rng.choice([4, 6, 9])
        return {"do": "nd", "order": rng.choice([["x", "t"], ["t", "x"]]), "nx": nx, "nt": rng.choice([5, 6, nx]), "seed": rng.randrange(9),
                "two": rng.random() < 0.5, "lhs": rng.choice(["t", "t", "x"])}
    elif r < 0.89:
        return {"do": "mutate", "back": rng.choice([1, 1, 2, 3]), "what": rng.choice(["u", "x", "t", "domain", "domain", "aliases", "meta"])}
    elif r < 0.92:
        return {"do": "chdir", "to": rng.choice(["w1", "w2", "."])}
    elif r < 0.96 and files:
        return {"do": "rewrite", "k": rng.randrange(len(files)), "seed": rng.randrange(10, 99)}
    else:
        return {"do": "bad", "what": rng.choice(["name", "reg", "missing", "keys", "ext", "shape"])}
    r = rng.random()
    if r < 0.3:
        op["io"] = {"on": "open-r", "match": rng.choice(["*", "*", "*.mat", "*_t.npy", "*_x.npy"]), "nth": rng.choice([1, 1, 2, 3]), "times": rng.choice([1, 1, 100]),
                    "do": rng.choice(["EIO", "ENOENT", "EACCES", "truncate", "truncate"]), "arg": rng.choice([0, 0.01, 0.3, 0.7, 0.97])}
    elif r < 0.45:
        op["strike"] = {"do": rng.choice(["error", "interrupt", "memerr"]), "at": rng.randrange(1, rng.choice([6, 20, 60]))}
    return op


def gen(rng, idx, tier):
    files = [gen_file(rng, k) for k in range(rng.choice([0, 1, 2, 2]))]
    n = rng.choice([1, 1, 1, 2, 2, 3])
    plan = {"files": files, "threads": n, "ops": [], "amb": rng.randrange(1000)}
    hot = rng.choice([None, None] + sorted(TABLE))
    for _ in range(rng.choice([3, 4, 6, 8, 10])):
        op = gen_op(rng, files)
        if hot and op["do"] == "load" and rng.random() < 0.7:
            op["name"] = hot
        if n > 1:
            if op["do"] in ("chdir", "rewrite"):
                continue              # a thread may not pull the rug from under another
            op.pop("strike", None)
            op["s"] = rng.randrange(n)
        plan["ops"].append(op)
    if n > 1:
        plan["sched"] = threads.gen_sched(rng, rng.choice([6, 20, 60, 120]), rng.choice([8, 40]))
    return plan


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for k in ("io", "strike"):
            if k in op:
                c = copy.deepcopy(plan)
                del c["ops"][i][k]
                yield c
    if plan["threads"] > 1:
        c = copy.deepcopy(plan)
        c["threads"] = 1
        c.pop("sched")
        for op in c["ops"]:
            op.pop("s", None)
        yield c


# ---------------------------------------------------------------- the users' files

def path_of(w, f):
    return os.path.join(w.root, f["dir"], "%s.%s" % (f["name"], f["fmt"]))


def content(f):
    import numpy as np
    r = np.random.RandomState(f["seed"])
    u = np.round(r.uniform(-3, 3, (f["nx"], f["nt"])) * 64) / 64
    if f["dtype"] == "i4":
        u = np.round(u)
    x, t = np.linspace(-1, 2, f["nx"]) ** 3, np.linspace(0, 1.5, f["nt"]) ** 2
    return x, t, u


def keys_of(f):
    return ("space", "tt", "field") if f["keys"] else ("x", "t", "usol")


def write_file(w, f):
    import numpy as np
    import scipy.io
    p = path_of(w, f)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    x, t, u = content(f)
    s = u.T if f["T"] else u
    s = np.asarray(s.astype(np.dtype(f["dtype"])), order=f["order"])
    k = keys_of(f)
    if f["fmt"] == "mat":
        with _real_open(p, "wb") as fh:
            scipy.io.savemat(fh, {k[0]: x.reshape(1, -1) if f["row"] else x.reshape(-1, 1), k[1]: t, k[2]: s, "other": np.eye(2)},
                             do_compression=f["zip"])
    elif f["fmt"] == "npy":
        with _real_open(p, "wb") as fh:
            np.save(fh, s)
    elif f["fmt"] == "npz":
        with _real_open(p, "wb") as fh:
            (np.savez_compressed if f["zip"] else np.savez)(fh, x=x, t=t, usol=s)
    else:
        with _real_open(p, "w", encoding="utf-8") as fh:
            fh.write("x,ü,z\n")
            for row in s:
                fh.write(",".join(repr(float(v)) for v in row) + "\n")


def wanted(f, via):
    """What this file says, in the terms of that entry point."""
    import numpy as np
    x, t, u = content(f)
    stored = (u.T if f["T"] else u).astype(np.dtype(f["dtype"]))
    if via in ("pde_dataset", "runner"):
        if f["fmt"] == "npy":
            lo, hi = ((-2.0, 2.0), (0.5, 1.5)) if f["domain"] else ((0, 1), (0, 1))
            x, t = np.linspace(*lo, f["nx"]), np.linspace(*hi, f["nt"])
        # a square field is taken as stored: rows are positions
        if f["T"] and f["nx"] == f["nt"]:
            u = u.T
        return {"x": arr(x), "t": arr(t), "usol": arr(np.real(u.astype(np.dtype(f["dtype"]))))}
    if f["fmt"] == "mat":
        k = keys_of(f)
        return {"keys": sorted(list(k) + ["other"]), "x": arr(x), "t": arr(t), "usol": arr(stored)}
    if f["fmt"] == "npz":
        return {"keys": ["t", "usol", "x"], "x": arr(x), "t": arr(t), "usol": arr(stored)}
    if f["fmt"] == "csv":
        return {"table": arr(stored.astype(np.float32))}
    return {"table": arr(stored)}


# ---------------------------------------------------------------- the calls

class World:
    pass


def perform(w, op):
    """Returns (object, report)."""
    import kd.dataset as kds
    from kd.dataset import _base
    d = op["do"]
    if d == "load":
        if op["name"] == "@burgers":
            ds = kds.load_burgers_equation()
        elif op["name"] == "@kdv":
            ds = kds.load_kdv_equation()
        else:
            ds = kds.load_pde(op["name"])
        return ds, report(ds)
    if d == "reg":
        X, y, meta = kds.load_regression(op["name"])
        return (X, y, meta), {"X": arr(X), "y": arr(y), "meta": canon(meta)}
    if d == "file":
        f, via = w.files[op["k"]], op["via"]
        p, k = path_of(w, f), keys_of(f)
        if via == "loader":
            v = _base.PDEDataLoader(os.path.dirname(p)).load_data(file=p)
        elif via == "loader-name":
            v = _base.PDEDataLoader(os.path.dirname(p)).load_data(f["name"])
        elif via == "mat_file":
            v = _base.load_mat_file(p)
        elif via == "csv":
            v = _base.load_csv_data(p)
        elif via == "pde_dataset":
            v = _base.load_pde_dataset(p, "mine", *k)
        else:
            from kd.runner import load_dataset
            fc = {}
            if f["fmt"] == "npy":
                fc["shape"] = [f["nx"], f["nt"]]
                if f["domain"]:
                    fc["domain"] = {"x": [-2.0, 2.0], "t": [0.5, 1.5]}
            elif f["keys"]:
                fc = {"x_key": k[0], "t_key": k[1], "u_key": k[2]}
            v = load_dataset({"dataset_file": p, "file_config": fc})
        if v is None:
            return None, None
        if via in ("pde_dataset", "runner"):
            return v, {"x": arr(v.x), "t": arr(v.t), "usol": arr(v.usol)}
        if f["fmt"] in ("mat", "npz"):
            v = {q: v[q] for q in (v.files if hasattr(v, "files") else v)}
            k = k if f["fmt"] == "mat" else ("x", "t", "usol")
            return v, {"keys": sorted(v), "x": arr(v[k[0]].ravel()), "t": arr(v[k[1]].ravel()), "usol": arr(v[k[2]])}
        return v, {"table": arr(v)}
    if d == "bad":
        if op["what"] == "name":
            return None, report(kds.load_pde("no such dataset"))
        if op["what"] == "reg":
            return None, kds.load_regression("nothing")
        if op["what"] == "missing":
            return None, _base.PDEDataLoader("up").load_data(file="up/none.mat")
        if op["what"] == "ext":
            from kd.runner import load_dataset
            with _real_open("odd.txt", "w") as fh:
                fh.write("1 2 3")
            return None, load_dataset({"dataset_file": "odd.txt"})
        if op["what"] == "keys":
            return None, _base.load_pde_dataset("burgers2.mat", u_key="nonsense")
        return None, _base.load_pde_dataset("KdV_equation.mat", x_key="tt", t_key="tt", u_key="uu")
    raise ValueError(d)


def report(ds):
    if ds is None:
        return None
    return {"x": arr(ds.x), "t": arr(ds.t), "usol": arr(ds.usol), "u": arr(ds.u),
            "meta": canon([ds.equation_name, ds.domain, ds.epi, getattr(ds, "registry_name", None), getattr(ds, "aliases", None),
                           getattr(ds, "legacy_name", None), list(ds.get_size()), sorted(ds.get_boundaries().items())])}


def change(obj, what):
    """The owner of a loaded dataset does with it what he likes."""
    if isinstance(obj, tuple):
        X, y, meta = obj
        if what == "x":
            X *= 2.0
        elif what == "u":
            y += 1.0
        else:
            for k in meta:
                if isinstance(meta[k], list):
                    meta[k].reverse()
                    meta[k].append("mine")
            meta["target_name"] = "other"
        return
    if isinstance(obj, dict):
        for v in obj.values():
            v[...] = 0
        return
    if not hasattr(obj, "usol"):
        obj[...] = 7
        return
    if what == "u":
        obj.usol *= 0.5 if obj.usol.dtype.kind == "f" else 2
    elif what == "x":
        obj.x += 1.0
    elif what == "t":
        obj.t[0] = -5.0
    elif what == "domain":
        if isinstance(obj.domain, dict):
            obj.domain["x"] = (5.0, 6.0)
            obj.domain["extra"] = 1
        else:
            obj.domain = {"x": (0, 1)}
    elif isinstance(getattr(obj, "aliases", None), dict):
        obj.aliases["legacy"] = "changed"
        obj.aliases["new"] = 1


def build_nd(op):
    """A data set with named axes, whatever their order; returns it and what it says."""
    import numpy as np
    from kd.dataset import PDEDataset
    r = np.random.RandomState(op["seed"])
    x, t = np.linspace(-1, 1, op["nx"]) ** 3, np.linspace(0, 2, op["nt"])
    u = r.uniform(-2, 2, (op["nx"], op["nt"]))
    fields = {"u": u} if not op["two"] else {"v": u + 9, "u": u}
    if op["order"] == ["t", "x"]:
        fields = {k: np.ascontiguousarray(v.T) for k, v in fields.items()}
    ds = PDEDataset(equation_name="named", fields_data=fields, coords_1d={"t": t, "x": x}, axis_order=op["order"], target_field="u", lhs_axis=op["lhs"])
    return ds, x, t, u


def draw(sim, tag, ds, op, ref=None):
    """Points and values drawn from a data set are its own, and belong to whoever drew them."""
    import numpy as np
    x, t, u = ref or [np.array(v) for v in (ds.x, ds.t, ds.usol)]
    if u.shape != (len(x), len(t)) or len(set(x.tolist())) < len(x) or len(set(t.tolist())) < len(t):
        return
    at = {(a, b): u[i, j] for i, a in enumerate(x.tolist()) for j, b in enumerate(t.tolist())}
    before = [np.array(v) for v in (ds.x, ds.t, ds.usol)]
    work.ambient(op["seed"])
    what, total = op["what"], u.size
    mine = []

    def pairs(X, y, what):
        if X.shape != (len(y), 2):
            sim.violate("draw", "%s: %d points with %d values (%s)" % (tag, len(X), len(y), what))
            return
        for (a, b), v in zip(X.tolist(), np.asarray(y).ravel().tolist()):
            if (a, b) not in at or at[(a, b)] != v:
                sim.violate("draw", "%s: %s has %r at (%r, %r), the field has %r" % (tag, what, v, a, b, at.get((a, b))))
                return
    if what in ("random", "uniform"):
        n = op["n"] if isinstance(op["n"], float) else min(op["n"], total)
        X, y = ds.sample(n, method=what)
        pairs(X, y, "the %s sample" % what)
        want = int(total * n) if isinstance(n, float) else n
        if what == "random" and (len(X) != want or len({tuple(r) for r in X.tolist()}) != want):
            sim.violate("draw", "%s: %d points asked, %d different ones given" % (tag, want, len({tuple(r) for r in X.tolist()})))
        mine = [X, y]
    elif what == "mesh":
        X = ds.mesh()
        pairs(X, ds.usol.reshape(-1, 1), "the mesh")
        lo, hi = ds.mesh_bounds()
        if list(lo) != [x.min(), t.min()] or list(hi) != [x.max(), t.max()]:
            sim.violate("draw", "%s: the mesh is said to span %s to %s" % (tag, list(lo), list(hi)))
        mine = [X, lo, hi]
    elif what == "range":
        if (np.diff(x) > 0).all() and (np.diff(t) > 0).all():
            a, b = sorted([float(x[op["seed"] % len(x)]), float(x[op["seed"] // 7 % len(x)])])
            r = ds.get_range((a, b), (float(t[0]), float(t[len(t) // 2])))
            g = [(p, q) for p in r["x"] for q in r["t"]]
            pairs(np.array(g, float).reshape(-1, 2), r["usol"].reshape(-1), "the cut")
            if len(r["x"]) and (min(r["x"]) < a or max(r["x"]) > b):
                sim.violate("draw", "%s: a cut of %r..%r holds %r..%r" % (tag, a, b, min(r["x"]), max(r["x"])))
    elif what == "point":
        i, j = op["seed"] % len(x), op["seed"] % len(t)
        p = ds.get_datapoint(i, j)
        pairs(np.array([[p[0], p[1]]]), [p[2]], "the point")
    elif what == "data":
        d = ds.get_data()
        if [arr(d[k]) for k in ("x", "t", "usol")] != [arr(v) for v in (x, t, u)]:
            sim.violate("draw", "%s: get_data gives other arrays" % tag)
    else:
        g = [ds.get_derivative("x"), ds.get_derivative("t")]
        if min(u.shape) > 1 and [arr(v) for v in g] != [arr(np.gradient(u, axis=0)), arr(np.gradient(u, axis=1))]:
            sim.violate("draw", "%s: the derivatives are not those of the field" % tag)
        mine = g
    for v in mine:
        v[...] = 0
    if [arr(v) for v in (ds.x, ds.t, ds.usol)] != [arr(v) for v in before]:
        sim.violate("draw", "%s: changing what was drawn changed the data set" % tag)


def state_of(w):
    from .c13 import rng_state
    return [os.getcwd(), rng_state()]


def attempt(w, op):
    out = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if w.par:
                obj, rep = perform(w, op)
            else:
                with contextlib.redirect_stdout(out):
                    obj, rep = perform(w, op)
        return "ok", obj, rep, out.getvalue()
    except (threads.Deadlock, threads.Killed):
        raise
    except BaseException as e:
        return "raised", None, "%s: %s" % (type(e).__name__, str(e)[:120]), out.getvalue()


def judge(w, tag, op, how, rep, text, hit):
    sim = w.sim
    if op["do"] == "bad":
        if how == "ok" and rep is not None:
            sim.violate("accepted", "%s: an impossible request was answered with %s" % (tag, rep))
        if how == "ok" and not w.par and not text.strip():
            sim.violate("silent", "%s: failed without a word" % tag)
        return
    if op["do"] == "load":
        x, t, u = EXPECT[op["name"]]
        want = {"x": x, "t": t, "usol": u, "u": u}
        want["meta"] = META[op["name"]]
    elif op["do"] == "reg":
        want = {"X": EXPECT[op["name"]][0], "y": EXPECT[op["name"]][1], "meta": META[op["name"]]}
    else:
        want = wanted(w.files[op["k"]], op["via"])
    if how == "ok" and rep is not None:
        for k in want:
            if rep.get(k) != want[k]:
                sim.violate("data", "%s: %s is %s, the file says %s" % (tag, k, rep.get(k), want[k]))
                return
        return
    if not hit:
        sim.violate("fails", "%s: nothing failed but the load gave %s (%s)" % (tag, rep, text[-200:]))
    elif how == "ok" and not w.par and not text.strip():
        sim.violate("silent", "%s: gave nothing and said nothing" % tag)


META = {}


def run(plan, sim):
    import numpy as np  # noqa: F401
    w = World()
    w.sim, w.plan, w.root, w.par = sim, plan, os.getcwd(), plan["threads"] > 1
    w.files = copy.deepcopy(plan["files"])
    for d in ("up", "w1", "w2"):
        os.makedirs(d)
    for f in w.files:
        write_file(w, f)
    work.ambient(plan["amb"])

    # metadata as a fresh process sees it
    names = sorted({op["name"] for op in plan["ops"] if op["do"] in ("load", "reg")})

    def fresh():
        out = {}
        w.par = False
        for n in names:
            how, _, rep, text = attempt(w, {"do": "reg" if n in REG else "load", "name": n})
            out[n] = rep["meta"] if how == "ok" and rep else repr((how, rep, text))
        return out
    META.clear()
    META.update(sim.incarnation(fresh, "fresh")["value"])
    for n in names:
        META[n] = __import__("json").loads(__import__("json").dumps(META[n]))

    sim.add_scope(data_dir(), "data" + os.sep)
    sim.install_clock()
    sim.install_fs()
    sim.log_io = False
    held = {}
    counts = {"loads": 0, "changed": 0, "failed": 0, "draws": 0}

    def step(k, op, who):
        mine = held.setdefault(who, [])
        tag = "call %d (%s %s)" % (k, op["do"], op.get("name", op.get("via", op.get("what", ""))))
        if op["do"] == "mutate":
            if mine:
                change(mine[-min(op["back"], len(mine))], op["what"])
                counts["changed"] += 1
            return
        if op["do"] == "nd":
            ds, x, t, u = build_nd(op)
            if [arr(v) for v in (ds.x, ds.t, ds.usol)] != [arr(v) for v in (x, t, u)]:
                sim.violate("data", "%s: a data set with axes %s gives a field of shape %s for %d positions and %d times" % (
                    tag, op["order"], ds.usol.shape, len(x), len(t)))
            for what in ("mesh", "random"):
                draw(sim, tag, ds, {"what": what, "n": 0.5, "seed": op["seed"]}, [x, t, u])
            mine.append(ds)
            return
        if op["do"] == "draw":
            obj = mine[-min(op["back"], len(mine))] if mine else None
            if hasattr(obj, "sample"):
                draw(sim, "%s from %s" % (tag, getattr(obj, "equation_name", "")), obj, op)
                counts["draws"] += 1
            return
        if op["do"] == "chdir":
            os.chdir(os.path.join(w.root, op["to"]))
            return
        if op["do"] == "rewrite":
            w.files[op["k"]]["seed"] = op["seed"]
            write_file(w, w.files[op["k"]])
            counts["changed"] += 1
            return
        mark = len(sim.trace)
        s0 = None if w.par else state_of(w)
        if not w.par:
            io_ = op.get("io")
            if io_ and op["do"] == "file" and w.files[op["k"]]["fmt"] == "csv" and io_["do"] == "truncate":
                io_ = dict(io_, do="EIO")       # a shortened table is a table
            sim.arm([io_] if io_ else [])
            if op.get("strike"):
                sim.install_steps(prefixes=[os.path.join(boot.REPO, "kd") + os.sep])
                sim.step_no = 0
                sim.step_hook = sim.strike_at(op["strike"]["at"], op["strike"])
        how, obj, rep, text = attempt(w, op)
        if not w.par:
            sim.step_hook = None
            sim.remove_steps()
            sim.arm([])
        me = threads.threading.current_thread().name
        hit = any(ln.startswith("fault ") for ln in sim.trace[mark:]) if not w.par else bool(op.get("io"))
        counts["loads"] += 1
        counts["failed"] += how != "ok" or rep is None
        sim.log(tag, how, digest(rep) if how == "ok" else rep.replace(w.root, ""), me if w.par else "")
        judge(w, tag, op, how, rep, text, hit)
        if s0 is not None and state_of(w) != s0:
            sim.violate("side-effect", "%s: changed the working directory or the random generators" % tag)
        if obj is not None:
            mine.append(obj)

    if not w.par:
        for k, op in enumerate(plan["ops"]):
            step(k, op, "main")
    else:
        sim.arm([op["io"] for op in plan["ops"] if op.get("io") and op["io"]["do"] != "truncate"][:2])
        armed = bool(sim.faults)
        s = threads.Sched(sim, plan["sched"])
        for i in range(plan["threads"]):
            def body(i=i):
                for k, op in enumerate(plan["ops"]):
                    if op.get("s") == i:
                        # a fault may strike any thread's load
                        step(k, dict(op, io=True) if armed else dict(op, io=None), "t%d" % i)
            s.spawn("t%d" % i, body)
        for t, r in zip(s.threads, s.run()):
            if r[0] != "ok":
                raise RuntimeError("thread %s: %s" % (t.name, r[2])) from r[1]
        sim.arm([])
        w.par = False
    # the faults are over: everything loads, and exactly
    os.chdir(w.root)
    again = []
    for op in plan["ops"]:
        o = {k: v for k, v in op.items() if k in ("do", "name", "k", "via")}
        if op["do"] in ("load", "reg", "file") and o not in again:
            again.append(o)
    for k, o in enumerate(again):
        step(100 + k, o, "end")
    sim.nontrivial = bool(sim.stats["faults"]) or counts["changed"] > 0 or sim.stats["switches"] > 2
    sim.info["count"] = counts
