"""C06: an SGA search keeps its best equation and reports it truthfully."""
import copy
import math

from .. import boot, work
from ..sim import canon, digest
from .c07 import install_linalg

MODULES = boot.BASE_MODULES
TIMEOUT = 120
TIERS = {"quick": {"runs": 1500, "budget_s": 50, "selftest": 10, "min_runs": 30, "shrink_s": 40},
         "thorough": {"runs": 60000, "budget_s": 1500, "selftest": 200, "min_runs": 1000}}
RULE = ("one run = 1-3 fits of one SGA estimator on seeded data (1-3 axes in any order, parameter fields, differences or a neural "
        "surrogate, trained or read from a file that is replaced, torn, unreadable or missing between fits), with errors, interrupts, "
        "exhausted memory or failing linear algebra at seeded points; each published result is re-evaluated from its printed equation by an independent evaluator, and one fit is repeated "
        "with every smaller number of generations; non-trivial = a fault struck or the best equation changed between generations")
REAL = ["KD_SGA, ProblemContext, SGAPDE_Solver, SGA, PDE, Tree, STRidge selection, equation details, MetaNN training and loading (torch)"]
STUB = ["numpy.linalg failures", "errors at executed lines", "errors on reading the model file", "clock (virtual)"]
ASSUMPTIONS = ["the printed score is AIC = 2*ratio*k + 2*log(mse), k the number of non-zero coefficients",
               "a divisor that is zero everywhere is treated as 1e-6 (the documented legacy mode), one with a zero somewhere is shifted by 1e-10 (the documented safe division)"]
STATE_MEASURE = "digest of the run's event log"


def prepare(base):
    boot.standard_prepare(models=("sga",))


def gen_one(rng):
    f = work.gen_fit(rng, ("sga",))
    f["depth"] = rng.choice([2, 3, 3, 4])
    f["width"] = rng.choice([1, 2, 3, 5])
    f["num"] = rng.choice([3, 4, 6, 8])
    f["gens"] = rng.choice([1, 2, 3, 4, 6])
    r = rng.random()
    if r < 0.12:
        f["ds"] = {"nd": 2, "nx": 7, "nt": 7, "seed": rng.randrange(5)}
        f["gens"], f["delete_edges"] = min(f["gens"], 2), False
    elif r < 0.3:
        f["ds"]["extra"] = rng.choice([1, 2])
    elif r < 0.4:
        f["ds"]["scale"] = rng.choice([1e-4, 1e3, 1e6])
    ds = f["ds"]
    deriv = rng.random()
    if rng.random() < (0.4 if deriv < 0.2 else 0.2):
        axes = ["x", "y", "t"] if ds.get("nd") else ["x", "t"]
        rng.shuffle(axes)
        ds["order"] = axes
    if ds.get("extra") == 1 and rng.random() < 0.4:
        ds["target"] = "v"
    if rng.random() < 0.15:
        ds["param"] = 1
    if rng.random() < 0.15 and not (set(ds) & {"nd", "extra", "order"}):
        ds["name"] = rng.choice(work.BENCHMARKS)
    if deriv < 0.36:
        f["gens"] = min(f["gens"], 2)
    if deriv < 0.2:
        f["deriv"], f["max_epoch"] = "autograd", rng.choice([3, 10, 30])
    elif deriv < 0.36:
        f["deriv"], f["max_epoch"] = "metadata", rng.choice([100, 2500])
        for k in ("nd", "extra", "order", "param", "target"):
            ds.pop(k, None)
        if "kind" not in ds:
            f["ds"] = dict(work.gen_ds(rng))
    return f


def gen_file(rng, f, first, kind):
    """What happens to the file of the surrogate before this fit."""
    r = rng.random()
    if f["deriv"] == "metadata":
        if first or f["ds"]["kind"] != kind and r > 0.2:
            return {"net": rng.randrange(5)} if r < 0.85 else {"do": "remove"}
        return (None if r < 0.3 else {"net": rng.randrange(5)} if r < 0.5 else {"do": "torn", "frac": rng.choice([0, 0.02, 0.1, round(rng.random(), 2)])} if r < 0.75
                else {"do": "remove"} if r < 0.85 else
                {"io": {"on": "open-r", "match": "*.pkl", "nth": 1, "times": 1, "do": rng.choice(["EIO", "EACCES", "ENOENT", "truncate"])}})
    if r < 0.6:
        return None
    return {"net": rng.randrange(5)} if r < 0.8 else {"do": "torn", "frac": rng.choice([0, 0.02, 0.1, round(rng.random(), 2)])} if r < 0.9 else {"do": "remove"}


def gen(rng, idx, tier):
    f = gen_one(rng)
    ops = []
    n = rng.choice([1, 2, 2, 3])
    for i in range(n):
        op = {"do": "fit"}
        if i:
            g = gen_one(rng)
            if f.get("deriv") == "metadata":
                g["ds"] = work.gen_ds(rng)
                if rng.random() < 0.6:
                    g["ds"]["kind"] = f["ds"]["kind"]       # the same file
            same = g["ds"].get("nd")
            twin = dict(f["ds"], seed=rng.randrange(7))     # as the first data, with other values
            op["ds"], op["gens"] = rng.choice([f["ds"], twin]) if same else rng.choice([f["ds"], twin, twin, g["ds"]]), rng.choice([f["gens"], g["gens"]])
        if f.get("deriv"):
            op["file"] = gen_file(rng, f, not i, op.get("ds", f["ds"]).get("kind"))
        r = rng.random()
        if set(op.get("file") or {}) & {"do", "io"} and rng.random() < 0.8:
            pass        # the file decides
        elif r < 0.35:
            op["strike"] = {"do": rng.choice(["error", "interrupt", "memerr"]),
                            "frac": round(rng.choice([rng.random(), 1 - rng.random() ** 3 * 0.05, rng.random() ** 3]), 4)}
        elif r < 0.55:
            op["linalg"] = {"on": "linalg", "match": rng.choice(["lstsq", "*"]), "nth": rng.choice([1, 2, 5, rng.randrange(1, 120)]),
                            "times": rng.choice([1, 1, 3, 1000]), "do": "linalg"}
        ops.append(op)
    return {"fit": f, "ops": ops, "amb": rng.randrange(1000), "prefix": rng.random() < 0.6}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for k in ("strike", "linalg", "ds", "gens", "file"):
            if op.get(k) and not (k == "file" and not i and plan["fit"]["deriv"] == "metadata"):
                c = copy.deepcopy(plan)
                del c["ops"][i][k]
                yield c
    for k, v in (("gens", 1), ("num", 3), ("depth", 2), ("width", 1)):
        if plan["fit"][k] > v:
            c = copy.deepcopy(plan)
            c["fit"][k] -= 1
            yield c
    if plan["prefix"]:
        c = copy.deepcopy(plan)
        c["prefix"] = False
        yield c


# ------------------------------------------------ an independent evaluator

def tokens(text):
    return text.replace("(", " ( ").replace(")", " ) ").split()


def split_terms(text):
    """The terms of a printed equation: top-level '+' without spaces."""
    out, depth, cur = [], 0, ""
    for i, ch in enumerate(text):
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        if ch == "+" and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


class Eval:
    def __init__(self, env, axes, deltas):
        self.env, self.axes, self.deltas = env, axes, deltas

    def term(self, text):
        toks = tokens(text)
        val, rest = self.expr(toks)
        if rest:
            raise ValueError("unreadable term %r" % text)
        return val

    def expr(self, toks):
        import numpy as np
        t, toks = toks[0], toks[1:]
        if t != "(":
            return self.env[t], toks
        if toks[0] in ("^2", "^3"):
            a, rest = self.expr(toks[1:])
            n = int(toks[0][1])
            val = a ** n
        else:
            a, rest = self.expr(toks)
            op, rest = rest[0], rest[1:]
            if op in ("d", "d^2"):
                val, rest = self.diff(a, rest[0], 1 if op == "d" else 2), rest[1:]
            else:
                b, rest = self.expr(rest)
                if op == "+":
                    val = a + b
                elif op == "-":
                    val = a - b
                elif op == "*":
                    val = a * b
                elif op == "/":
                    if np.all(np.abs(b) <= 1e-10):
                        b = b + 1e-6
                    while np.any(b == 0):
                        b = b + 1e-10
                    val = a / b
                else:
                    raise ValueError("operator %r" % op)
        if rest[0] != ")":
            raise ValueError("unreadable term")
        return val, rest[1:]

    def diff(self, a, axis, order):
        return stencil(a, self.deltas[axis], self.axes.index(axis), order)


def stencil(a, h, axis, order):
    import numpy as np
    a = np.moveaxis(np.asarray(a, dtype=float), axis, 0)
    d = np.zeros_like(a)
    if order == 1:
        d[1:-1] = (a[2:] - a[:-2]) / (2 * h)
        d[0] = (-1.5 * a[0] + 2 * a[1] - 0.5 * a[2]) / h
        d[-1] = (1.5 * a[-1] - 2 * a[-2] + 0.5 * a[-3]) / h
    else:
        d[1:-1] = (a[2:] - 2 * a[1:-1] + a[:-2]) / h ** 2
        d[0] = (2 * a[0] - 5 * a[1] + 4 * a[2] - a[3]) / h ** 2
        d[-1] = (2 * a[-1] - 5 * a[-2] + 4 * a[-3] - a[-4]) / h ** 2
    return np.moveaxis(d, 0, axis)


def arrays(ctx):
    """Every array the search reads."""
    import numpy as np
    out = {"ut": canon(np.asarray(ctx.ut)), "defaults": canon(np.asarray(ctx.default_terms))}
    for name, _, val in list(ctx.VARS):
        out["var " + name] = canon(np.asarray(val))
    return digest(out)


def environment(f, ds, models=None):
    """The named variables and the time derivative, worked out from the dataset
    alone (and the surrogate network, where derivatives come from one)."""
    import numpy as np
    axes, coords = list(ds["axes"]), dict(ds["coords"])
    fields, params = dict(ds["fields"]), dict(ds["params"])
    if ds.get("net") is not None:
        fields, coords = fine(ds["net"], fields, coords)
    if f.get("delete_edges"):
        i, n = axes.index("x"), len(coords["x"])
        cut = slice(int(n * 0.1), int(n * 0.9))
        at = tuple(cut if j == i else slice(None) for j in range(len(axes)))
        coords["x"] = coords["x"][cut]
        fields = {k: v[at] for k, v in fields.items()}
        params = {k: v[at] for k, v in params.items()}
    deltas = {a: float(coords[a][1] - coords[a][0]) for a in axes}
    shape = next(iter(fields.values())).shape
    env = dict(params)
    env["0"] = np.zeros(shape)
    for i, a in enumerate(axes):
        if a != "t":
            env[a] = np.broadcast_to(coords[a].reshape([-1 if j == i else 1 for j in range(len(axes))]), shape)
    ut = None
    for n, v in fields.items():
        env[n] = v
        if models is None:
            grads = [stencil(v, deltas[a], i, 1) for i, a in enumerate(axes)]
        else:
            grads = slopes(models[n], v, [coords[a] for a in axes])
        for i, a in enumerate(axes):
            if a != "t":
                env["%s_%s" % (n, a)] = grads[i]
            elif n == ds["target"]:
                ut = grads[i]
    return env, axes, deltas, ut


def points(coords):
    import numpy as np
    pts = np.stack([g.reshape(-1) for g in np.meshgrid(*coords, indexing="ij")], axis=1)
    sd = pts.std(axis=0)
    return (pts - pts.mean(axis=0)) / sd, sd


def net64(model):
    import torch
    twin = copy.deepcopy(model).double().cpu()

    def call(x):
        with torch.no_grad():
            return twin(torch.from_numpy(x)).numpy().reshape(-1)
    return call


def slopes(model, v, coords):
    """First derivatives of the network along every axis, by differences of its values."""
    import numpy as np
    x, sd = points(coords)
    call, out = net64(model), []
    y = float(np.std(v)) or 1.0
    for i in range(len(coords)):
        h = np.zeros(len(coords))
        h[i] = 1e-5
        out.append(((call(x + h) - call(x - h)) / 2e-5 * y / sd[i]).reshape(v.shape))
    return out


def fine(model, fields, coords):
    """The field the network describes, on a grid twice as dense."""
    import numpy as np
    v = fields["u"]
    c = {a: np.linspace(coords[a].min(), coords[a].max(), 2 * len(coords[a])) for a in ("x", "t")}
    x, _ = points([c["x"], c["t"]])
    u = net64(model)(x) * np.std(v) + np.mean(v)
    return {"u": u.reshape(len(c["x"]), len(c["t"]))}, c


def network(seed, spec):
    """The surrogate stored in a model file."""
    import torch
    from kd.model.sga.sgapde.config import Net
    with torch.random.fork_rng(devices=[]):
        torch.manual_seed(900 + seed)
        net = Net(3 if spec.get("nd") else 2, 50, 1)
        with torch.no_grad():
            net.predict.weight.mul_(4.0)
    return net


def model_file(f, spec):
    from kd.model.sga.sgapde.config import SolverConfig
    name = getattr(work.dataset(spec), "equation_name", None)
    return SolverConfig(problem_name=name, max_epoch=f["max_epoch"], fields_data={}, coords_1d={}).model_path


def put(sim, f, spec, event, now):
    """Apply a file event; `now` maps a file name to what it holds."""
    import io
    import os
    import torch
    path = model_file(f, spec)
    if event is None or "io" in event:
        return
    sim.count("file:" + event.get("do", "net"))
    if event.get("do") == "remove":
        now.pop(path, None)
        if os.path.exists(path):
            os.remove(path)
        return
    torn = event.get("do") == "torn"
    seed = event.get("net", 0)
    buf = io.BytesIO()
    torch.save(network(seed, spec).state_dict(), buf)
    data = buf.getvalue()
    if torn:
        data = data[:int(len(data) * min(event["frac"], 0.97))]
    with open(path, "wb") as fh:
        fh.write(data)
    now[path] = "torn" if torn else seed


def raw(spec, net=None):
    """The dataset's numbers, independent of the dataset object."""
    import numpy as np
    ds = work.dataset(spec)
    if getattr(ds, "fields_data", None):
        return {"axes": list(ds.axis_order), "fields": {k: np.array(v, float) for k, v in ds.fields_data.items()},
                "coords": {k: np.array(v, float).reshape(-1) for k, v in ds.coords_1d.items()},
                "params": {k: np.array(v, float) for k, v in (getattr(ds, "param_fields", None) or {}).items()},
                "target": spec.get("target", "u"), "net": net}
    return {"axes": ["x", "t"], "fields": {"u": np.array(ds.usol, float)}, "target": "u", "net": net,
            "params": {k: np.array(v, float) for k, v in (getattr(ds, "param_fields", None) or {}).items()},
            "coords": {"x": np.array(ds.x, float).reshape(-1), "t": np.array(ds.t, float).reshape(-1)}}


def close(a, b, tol=1e-6):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    scale = max(1e-300, float(np.max(np.abs(b))), float(np.max(np.abs(a))))
    return a.shape == b.shape and float(np.max(np.abs(a - b))) <= tol * scale


def honest(sim, tag, m, f, spec, net=None):
    """The published equation, coefficients, score and prediction agree."""
    import numpy as np
    det, ctx = m.best_equation_details_, m.context_
    score = float(m.best_score_)
    if math.isnan(score) or score == math.inf:
        sim.violate("finite", "%s: the best score is %r" % (tag, score))
        return
    names = split_terms(m.best_pde_)
    if not data_ok(sim, tag, m, f, spec, net):
        return
    if det is None:
        return
    listed = list(det.terms)
    for t in listed:
        if t.source == "generated" and t.label not in names:
            sim.violate("details", "%s: the details list the term %s, the equation is %s" % (tag, t.label, m.best_pde_))
            return
    if det.predicted_rhs is None:
        return
    pred, ut = np.asarray(det.predicted_rhs, float), np.asarray(ctx.ut, float)
    if pred.shape != ut.shape:
        sim.violate("details", "%s: prediction of shape %s for data of shape %s" % (tag, pred.shape, ut.shape))
        return
    mse = float(np.mean((ut - pred) ** 2))
    scale = float(np.mean(ut ** 2))
    if mse <= 1e-16 * max(scale, 1e-300):
        return      # below rounding the logarithm means nothing
    ratio = float(m.config_.aic_ratio)
    k = (score - 2 * math.log(mse)) / (2 * ratio)
    if abs(k - round(k)) > 1e-5 or round(k) < len(listed) or round(k) > len(names) + ctx.num_default:
        sim.violate("score", "%s: score %r, but the prediction has mean squared error %r: %r terms (%d are listed)" % (
            tag, score, mse, k, len(listed)))
        return
    if round(k) != len(listed):
        return      # tiny coefficients are left out of the listing
    def evaluate(shake=0.0):
        rng = np.random.RandomState(7)
        env = {n: np.asarray(v, float) for n, _, v in list(ctx.VARS)}
        if shake:
            env = {n: v * (1 + shake * rng.uniform(-1, 1, v.shape)) for n, v in env.items()}
        ev = Eval(env, list(ctx.axis_order), dict(ctx.delta))
        total = np.zeros(ut.shape)
        with np.errstate(all="ignore"):
            for t in listed:
                total = total + float(t.coefficient) * (ev.env[t.label] if t.source == "default" else ev.term(t.label))
        return total

    try:
        total = evaluate()
    except (KeyError, ValueError, IndexError) as x:
        sim.violate("details", "%s: a term of %s cannot be read: %r" % (tag, m.best_pde_, x))
        return
    if f.get("deriv") == "autograd" and float(np.max(np.abs(total - pred))) <= 100 * float(np.max(np.abs(evaluate(6e-8) - total))):
        return      # single precision explains it
    if not close(total, pred, 1e-5):
        sim.violate("honest", "%s: %s evaluates to something else than the reported prediction (off by %g of %g)" % (
            tag, " + ".join("%r*%s" % (float(t.coefficient), t.label) for t in listed), float(np.max(np.abs(total - pred))),
            float(np.max(np.abs(pred)))))


def data_ok(sim, tag, m, f, spec, net):
    """What the search worked on is the data (or what the surrogate says of it)."""
    import numpy as np
    ctx, models, tol = m.context_, None, 1e-6
    if f.get("deriv") == "autograd":
        models, tol = m.config_.autograd_models, 2e-3
        if net is not None:
            models = dict(models, **{spec.get("target", "u"): net})
    elif f.get("deriv") == "metadata":
        tol = 1e-4
    env, axes, deltas, want = environment(f, raw(spec, net if f.get("deriv") == "metadata" else None), models)
    if not close(np.asarray(ctx.ut, float), want, tol):
        sim.violate("data", "%s: the time derivative is not that of the data" % tag)
        return False
    for n, _, v in list(ctx.VARS):
        if n not in env or not close(np.asarray(v, float), env[n], tol):
            sim.violate("data", "%s: the variable %s is not that of the data" % (tag, n))
            return False
    default = env[spec.get("target", "u")].reshape(-1, 1)
    if not close(np.asarray(ctx.default_terms, float), default, tol) or list(ctx.default_names) != [spec.get("target", "u")]:
        sim.violate("data", "%s: the fixed term is not %s" % (tag, spec.get("target", "u")))
        return False
    if list(ctx.axis_order) != axes or any(abs(ctx.delta[a] - deltas[a]) > 1e-9 for a in axes):
        sim.violate("data", "%s: the grid is not that of the data" % tag)
        return False
    if m.best_equation_details_ is None:
        return True
    want = "%s_t" % spec.get("target", "u")
    try:
        left = m.equation_latex().split("=")[0].replace("{", "").replace("}", "").strip()
    except Exception as x:
        left = repr(x)
    if left != want:
        sim.violate("details", "%s: the equation is for %s, the data asks for %s" % (tag, left, want))
        return False
    return True


def published(m):
    out = {}
    for k in ("best_pde_", "best_score_", "context_", "config_", "dataset_", "best_equation_details_"):
        out[k] = getattr(m, k, None)
    return out


def view(m):
    import numpy as np
    p = published(m)
    det = p["best_equation_details_"]
    return canon({"pde": p["best_pde_"], "score": p["best_score_"],
                  "terms": None if det is None else [(t.label, t.source, float(t.coefficient)) for t in det.terms],
                  "pred": None if det is None or det.predicted_rhs is None else np.asarray(det.predicted_rhs)})


def run(plan, sim):
    import numpy as np
    from kd.model.sga.sgapde import pde as pmod, solver as smod
    f = plan["fit"]
    install_linalg(sim)
    sim.install_clock()
    work.ambient(plan["amb"])
    again, prefix = sim.reserve(fresh, "fresh"), sim.reserve(short, "short")
    scores = []
    real = getattr(pmod, "evaluate_mse", None)
    if real is not None:
        def recorder(a, context, is_term=False, **k):
            r = real(a, context, is_term, **k)
            if not is_term:
                scores.append(float(r[0]))
            return r
        pmod.evaluate_mse = recorder
        if getattr(smod, "evaluate_mse", None) is real:
            smod.evaluate_mse = recorder
    m = work.make(f)
    struck, files = 0, {}
    sim.install_fs()
    for i, op in enumerate(plan["ops"]):
        g = dict(f, ds=op.get("ds", f["ds"]), gens=op.get("gens", f["gens"]))
        tag = "fit %d" % i
        m.sga_run = g["gens"]
        before, seen = published(m), view(m)
        event, bad, net = op.get("file"), False, None
        if f.get("deriv"):
            put(sim, f, g["ds"], event, files)
            held = files.get(model_file(f, g["ds"]))
            bad = held == "torn" or held is None and f["deriv"] == "metadata"
            net = network(held, g["ds"]) if isinstance(held, int) else None
            if bad:
                sim.log("fault file", "torn" if held else "missing")
        n = measure(sim, i, m, g) if op.get("strike") else 0
        del scores[:]
        mark = len(sim.trace)
        sim.arm(([op["linalg"]] if op.get("linalg") else []) + ([event["io"]] if event and "io" in event else []))
        sim.linalg_on = True
        if op.get("strike"):
            sim.install_steps()
            sim.step_no = 0
            sim.step_hook = sim.strike_at(max(1, int(n * op["strike"]["frac"])), op["strike"])
        how, val = "ok", None
        try:
            work.do_fit(m, g)
        except BaseException as e:
            how, val = "raised", "%s: %s" % (type(e).__name__, str(e)[:100])
        sim.step_hook = None
        sim.remove_steps()
        sim.linalg_on = False
        sim.arm([])
        hits = [ln for ln in sim.trace[mark:] if ln.startswith("fault ")]
        unread = bad or any(ln.startswith("fault open") for ln in hits)
        struck += bool(hits) or bad
        sim.log(tag, how, val, view(m))
        if how == "raised":
            if not hits and not bad:
                sim.violate("raises", "%s: nothing failed but it raised %s" % (tag, val))
            if before["best_pde_"] is not None and not any("kd_sga.py" in h for h in hits):
                after = published(m)
                if any(after[k] is not before[k] for k in before) or view(m) != seen:
                    sim.violate("mixed", "%s failed (%s) and left a mixture: before %s, after %s" % (tag, val, seen, view(m)))
            continue
        if getattr(m, "best_pde_", None) is None:
            sim.violate("nothing", "%s returned without an equation" % tag)
            continue
        if m.dataset_ is None or m.best_equation_details_ is None and not hits:
            sim.violate("details", "%s: no details of the equation %s" % (tag, m.best_pde_))
        worse = [s for s in scores if math.isfinite(s) and s >= -100]
        if worse and not any(math.isnan(s) for s in scores) and min(worse) < float(m.best_score_):
            sim.violate("lost", "%s: an equation with score %r was found, %r is reported" % (tag, min(worse), float(m.best_score_)))
        if unread:
            sim.violate("file", "%s: the file of the surrogate could not be read, yet there is a result" % tag)
            continue
        honest(sim, tag, m, g, g["ds"], net)
        if f.get("deriv") and not hits:
            r = again(g)
            if r["exit"] != "ok" or digest(r["value"]) != digest([view(m), arrays(m.context_)]):
                sim.violate("data", "%s: a fresh estimator finds something else: %s" % (tag, str(r)[:200]))
    if f.get("deriv"):
        put(sim, f, f["ds"], {"net": 1}, files)
    changed = prefixes(sim, f, prefix) if plan["prefix"] else 0
    sim.nontrivial = bool(struck or changed)
    sim.info["count"] = {"model:sga": 1, "deriv:" + f.get("deriv", "differences"): 1}


def measure(sim, i, m, g):
    """How many lines this fit executes undisturbed (in a forked twin)."""
    def twin():
        sim.install_steps()
        sim.step_no = 0
        try:
            work.do_fit(m, g)
        except BaseException:
            pass
        return sim.step_no
    r = sim.incarnation(twin, "measure%d" % i)
    return r.get("value") or 1


def fresh(g):
    m = work.make(g)
    work.do_fit(m, g)
    return [view(m), arrays(m.context_)]


def short(f, g):
    m = work.make(f)
    m.sga_run = g
    work.do_fit(m, f)
    return [float(m.best_score_), m.best_pde_, arrays(m.context_)]


def prefixes(sim, f, prefix):
    """The same search stopped after 0, 1, 2, ... generations."""
    rows = []
    for g in range(0, f["gens"] + 1):
        r = prefix(f, g)
        if r["exit"] != "ok":
            sim.violate("raises", "a search of %d generations failed: %s" % (g, str(r)[:200]))
            return 0
        rows.append(r["value"])
    sim.log("prefixes", rows)
    for g in range(1, len(rows)):
        if rows[g][0] > rows[g - 1][0]:
            sim.violate("lost", "the best score is %r (%s) after %d generations and %r (%s) after %d" % (
                rows[g - 1][0], rows[g - 1][1], g - 1, rows[g][0], rows[g][1], g))
        if rows[g][2] != rows[0][2]:
            sim.violate("data", "%d generations changed the data the search works on" % g)
    return int(rows[0][1] != rows[-1][1])
