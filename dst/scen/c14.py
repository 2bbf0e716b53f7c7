"""C14: an EqGPT search repeats exactly, keeps its best candidates and reports them truthfully."""
import copy
import gc
import io
import math
import os
import pickle
import random
import re
import warnings

from .. import boot, work
from ..sim import _real_open, canon, digest

MODULES = boot.BASE_MODULES
TIMEOUT = 120
TIERS = {"quick": {"runs": 4000, "budget_s": 32, "selftest": 10, "min_runs": 30, "shrink_s": 60},
         "thorough": {"runs": 100000, "budget_s": 1200, "selftest": 100, "min_runs": 500}}
RULE = ("one run = 1-3 searches of KD_EqGPT in one process on a seeded observation file with 1-3 wave cases and seeded or retrained surrogate networks, "
        "with another process searching meanwhile, with missing, unreadable, cut-short or replaced files, disk faults, errors and interrupts at executed lines and a disturbed surrogate training; "
        "every search is repeated in a fresh process, with one epoch less, and its reported equations are evaluated again by an independent evaluator; "
        "non-trivial = a fault struck, a file was replaced or several searches took place, and a result was returned")
REAL = ["KD_EqGPT", "kd.model.eqgpt (GPT, calculate_terms, calculate_reward, surrogate network)", "torch, numpy, pandas"]
STUB = ["a GPT of width 16 with one layer and seeded weights", "observation data and surrogate weights (seeded)", "file-system faults", "errors at executed lines"]
ASSUMPTIONS = ["numeric libraries run with one thread", "a candidate that cannot be evaluated in some of the cases is scored on the others"]
STATE_MEASURE = "digest of the run's event log"

NAMES = ["NG1Tp10A30", "G2Tp12A45N", "BG1Tp14A60", "NG3Tp11A25", "SG4Tp13A50"]
GPT_BYTES = []
DATA = "eqgpt-data"


def prepare(base):
    import torch
    boot.warm_torch()
    from kd.model.eqgpt import gpt_model
    import kd.model.eqgpt.continue_train_GPT_all  # noqa: F401
    for k, v in (("d_model", 16), ("d_ff", 32), ("d_k", 8), ("d_v", 8), ("n_layers", 1), ("n_heads", 2)):
        if hasattr(gpt_model, k):
            setattr(gpt_model, k, v)
    for s in range(4):
        torch.manual_seed(s)
        g = gpt_model.GPT()
        with torch.no_grad():
            for p in g.parameters():
                p.mul_(1.0 + s)
            if hasattr(g, "projection"):
                g.projection.bias[1] += [1.5, 2.5, 3.0, 0.0][s]      # most sentences end soon
        b = io.BytesIO()
        torch.save(g.state_dict(), b)
        GPT_BYTES.append(b.getvalue())
    boot.warm_torch()


# ---------------------------------------------------------------- plans

def gen(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3])
    names = rng.sample(NAMES, n)
    plan = {"cases": [{"name": m, "seed": rng.randrange(50), "scale": rng.choice([0.3, 1, 1, 3, 40, 300]), "tmax": rng.choice([0.31, 0.36]),
                       "have": rng.random() < 0.85} for m in names],
            "gpt": rng.choice([0, 0, 1, 1, 2, 2, 3]), "like": rng.choice([[], sorted(rng.sample(range(2, 57), 12)), [4, 22, 30, rng.randrange(7, 57)]]), "ops": [], "amb": rng.randrange(1000)}
    if rng.random() < 0.8:
        plan["cases"][0]["have"] = True
        if "N" not in plan["cases"][0]["name"]:
            plan["cases"][0]["name"] = "N" + plan["cases"][0]["name"]
    fit = {"epochs": rng.choice([1, 2, 2, 3]), "samples": rng.choice([1, 2, 3, 5, 9, 13]), "seed": rng.randrange(1000),
           "filter": rng.choice(["N", "N", "all"]), "retrain": 0}
    if rng.random() < 0.25:
        fit["retrain"] = rng.choice([2, 2, 12])
    if rng.random() < 0.12:
        fit.update(retrain=rng.choice([500, 1000, 1010, 1500]), samples=3, epochs=1)
        if rng.random() < 0.5:
            fit["shake"] = [rng.randrange(300, fit["retrain"] + 1), rng.choice([0.5, 1e4, 1e4])]
        else:
            for c in plan["cases"]:
                c["scale"] = 0.3        # mostly noise: the surrogate overfits
    for _ in range(rng.choice([0, 1, 1, 2])):
        r = rng.random()
        if r < 0.25:
            c = rng.randrange(n)
            plan["ops"].append({"do": "replace", "what": rng.choice(["weights", "weights", "data", "gpt", "drop"]), "case": c, "seed": rng.randrange(50, 99)})
            continue
        o = dict(copy.deepcopy(fit), do="fit")
        if o["retrain"] >= 500:
            o.update(retrain=2)
            o.pop("shake", None)
        if rng.random() < 0.5:
            o.update(seed=rng.randrange(1000), filter=rng.choice(["N", "all"]), retrain=rng.choice([0, 0, 2]))
        r = rng.random()
        if r < 0.4:
            o["strike"] = {"do": rng.choice(["interrupt", "memerr", "error"]), "at": int(math.exp(rng.uniform(0, 8.5)))}
        elif r < 0.8:
            o["io"] = {"on": rng.choice(["open-r", "open-r", "open-w", "write", "close", "mkdir"]), "nth": rng.choice([1, 1, 2, 3]), "times": rng.choice([1, 1, 100]),
                       "match": rng.choice(["*", "*", "*.pt", "*.pkl", "*.npy"]), "do": rng.choice(["EIO", "ENOSPC", "ENOENT", "EACCES"])}
            if o["io"]["on"] == "open-r":
                o["io"].update(do=rng.choice(["EIO", "ENOENT", "truncate"]), arg=rng.choice([0, 0.01, 0.4, 0.9, 0.999]))
            elif rng.random() < 0.8:
                o["retrain"] = 2
        plan["ops"].append(o)
    plan["ops"].append(dict(fit, do="fit"))
    for o in plan["ops"]:
        # another process searches in the same directory meanwhile
        if o["do"] == "fit" and not (set(o) & {"strike", "io", "shake"}) and rng.random() < 0.3:
            o["meanwhile"] = {"at": int(math.exp(rng.uniform(0, 8.5))), "seed": rng.randrange(1000), "epochs": rng.choice([1, 2]), "samples": rng.choice([2, 5]),
                              "filter": rng.choice([o["filter"], "N", "all"]), "retrain": rng.choice([0, 2, 3]), "do": "fit"}
    return plan


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for k in ("io", "strike", "shake", "meanwhile"):
            if k in op:
                c = copy.deepcopy(plan)
                del c["ops"][i][k]
                yield c
        if op.get("samples", 1) > 2:
            c = copy.deepcopy(plan)
            c["ops"][i]["samples"] //= 2
            yield c
        if op.get("epochs", 1) > 1:
            c = copy.deepcopy(plan)
            c["ops"][i]["epochs"] -= 1
            yield c
    if len(plan["cases"]) > 1:
        for k in range(len(plan["cases"])):
            if any(o.get("case", 0) >= len(plan["cases"]) - 1 for o in plan["ops"]):
                break
            c = copy.deepcopy(plan)
            del c["cases"][k]
            yield c


# ---------------------------------------------------------------- the disk

def observations(c):
    import numpy as np
    r = np.random.RandomState(c["seed"])
    n = 90
    t = r.uniform(0, c["tmax"], n)
    t[0] = c["tmax"]
    x = r.uniform(8.2, 12.5, n)
    u = c["scale"] * 0.01 * np.sin(2.3 * x - 5.0 * t + c["seed"]) + 0.002 * r.randn(n)
    return np.stack([t, x, u], axis=1)


def surrogate(c):
    import torch
    from kd.model.eqgpt.neural_network import NN
    st = torch.random.get_rng_state()
    torch.manual_seed(c["seed"] * 7 + 3)
    net = NN(Num_Hidden_Layers=6, Neurons_Per_Layer=60, Input_Dim=2, Output_Dim=1, Data_Type=torch.float32, Device="cpu",
             Activation_Function="Sin", Batch_Norm=False)
    with torch.no_grad():
        last = net.Layers[-1]
        last.weight.mul_(min(c["scale"], 3.0) if c["scale"] < 300 else 60.0)
        last.bias.add_(0.2)
    torch.random.set_rng_state(st)
    return net


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with _real_open(path, "wb") as fh:
        fh.write(data)


def case_dir(root, c):
    return os.path.join(root, "pkg", "model_save", "wave_breaking", "95_0_%s(Non_unit)" % c["name"])


def weights(gpt, like):
    """The pretrained sampler, with a taste for some words."""
    import torch
    if not like:
        return GPT_BYTES[gpt]
    d = torch.load(io.BytesIO(GPT_BYTES[gpt]))
    if "projection.bias" in d:
        d["projection.bias"][like] += 2.5
    b = io.BytesIO()
    torch.save(d, b)
    return b.getvalue()


def write_disk(root, cases, gpt, like=()):
    """Everything a search reads; called again after a replacement."""
    import shutil
    import numpy as np
    import torch
    for d in ("pkg", DATA):
        if os.path.exists(os.path.join(root, d)):
            shutil.rmtree(os.path.join(root, d))
    put(os.path.join(root, DATA, "gpt_model", "PDEGPT_wave_breaking.pt"), weights(gpt, like))
    put(os.path.join(root, DATA, "wave_breaking_data.pkl"), pickle.dumps({c["name"]: observations(c) for c in cases}))
    for c in cases:
        if not c["have"]:
            continue
        for ep, s in ((1500, c["seed"]), (2000, c["seed"] + 1000)):
            b = io.BytesIO()
            torch.save(surrogate(dict(c, seed=s)).state_dict(), b)
            put(os.path.join(case_dir(root, c), "Net_Sin_%d.pkl" % ep), b.getvalue())
        b = io.BytesIO()
        np.save(b, np.array([1500]))
        put(os.path.join(case_dir(root, c), "best_epoch.npy"), b.getvalue())


def apply_replace(cases, gpt, op):
    c = cases[op["case"]]
    if op["what"] == "gpt":
        return (gpt + 1) % 4
    if op["what"] == "drop":
        c["have"] = not c["have"]
    else:
        c["seed"] = op["seed"]
    return gpt


def disk_state(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with _real_open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = digest(fh.read().hex())
    return out


# ---------------------------------------------------------------- an independent evaluator

TERM = re.compile(r"\(u\(u\^2\)xx\)xx|\(uxx\+ux/x\)\^2|\(u\^-2\*ux\)x|\(u\^\d\)xx|\(1/u\)xx|\(uux\)xx|\(uux\)x|exp\(x\)|sinh?\(u\)|sqrt\(.\)|sinx|ux\^2|[ux]\^\d|u[xt]*|x")


def parse(text):
    """Terms and operators of a printed equation."""
    def walk(pos):
        for m in sorted({m.end() for m in [TERM.match(text, pos)] if m} | {e for e in range(pos + 1, len(text) + 1) if TERM.fullmatch(text, pos, e)}, reverse=True):
            if m == len(text):
                return [text[pos:m]]
            if text[m] in "+*/":
                rest = walk(m + 1)
                if rest is not None:
                    return [text[pos:m], text[m]] + rest
        return None
    return walk(0)


def grid(c):
    import numpy as np
    data = observations(c)
    g = re.search(r"G(\d+)Tp(\d+)A(\d+)", c["name"])
    tp = int(g.group(2)) / 10.0
    lam = 9.81 * tp ** 2 / (2.0 * math.pi)
    x = np.concatenate([np.linspace(8.18, 9.34, 50), np.linspace(9.77, 10.93, 50), np.linspace(11.41, 12.57, 50)])
    t = np.arange(0.05 + 0.1, np.max(data[:, 0]) - 0.1, 0.05)
    T, X = np.meshgrid(t / tp, (x - 8.17) / lam, indexing="ij")
    return np.stack([T.ravel(), X.ravel()], axis=1)


class Field:
    """The surrogate's function and its derivatives, each computed when asked for."""

    def __init__(self, net, pts):
        import torch
        self.db = torch.tensor(pts.astype("float32"), requires_grad=True)
        self.u = net(self.db)[:, 0]
        self.memo = {}

    def d(self, v, k):
        import torch
        return torch.autograd.grad(v.sum(), self.db, create_graph=True)[0][:, k]

    def dx(self, v, n=1):
        for _ in range(n):
            v = self.d(v, 1)
        return v

    def value(self, w):
        if w not in self.memo:
            self.memo[w] = self.compute(w).detach().numpy().astype("float32")
        return self.memo[w]

    def compute(self, w):
        import torch
        u, x = self.u, self.db[:, 1]
        table = {
            "(u(u^2)xx)xx": lambda: self.dx(u * self.dx(u ** 2, 2), 2), "(uxx+ux/x)^2": lambda: (self.dx(u, 2) + self.dx(u) / x) ** 2,
            "(u^-2*ux)x": lambda: self.dx(u ** -2 * self.dx(u)), "(u^2)xx": lambda: self.dx(u ** 2, 2), "(u^3)xx": lambda: self.dx(u ** 3, 2),
            "(u^4)xx": lambda: self.dx(u ** 4, 2), "(1/u)xx": lambda: self.dx(1 / u, 2), "(uux)xx": lambda: self.dx(u * self.dx(u), 2),
            "(uux)x": lambda: self.dx(u * self.dx(u)), "exp(x)": lambda: torch.exp(x), "sin(u)": lambda: torch.sin(u), "sinh(u)": lambda: torch.sinh(u),
            "sinx": lambda: torch.sin(x), "ux^2": lambda: self.dx(u) ** 2, "x": lambda: x, "u": lambda: u, "x^2": lambda: x ** 2, "x^4": lambda: x ** 4,
            "u^2": lambda: u ** 2, "u^3": lambda: u ** 3,
        }
        if w in table:
            return table[w]()
        if re.fullmatch(r"ux+", w):
            return self.dx(u, len(w) - 1)
        if w == "ut":
            return self.d(u, 0)
        raise KeyError(w)


def evaluate(text, fields):
    """(reward, ceiling, sure): what the equation earns; the least-squares optimum; whether rounding is harmless."""
    import numpy as np
    if text[-1:] in "+*/":
        return 0.0, True            # a sentence cut off at the maximum length is worth nothing
    toks = parse(text)
    if toks is None:
        raise KeyError(text)
    groups, cur = [], []
    for tk in toks:
        if tk == "+":
            groups.append(cur)
            cur = []
        else:
            cur.append(tk)
    groups.append(cur)
    words = set(toks[::2])
    zero = any(s <= words for s in ({"u", "sin(u)"}, {"u", "sinh(u)"}, {"sin(u)", "sinh(u)"}, {"u", "u^2", "u^3"}, {"x", "sinx"})) or "x" not in text
    rewards, sure = [], True
    for f in fields:
        cols = []
        for g in groups:
            v = np.array(f.value(g[0]))
            for o, w in zip(g[1::2], g[2::2]):
                v = v * f.value(w) if o == "*" else v / f.value(w)
            cols.append(v)
        keep = []
        for c in cols:
            if not any(np.array_equal(c, k) for k in keep):
                keep.append(c)
        A = np.stack(keep, axis=1).astype(np.float64)
        A = A[~np.isinf(A).any(axis=1)]
        if np.isnan(A).any() or not len(A):
            sure = sure and len(A) > 0
            continue
        L, R = -A[:, 0], A[:, 1:]
        big = np.abs(A).max()
        with np.errstate(all="ignore"):
            nr = np.sqrt((R ** 2).sum(axis=0))
            if R.shape[1] and (not np.all(np.isfinite(nr)) or np.any(nr == 0)):
                sure = False
                continue
            x = np.linalg.lstsq(R / nr, L, rcond=None)[0] if R.shape[1] else np.zeros(0)
            res = L - (R / nr) @ x
            r2 = 1 - (res ** 2).sum() / ((L - L.mean()) ** 2).sum()
        if R.shape[1] and (np.linalg.cond(R) > 3e3 or big > 1e6):
            sure = False
        rewards.append((1 - 0.02 * math.log10(A.shape[1])) * r2)
    r = float(np.mean(rewards)) if rewards else 0.0
    if zero or not math.isfinite(r):
        r = 0.0
    return r, sure


# ---------------------------------------------------------------- the searches

class Recorder:
    def __init__(self):
        self.seen = []
        self.nets = None
        self.steps = []


def search(sim, op, epochs=None, rec=None):
    """One public fit; returns the result dict."""
    import torch
    import kd.model.kd_eqgpt as mod
    import kd.model.eqgpt.continue_train_GPT_all as ct
    from pathlib import Path
    if hasattr(mod, "_DATA_DIR"):
        mod._DATA_DIR = Path(os.path.abspath(DATA))
    if hasattr(mod, "_EQGPT_DIR"):
        mod._EQGPT_DIR = Path(os.path.abspath("pkg"))
    est = mod.KD_EqGPT(optimize_epochs=epochs or op["epochs"], samples_per_epoch=op["samples"], case_filter=op["filter"], seed=op["seed"],
                       retrain_surrogate=bool(op["retrain"]), surrogate_epochs=op["retrain"] or 5)
    real, real_step = ct.calculate_reward, torch.optim.Adam.step
    per = {}

    def recorded(sentence, nets, *a, **k):
        s = list(sentence)
        out = real(sentence, nets, *a, **k)
        if rec is not None:
            rec.seen.append((s, float(out[0])))
            rec.nets = nets
        return out

    def step(self, *a, **k):
        r = real_step(self, *a, **k)
        if op["retrain"] >= 500:
            # keyed by the optimizer itself: one per surrogate
            e = per.setdefault(id(self), {"opt": self, "n": 0, "at": {}})
            e["n"] += 1
            if op.get("shake") and e["n"] == op["shake"][0]:
                g = torch.Generator().manual_seed(op["shake"][0])
                with torch.no_grad():
                    for grp in self.param_groups:
                        for p in grp["params"]:
                            if op["shake"][1] < 10:
                                p.add_(torch.empty(p.shape).normal_(0, op["shake"][1], generator=g))
                            elif p.numel() == 1:
                                p.add_(op["shake"][1])          # far off everywhere
            if e["n"] % 500 == 0:
                e["at"][e["n"]] = [p.detach().clone() for grp in self.param_groups for p in grp["params"]]
        return r
    from kd.model.eqgpt import neural_network
    real_forward = neural_network.NN.forward
    trained_on = {}

    def forward(self, x, *a, **k):
        if op["retrain"] >= 500 and torch.is_grad_enabled() and not x.requires_grad and len(x) <= 200:
            key = id(next(self.parameters()))
            n = trained_on.setdefault(key, [0, set()])
            if n[0] < 3:
                n[0] += 1
                n[1].update(r.tobytes() for r in x.detach().numpy().astype("float32"))
        return real_forward(self, x, *a, **k)
    ct.calculate_reward = recorded
    torch.optim.Adam.step = step
    neural_network.NN.forward = forward
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = est.fit_pretrained()
    finally:
        ct.calculate_reward, torch.optim.Adam.step = real, real_step
        neural_network.NN.forward = real_forward
        if rec is not None:
            rec.steps = [e for e in per.values() if e["at"]]
            for e in rec.steps:
                rows = [trained_on.get(id(p)) for grp in e["opt"].param_groups for p in grp["params"]]
                e["rows"] = next((r[1] for r in rows if r), None)
    return out


def names_used(cases, op):
    return [c for c in sorted(cases, key=lambda c: c["name"]) if (op["filter"] == "all" or "N" in c["name"]) and (c["have"] or op["retrain"])]


def inspect(sim, tag, op, cases, res, rec):
    """Invariants of one completed search."""
    import numpy as np
    import torch
    for k in ("equations", "rewards", "best_equation", "best_reward"):
        if k not in res:
            sim.violate("shape", "%s: the result has no %s" % (tag, k))
            return
    eqs, rw = list(res["equations"]), [float(v) for v in res["rewards"]]
    if not eqs or len(eqs) != len(rw) or len(eqs) > 10 or res["best_equation"] != eqs[0] or float(res["best_reward"]) != rw[0]:
        sim.violate("shape", "%s: equations %s rewards %s best %s %s" % (tag, eqs, rw, res["best_equation"], res["best_reward"]))
        return
    if not all(math.isfinite(v) for v in rw):
        sim.violate("finite", "%s: rewards %s of %s" % (tag, rw, eqs[:3]))
        return
    if any(a <= b for a, b in zip(rw, rw[1:])):
        sim.violate("sorted", "%s: rewards are not strictly descending: %s" % (tag, rw))
    used = names_used(cases, op)
    nets = [surrogate(c).eval() for c in used]
    if op["retrain"]:
        nets = rec.nets
        if nets is not None and len(nets) != len(used):
            sim.violate("cases", "%s: %d surrogates for the cases %s" % (tag, len(nets), [c["name"] for c in used]))
            return
    if nets is not None:
        fields = [Field(n, grid(c)) for n, c in zip(nets, used)]
        for e, r in list(zip(eqs, rw))[:6]:
            try:
                mine, sure = evaluate(e, fields)
            except KeyError as k:
                raise RuntimeError("the evaluator does not know %s" % k)
            if sure and abs(mine - r) > 2e-3 * max(1.0, abs(mine)):
                sim.violate("truth", "%s: %s is reported with %.6g, evaluated again it earns %.6g" % (tag, e, r, mine))
                return
            sim.info["evaluated"] = sim.info.get("evaluated", 0) + int(sure)
    # nothing the search evaluated beats what it reports
    good = sorted({float(np.float32(v)) for _, v in rec.seen if math.isfinite(v)}, reverse=True)
    if good:
        want = good[:10]
        if rw != want:
            sim.violate("best", "%s: the best distinct rewards evaluated were %s, reported %s" % (tag, want, rw))
    # every surrogate is the checkpoint of its own training with the lowest validation error
    if op["retrain"] >= 500 and rec.nets is not None and len(rec.steps) >= len(used):
        for c, net, st in zip(used, rec.nets, rec.steps):
            have = [p.detach() for p in net.parameters()]
            match = [k for k, w in st["at"].items() if all(torch.equal(a, b) for a, b in zip(w, have))]
            if not match:
                sim.violate("checkpoint", "%s: the surrogate of %s is no checkpoint of its training" % (tag, c["name"]))
                return
            d = observations(c)
            xin = d[:, :2].copy()
            xin[:, 1] -= 8
            err = {}
            for k, w in st["at"].items():
                n2 = copy.deepcopy(net)
                with torch.no_grad():
                    for p, v in zip(n2.parameters(), w):
                        p.copy_(v)
                    err[k] = ((n2(torch.tensor(xin, dtype=torch.float32))[:, 0].numpy() - d[:, 2] * 100) ** 2)
            best = min(err, key=lambda k: err[k].mean())
            # which points validate is the search's own business: judge where all points agree,
            # or by those points the surrogate was not trained on
            rest = [i for i, r in enumerate(xin.astype("float32")) if st["rows"] and r.tobytes() not in st["rows"]]
            if 3 <= len(rest) <= 20:
                for k in err:
                    gap = err[match[0]][rest] - err[k][rest]
                    if gap.sum() - max(gap.max(), 0) > 0.02 * err[k][rest].sum():
                        sim.violate("checkpoint", "%s: the surrogate of %s is checkpoint %d although %d is better on the points it was not trained on (%.4g / %.4g)" % (
                            tag, c["name"], match[0], k, err[match[0]][rest].mean(), err[k][rest].mean()))
                        return
                sim.info["judged"] = sim.info.get("judged", 0) + 1
            if match[0] != best and (err[match[0]] > err[best]).all():
                sim.violate("checkpoint", "%s: the surrogate of %s is checkpoint %d although %d is better (%.3g / %.3g)" % (
                    tag, c["name"], match[0], best, err[match[0]].mean(), err[best].mean()))


def run(plan, sim):
    root = os.getcwd()
    os.makedirs("tmp")
    sim.install_tmp(os.path.join(root, "tmp"))
    cases, gpt = copy.deepcopy(plan["cases"]), plan["gpt"]

    # what each search gives in a process of its own, on the disk as it then is
    def once(op, epochs=None):
        work.ambient(plan["amb"] + 1)
        try:
            return {"res": canon(search(sim, op, epochs))}
        except Exception as e:
            return {"raised": type(e).__name__}

    def alone(op, epochs=None):
        return sim.incarnation(lambda: once(op, epochs), "fresh")["value"]
    others = {k: sim.reserve(lambda op=op: once(op["meanwhile"]), "other%d" % k) for k, op in enumerate(plan["ops"]) if op.get("meanwhile")}
    expected_others = {}

    expected = []
    for op in plan["ops"]:
        if op["do"] == "replace":
            gpt = apply_replace(cases, gpt, op)
            expected.append(None)
            continue
        write_disk(root, cases, gpt, plan.get("like"))
        expected.append(alone(op))
        if op.get("meanwhile"):
            expected_others[len(expected) - 1] = alone(op["meanwhile"])
    shorter = None
    last = plan["ops"][-1]
    if last["epochs"] > 1 and "res" in expected[-1]:
        shorter = alone(last, last["epochs"] - 1)

    cases, gpt = copy.deepcopy(plan["cases"]), plan["gpt"]
    write_disk(root, cases, gpt, plan.get("like"))
    work.ambient(plan["amb"])
    sim.install_clock()
    sim.install_fs()
    sim.log_io = False
    before = disk_state(root)
    got = 0
    for k, op in enumerate(plan["ops"]):
        if op["do"] == "replace":
            gpt = apply_replace(cases, gpt, op)
            on, sim.fs_on = sim.fs_on, False
            write_disk(root, cases, gpt, plan.get("like"))
            sim.fs_on = on
            before = disk_state(root)
            continue
        tag = "search %d" % k
        mark = len(sim.trace)
        sim.arm([op["io"]] if op.get("io") else [])
        if op.get("strike"):
            sim.install_steps(prefixes=[os.path.join(boot.REPO, "kd") + os.sep])
            sim.step_no = 0
            sim.step_hook = sim.strike_at(op["strike"]["at"], op["strike"])
        apart = []
        if k in others:
            sim.install_steps(prefixes=[os.path.join(boot.REPO, "kd") + os.sep])
            sim.step_no = 0
            sim.step_hook = sim.aside(op["meanwhile"]["at"], lambda: apart.append(others[k]()))
        rec = Recorder()
        res = err = None
        try:
            res = search(sim, op, rec=rec)
        except (Exception, KeyboardInterrupt) as e:
            err = type(e).__name__ + ": " + str(e)[:200]
        sim.step_hook = None
        sim.remove_steps()
        sim.arm([])
        gc.collect()
        hit = any(ln.startswith("fault ") for ln in sim.trace[mark:])
        sim.log(tag, canon(res) if err is None else err.replace(root, ""))
        want = expected[k]
        if apart and apart[0].get("value") != expected_others[k]:
            sim.violate("repeat", "%s: another search in another process meanwhile gives %s, alone %s" % (tag, apart[0].get("value", apart[0]["exit"]), expected_others[k]))
        if err is not None:
            if not hit and names_used(cases, op) and "raised" in want:
                sim.violate("raises", "%s: every file is whole and nothing failed but it raised %s" % (tag, err))
            if not hit and "raised" not in want:
                sim.violate("repeat", "%s raised %s; in a fresh process it gives %s" % (tag, err, want))
        else:
            got += 1
            if canon(res) != want.get("res"):
                a, b = canon(res), want.get("res") or {}
                sim.violate("repeat", "%s%s: %s; in a fresh process %s" % (tag, " (a file fault struck)" if hit else "",
                                                                         {q: v for q, v in a.items() if v != b.get(q)}, {q: v for q, v in b.items() if v != a.get(q)} or want))
            if not hit:
                inspect(sim, tag, op, cases, res, rec)
        after = disk_state(root)
        if after != before:
            sim.violate("disk", "%s: files changed, appeared or disappeared: %s" % (
                tag, sorted(q for q in set(before) | set(after) if before.get(q) != after.get(q))[:6]))
            return
        if os.listdir("tmp"):
            sim.violate("disk", "%s: temporary directories remain: %s" % (tag, os.listdir("tmp")))
            return
        if not names_used(cases, op) and err is None:
            sim.violate("cases", "%s: a result without any case" % tag)
    if shorter and "res" in shorter and got and "res" in expected[-1]:
        a = [float.fromhex(v) if v != "nan" else math.nan for v in shorter["res"]["rewards"]]
        b = [float.fromhex(v) if v != "nan" else math.nan for v in expected[-1]["res"]["rewards"]]
        if len(b) < len(a) or any(not y >= x for x, y in zip(a, b)):
            sim.violate("monotone", "with one epoch less the rewards were %s, with all %s" % (a, b))
    sim.nontrivial = got > 0 and (bool(sim.stats["faults"]) or len(plan["ops"]) > 1)
    sim.info["count"] = {"searches": got, "retrained": sum(1 for o in plan["ops"] if o.get("retrain")), "equations evaluated again": sim.info.pop("evaluated", 0),
                         "checkpoints judged": sim.info.pop("judged", 0)}
