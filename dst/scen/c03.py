"""C03: DLGA reports the best of its own training and its own search."""
import copy
import math
import os

from .. import boot, work
from ..sim import canon, digest

MODULES = boot.BASE_MODULES
TIMEOUT = 200
TIERS = {"quick": {"runs": 1500, "budget_s": 34, "selftest": 8, "min_runs": 30, "shrink_s": 40},
         "thorough": {"runs": 60000, "budget_s": 1500, "selftest": 120, "min_runs": 600}}
RULE = ("one run = 1-2 DLGA fits in a working directory that holds older or foreign checkpoint files, which another process replaces, damages or "
        "removes at seeded iterations or lines, with an unstable optimizer, failing writes and interrupts; weights are recorded at "
        "the optimizer; the result is recomputed from the recorded weights by an independent evaluator; non-trivial = the best checkpoint was not "
        "the last one, or a file was replaced or a fault struck, and a result was returned")
REAL = ["KD_DLGA, DLGA, NN whole; PDEDataset sampling"]
STUB = ["the other process that shares the directory (its file operations)", "disk faults", "optimizer disturbance", "clock (virtual)"]
ASSUMPTIONS = ["checkpoints are taken every 500 iterations (the documented interval), else after the last iteration"]
STATE_MEASURE = "digest of the run's event log"
EVERY = 500


def prepare(base):
    boot.standard_prepare(models=("dlga",))


def gen_fit(rng):
    f = work.gen_fit(rng, ("dlga",))
    f["max_iter"] = rng.choice([3, 12, 499, 500, 1000, 1000, 1200, 1500, 1500, 2000])
    f["sample"] = rng.choice([60, 90, 120])
    f["pop"] = rng.choice([8, 10, 14])
    f["gens"] = rng.choice([1, 3, 6, 8])
    f["ops"] = rng.choice([["u", "u_x", "u_xx", "u_xxx"], ["u", "u_x", "u_xx"], ["u_x", "u"], ["u_xx", "u", "u_xxx"]])
    return f


def gen(rng, idx, tier):
    f = gen_fit(rng)
    ops = []
    for i in range(rng.choice([1, 1, 2])):
        g = dict(f)
        if i:
            g["max_iter"] = rng.choice([f["max_iter"], 3, 700, 1000])
            g["gens"] = rng.choice([f["gens"], 2])
            g["ds"] = rng.choice([f["ds"], work.gen_ds(rng)])
        op = {"do": "fit", "max_iter": g["max_iter"], "gens": g["gens"], "ds": g["ds"], "seed": rng.randrange(10000)}
        big = g["max_iter"] >= EVERY
        if big and rng.random() < 0.6:
            op["shake"] = [[rng.randrange(400, g["max_iter"] + 1), rng.choice([0.02, 0.1, 0.5])] for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.6:
            op["rival"] = [gen_rival(rng, g, big) for _ in range(rng.choice([1, 1, 2, 3]))]
        r = rng.random()
        if r < 0.15:
            op["io"] = {"on": rng.choice(["open-w", "write", "close", "mkdir"]), "match": rng.choice(["*", "model_save/*", "result_save/*"]),
                        "nth": rng.choice([1, 1, 2, 3]), "times": rng.choice([1, 1, 100]), "do": rng.choice(["ENOSPC", "EIO", "EACCES"]),
                        "arg": rng.choice([0, 3, 0.5])}
        elif r < 0.3 and not big:
            op["strike"] = {"do": rng.choice(["interrupt", "memerr", "error"]), "frac": round(rng.random(), 4)}
        ops.append(op)
    return {"fit": f, "ops": ops, "before": [gen_rival(rng, f, False) for _ in range(rng.choice([0, 0, 1, 3]))],
            "flat": rng.random() < 0.25 and f["max_iter"] <= 1000}


def gen_rival(rng, g, big):
    name = rng.choice(["model_save/Net_%d.pkl" % e for e in (500, 1000, 1500, g["max_iter"])] + ["result_save/best_save.pkl"])
    at = {"iter": rng.choice([rng.randrange(1, g["max_iter"] + 1), g["max_iter"], (g["max_iter"] // EVERY) * EVERY or 1])} \
        if big or rng.random() < 0.4 else {"frac": round(rng.random(), 4)}
    return {"file": name, "how": rng.choice(["other", "other", "garbage", "remove", "empty"]), "at": at, "seed": rng.randrange(100)}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for k in ("shake", "rival", "io", "strike"):
            if k in op:
                c = copy.deepcopy(plan)
                del c["ops"][i][k]
                yield c
                if isinstance(op[k], list) and len(op[k]) > 1:
                    c = copy.deepcopy(plan)
                    c["ops"][i][k] = op[k][1:]
                    yield c
        if op["gens"] > 1:
            c = copy.deepcopy(plan)
            c["ops"][i]["gens"] -= 1
            yield c
    if plan["before"]:
        c = copy.deepcopy(plan)
        c["before"] = []
        yield c
    if plan["flat"]:
        c = copy.deepcopy(plan)
        c["flat"] = False
        yield c


def weights(net):
    return digest({k: canon(v) for k, v in net.state_dict().items()})


def meddle(sim, r, make_net):
    """What another process does to a file of the shared directory."""
    import pickle
    import random
    import torch
    on, sim.fs_on = sim.fs_on, False
    try:
        os.makedirs(os.path.dirname(r["file"]), exist_ok=True)
        if r["how"] == "remove":
            if os.path.exists(r["file"]):
                os.remove(r["file"])
        elif r["how"] in ("garbage", "empty"):
            with open(r["file"], "wb") as fh:
                fh.write(b"" if r["how"] == "empty" else b"\x80\x04not a pickle" * 7)
        elif r["file"].endswith("best_save.pkl"):
            g = random.Random(r["seed"])
            with open(r["file"], "wb") as fh:
                pickle.dump([[g.randrange(2)], [g.randrange(2), g.randrange(2)]], fh)
        else:
            torch.save(make_net(r["seed"]), r["file"])
    finally:
        sim.fs_on = on
    sim.log("rival", r["file"], r["how"])
    sim.count("rival:" + r["how"])


def other_weights(net, seed):
    import torch
    g = torch.Generator().manual_seed(seed)
    return {k: torch.empty(v.shape).normal_(0, 0.4, generator=g) for k, v in net.state_dict().items()}


def install_optimizer(sim):
    """Count the steps of the optimizer, record weights, disturb on demand."""
    import torch
    real = torch.optim.Adam.step

    def step(self, *a, **k):
        r = real(self, *a, **k)
        cb = sim.on_step
        if cb is not None:
            cb(self)
        return r
    sim.on_step = None
    torch.optim.Adam.step = step


def fit_once(sim, m, f, op, rec, quiet=False):
    """One public fit, its training observed at the optimizer."""
    import torch
    work.ambient(op["seed"])
    m.max_iter, m.n_generations = op["max_iter"], op["gens"]
    shake = {int(k): s for k, s in op.get("shake", [])}
    rivals = {}
    for r in op.get("rival", []) if not quiet else []:
        if "iter" in r["at"]:
            rivals.setdefault(r["at"]["iter"], []).append(r)
    count = [0]

    def on_step(opt):
        count[0] += 1
        k = count[0]
        if k in shake:
            g = torch.Generator().manual_seed(k)
            with torch.no_grad():
                for grp in opt.param_groups:
                    for p in grp["params"]:
                        p.add_(torch.empty(p.shape).normal_(0, shake[k], generator=g))
            sim.log("shake", k)
        if k % EVERY == 0 or k == op["max_iter"]:
            rec["saved"][k] = digest([canon(p) for grp in opt.param_groups for p in grp["params"]])
        for r in rivals.get(k, ()):
            meddle(sim, r, lambda s: other_weights(m.Net, s))
    sim.on_step = on_step
    real = m.fit

    def fit(X, y, *a, **k):
        rec["X"], rec["y"] = X.copy(), y.copy()
        return real(X, y, *a, **k)
    m.fit = fit
    try:
        return m.fit_dataset(work.dataset(op["ds"]), sample=f["sample"])
    finally:
        sim.on_step = None
        del m.fit


def run(plan, sim):
    f = plan["fit"]
    sim.install_clock()
    install_optimizer(sim)
    sim.install_fs()
    work.ambient(f["seed"])
    m = work.make(f)
    for r in plan["before"]:
        meddle(sim, r, lambda s: other_weights(m.Net, s))
    interesting = False
    for i, op in enumerate(plan["ops"]):
        tag = "fit %d" % i
        rec = {"saved": {}}
        lines = 0
        late = [r for r in op.get("rival", []) if "frac" in r["at"]]
        if op.get("strike") or late:
            lines = measure(sim, i, m, f, op)
        mark = len(sim.trace)
        sim.arm([op["io"]] if op.get("io") else [])
        if lines:
            sim.install_steps()
            sim.step_no = 0
            todo = sorted(((max(1, int(lines * r["at"]["frac"])), j, r) for j, r in enumerate(late)), key=lambda t: t[:2])
            hit = sim.strike_at(max(1, int(lines * op["strike"]["frac"])), op["strike"]) if op.get("strike") else None

            def hook(n, code, line):
                while todo and n >= todo[0][0]:
                    meddle(sim, todo.pop(0)[2], lambda s: other_weights(m.Net, s))
                if hit is not None:
                    hit(n, code, line)
            sim.step_hook = hook
        how, val = "ok", None
        try:
            fit_once(sim, m, f, op, rec)
        except BaseException as e:
            how, val = "raised", "%s: %s" % (type(e).__name__, str(e)[:100])
        sim.step_hook = None
        sim.remove_steps()
        sim.arm([])
        hits = [ln for ln in sim.trace[mark:] if ln.startswith("fault ")]
        rivals = [ln for ln in sim.trace[mark:] if ln.startswith("rival ")]
        sim.log(tag, how, val)
        if how == "raised":
            if not hits:
                sim.violate("raises", "%s: no operation of its own failed (%s) but it raised %s" % (tag, "; ".join(rivals), val))
            continue
        last = check(sim, tag, m, f, op, rec)
        interesting = interesting or bool(hits or rivals) or last
    if plan["flat"]:
        flat(sim, plan, f)
    sim.nontrivial = interesting
    sim.info["count"] = {"model:dlga": 1}


def measure(sim, i, m, f, op):
    def twin():
        sim.install_steps()
        sim.step_no = 0
        try:
            os.makedirs("twin", exist_ok=True)
            os.chdir("twin")
            fit_once(sim, m, f, op, {"saved": {}}, quiet=True)
        except BaseException:
            pass
        return sim.step_no
    r = sim.incarnation(twin, "measure%d" % i)
    return r.get("value") or 1


def check(sim, tag, m, f, op, rec):
    """The fit returned: everything it reports is its own best."""
    import numpy as np
    import torch
    n, gens = op["max_iter"], op["gens"]
    val, tr = list(m.val_loss_history), list(m.train_loss_history)
    if len(val) != n or len(tr) != n:
        sim.violate("history", "%s: %d iterations, but %d training and %d validation losses" % (tag, n, len(tr), len(val)))
        return False
    marks = [k for k in range(EVERY, n + 1, EVERY)] or [n]
    losses = [val[k - 1] for k in marks]
    if any(math.isnan(v) for v in losses):
        return False
    best = [k for k, v in zip(marks, losses) if v == min(losses)]
    got = digest([canon(p) for p in m.Net.parameters()])
    sim.log("checkpoints", marks, [float(v).hex() for v in losses], m.best_epoch)
    if m.best_epoch not in best:
        sim.violate("best-epoch", "%s: validation losses %s at %s, but epoch %s is called the best" % (tag, losses, marks, m.best_epoch))
    if rec["saved"] and got not in [rec["saved"].get(k) for k in best]:
        src = [k for k, d in rec["saved"].items() if d == got]
        sim.violate("weights", "%s: the network is not that of the best checkpoint %s but %s" % (
            tag, best, "that of iteration %s" % src if src else "one this training never had"))
        return False
    # the library of terms comes from that network
    X = torch.from_numpy(rec["X"].astype(np.float32)).requires_grad_(True)
    u = m.Net(X)
    g = lambda v: torch.autograd.grad(v.sum(), X, create_graph=True)[0]
    d1 = g(u)
    ux, ut = d1[:, 0:1], d1[:, 1:2]
    uxx = g(ux)[:, 0:1]
    terms = {"u": u, "u_x": ux, "u_xx": uxx, "u_xxx": g(uxx)[:, 0:1], "u_t": ut, "u_tt": g(ut)[:, 1:2]}
    terms = {k: v.detach().cpu().numpy().astype(float) for k, v in terms.items()}
    for k, v in m.metadata.items():
        if k in terms and not near(np.asarray(v, float).reshape(-1, 1), terms[k], 1e-4):
            sim.violate("terms", "%s: the values of %s are not those of the trained network" % (tag, k))
            return False
    # generations
    fh, eh = [float(v) for v in m.fitness_history], list(m.evolution_history)
    if len(fh) != gens or len(eh) != gens or [e.get("generation") for e in eh] != list(range(1, gens + 1)):
        sim.violate("history", "%s: %d generations, but %d fitness and %d evolution entries" % (tag, gens, len(fh), len(eh)))
        return False
    if [float(e["fitness"]) for e in eh] != fh:
        sim.violate("history", "%s: the fitness and evolution histories disagree" % tag)
    for a, b in zip(fh, fh[1:]):
        if b > a:
            sim.violate("lost", "%s: the best fitness rose from %r to %r" % (tag, a, b))
            return False
    fit0, chrom, coef, name = float(m.Fitness[0]), m.Chrom[0], np.asarray(m.coef[0], float), m.name[0]
    if fit0 != fh[-1] or fit0 != min(float(v) for v in m.Fitness):
        sim.violate("lost", "%s: the reported equation has fitness %r, the best found is %r" % (tag, fit0, fh[-1]))
        return False
    if name not in ("u_t", "u_tt") or coef.shape != (len(chrom), 1):
        sim.violate("equation", "%s: %d terms, coefficients %s, left side %r" % (tag, len(chrom), coef.shape, name))
        return False
    cols, size = [], 0
    for mod in chrom:
        c = np.ones((len(X), 1))
        for gene in mod:
            c = c * terms[f["ops"][gene]]
            size += 1
        cols.append(c)
    want, other = {}, {}
    for lhs in ("u_t", "u_tt"):
        want[lhs] = tls(terms[lhs], np.hstack(cols))
        other[lhs] = want[lhs][1] + m.epi * size
    res = float(np.mean((terms[name] - np.hstack(cols) @ coef) ** 2)) + m.epi * size
    if not near1(res, fit0, 1e-3):
        sim.violate("honest", "%s: the equation is reported with fitness %r but earns %r" % (tag, fit0, res))
        return False
    wrong = "u_tt" if name == "u_t" else "u_t"
    if min(other.values()) == other[wrong] and not near1(other[wrong], other[name], 1e-3) and want[name][2] and want[wrong][2]:
        sim.violate("honest", "%s: %s fits with %r, %s is reported with %r" % (tag, wrong, other[wrong], name, fit0))
    return m.best_epoch != marks[-1]


def tls(y, A):
    """Total least squares as documented; also says whether it is well determined."""
    import numpy as np
    M = np.hstack((y, A))
    s, vt = np.linalg.svd(M, full_matrices=False)[1:]
    v = vt[-1]
    c = -(v / (v[0] + 1e-8))[1:].reshape(-1, 1)
    stable = len(s) > 1 and s[-2] - s[-1] > 1e-3 * s[0] and abs(v[0]) > 1e-3
    return c, float(np.mean((y - A @ c) ** 2)), stable


def near1(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-12)


def near(a, b, tol):
    import numpy as np
    return a.shape == b.shape and float(np.max(np.abs(a - b))) <= tol * max(1e-6, float(np.max(np.abs(b))))


def flat(sim, plan, f):
    """Targets given as a column or as a plain vector mean the same."""
    op = {k: v for k, v in plan["ops"][0].items() if k in ("do", "max_iter", "gens", "ds", "seed", "shake")}

    def go(shape):
        def body():
            os.makedirs("flat", exist_ok=True)
            os.chdir("flat")
            work.ambient(f["seed"])
            m = work.make(f)
            X, y = work.dataset(op["ds"]).sample(f["sample"], method="uniform")
            m.max_iter, m.n_generations = op["max_iter"], op["gens"]
            work.ambient(op["seed"])
            m.fit(X, y.reshape(shape))
            return canon([m.val_loss_history, m.train_loss_history, m.best_epoch, m.Chrom[0], m.coef[0], float(m.Fitness[0])])
        return body
    a, b = sim.incarnation(go((-1, 1)), "column"), sim.incarnation(go((-1,)), "vector")
    sim.log("flat", digest(a.get("value")), digest(b.get("value")))
    if a["exit"] != "ok" or b["exit"] != "ok" or a["value"] != b["value"]:
        sim.violate("flat", "targets as a vector give another result than as a column: %s / %s" % (str(b)[:150], str(a)[:150]))
