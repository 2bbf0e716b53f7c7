"""C05: models in one process do not influence one another."""
import copy

from .. import boot, work
from ..sim import canon, digest

MODULES = boot.BASE_MODULES
TIMEOUT = 150
TIERS = {"quick": {"runs": 1500, "budget_s": 36, "selftest": 8, "min_runs": 30, "shrink_s": 40},
         "thorough": {"runs": 60000, "budget_s": 1500, "selftest": 150, "min_runs": 800}}
RULE = ("one run = 2-3 estimators whose public calls (construction, import, training, steps, fits, predictions, plots, re-evaluation of the "
        "best program) are interleaved in a seeded order, with failing and interrupted calls of the others; or the calls of two Discover "
        "estimators in simulated threads switching at seeded lines; each call's outcome is compared with the same calls made alone "
        "in a process; non-trivial = a call of another model fell between two calls of one, or the threads switched")
REAL = ["KD_SGA, KD_DLGA, KD_Discover, KD_Discover_Regression, KD_Discover_SPR whole"]
STUB = ["thread scheduling and locks", "errors at executed lines", "clock (virtual)"]
ASSUMPTIONS = ["the global random generators are set to the same state before each call in both executions",
               "threads: calls that seed their own generators (fits) and calls that draw nothing"]
STATE_MEASURE = "digest of the run's event log"


def prepare(base):
    boot.standard_prepare(models=("sga", "dlga", "discover", "regression", "spr"))


OPS = {
    "discover": [["import"], ["step", "step", "train", "plot", "print_pq", "reval", "fit", "string"]],
    "regression": [["fit"], ["step", "predict", "predict", "reval", "print_pq", "fit", "string", "plot"]],
    "spr": [["fit"], ["reval", "string", "print_pq", "fit"]],
    "sga": [["fit"], ["latex", "fit"]],
    "dlga": [["fit"], ["predict", "fit", "string"]],
}


def gen_model(rng, kinds):
    m = rng.choice(kinds)
    f = work.gen_fit(rng, (m,))
    if m == "discover":
        f["batch"], f["epochs"] = rng.choice([10, 20]), rng.choice([1, 2])
        if f["ds"].get("nd"):
            f["batch"] = 10
    if m in ("regression",):
        f["batch"], f["epochs"] = rng.choice([8, 16]), 1
    if m == "spr":
        f["batch"], f["iters"] = 10, 1
    if m == "sga":
        f["num"], f["gens"] = 4, rng.choice([1, 2])
    if m == "dlga":
        f["pop"], f["gens"], f["max_iter"] = 8, rng.choice([1, 2]), rng.choice([3, 7])
    return f


def gen(rng, idx, tier):
    if rng.random() < 0.3:
        return gen_threads(rng)
    n = rng.choice([2, 2, 3])
    main = ["discover"] * 4 + ["regression"] * 3 + ["spr"]
    fits = [gen_model(rng, main)]
    while len(fits) < n:
        fits.append(work.sibling(rng, fits[0]) if rng.random() < 0.3 else
                    gen_model(rng, main if rng.random() < 0.75 else ["sga", "dlga", "dlga", "spr"]))
    seqs = []
    for f in fits:
        first, rest = OPS[f["model"]]
        k = {"discover": rng.choice([2, 3, 5]), "regression": rng.choice([2, 3, 4]), "spr": 1}.get(f["model"], rng.choice([1, 2]))
        ops = [{"do": "make"}, {"do": rng.choice(first)}]
        for _ in range(k):
            ops.append({"do": rng.choice(rest)})
        for op in ops:
            op["seed"] = rng.randrange(10000)
            if op["do"] == "plot":
                op["kind"] = rng.choice(["evolution", "density", "tree"])
        seqs.append(ops)
    # one random merge of the sequences
    order = [i for i, s in enumerate(seqs) for _ in s]
    rng.shuffle(order)
    ops = []
    its = [iter(s) for s in seqs]
    for i in order:
        ops.append(dict(next(its[i]), on=i))
    for op in ops:
        # only models other than the first fail
        if op["on"] and op["do"] in ("fit", "step", "train", "import") and rng.random() < 0.3:
            op["strike"] = {"do": rng.choice(["error", "interrupt", "memerr"]), "frac": round(rng.random(), 4)}
    return {"mode": "mix", "fits": fits, "ops": ops}


def gen_threads(rng):
    from ..threads import gen_sched
    fits, ops = [], []
    for i in range(2):
        f = gen_model(rng, ["discover", "regression", "discover", "regression", "spr"])
        if f["ds"].get("nd"):
            f["ds"] = work.gen_ds(rng)
        if f["model"] == "discover":
            f["batch"], f["epochs"] = 10, 1
        fits.append(f)
        seq = [{"do": "fit"}]
        for _ in range(rng.choice([0, 1, 2])):
            more = {"discover": ["string", "reval", "print_pq", "fit"], "regression": ["predict", "predict", "string", "reval", "fit"],
                    "spr": ["string", "reval"]}[f["model"]]
            seq.append({"do": rng.choice(more)})
        for op in seq:
            op["on"] = i
            ops.append(op)
    # one of them may already be fitted when the threads start
    return {"mode": "threads", "fits": fits, "ops": ops, "ready": rng.choice([None, None, 0, 1]),
            "sched": gen_sched(rng, rng.choice([6, 15, 40]), rng.choice([300, 5000, 60000]))}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if "strike" in op:
            c = copy.deepcopy(plan)
            del c["ops"][i]["strike"]
            yield c
    for i, f in enumerate(plan["fits"]):
        for k, v in (("batch", 10), ("epochs", 1), ("gens", 1)):
            if f.get(k, v) > v:
                c = copy.deepcopy(plan)
                c["fits"][i][k] = v
                yield c


def state(m, f):
    """What a user can see of a model without calling it."""
    s = getattr(m, "searcher", None)
    if s is not None:
        p = s.best_p
        return canon({"best": None if p is None else repr(p), "r": float(s.r_best), "n": len(s.r_history),
                      "queue": [float(x.rewards) for _, x in s.pq.iter_in_order()]})
    if f["model"] == "sga":
        return canon({"pde": getattr(m, "best_pde_", None), "score": getattr(m, "best_score_", None)})
    if f["model"] == "dlga":
        return canon({"eq": getattr(m, "eq_latex", None), "n": len(m.train_loss_history)})
    return None


def apply(m, f, op):
    import numpy as np
    d = op["do"]
    if d == "import":
        return m.import_dataset(work.dataset(f["ds"])) and None
    if d == "fit":
        return work.record(m, f, work.do_fit(m, f))
    if d == "step":
        r = m.train_one_step(epoch=3, verbose=False)
        return canon(r) if isinstance(r, (int, float, str, list, dict)) else None
    if d == "train":
        r = m.train(n_epochs=1, verbose=False)
        return canon({"r": float(r["r"]), "expr": r["expression"], "trav": r["traversal"]})
    if d == "plot":
        m.plot(op["kind"])
        return None
    if d == "print_pq":
        m.print_pq()
        return None
    if d == "predict":
        if f["model"] == "regression":
            r = np.random.RandomState(3)
            return canon(np.asarray(m.predict(r.uniform(-1, 1, (7, 2)))))
        return canon(np.asarray(m.predict(np.asarray([[0.2, 0.3], [-0.7, 0.9], [1.1, 0.2]]))))
    if d == "reval":
        p = m.searcher.best_p
        if p is None:
            return None
        r = p.task.reward_function(p)
        return canon([np.asarray(x, dtype=float) if isinstance(x, (float, int, np.ndarray, np.floating)) else None
                      for x in (r if isinstance(r, tuple) else (r,))])
    if d == "string":
        if f["model"] == "dlga":
            return canon([m.eq_latex, np.asarray(m.coef[0])])
        p = m.searcher.best_p
        return None if p is None else canon([p.str_expression, repr(p), float(p.r_ridge), bool(p.invalid),
                                             np.asarray(p.w, dtype=float) if getattr(p, "w", None) is not None else None])
    if d == "latex":
        return m.equation_latex()
    raise ValueError(d)


def one(models, fits, op, seed=True):
    """One public call; its outcome as plain data."""
    import matplotlib.pyplot as plt
    i = op["on"]
    f = fits[i]
    if seed:
        work.ambient(op["seed"])
    try:
        if op["do"] == "make":
            models[i] = work.make(f)
            out = ["ok", None]
        else:
            out = ["ok", apply(models[i], f, op)]
    except BaseException as e:
        out = ["raised", "%s: %s" % (type(e).__name__, str(e)[:120])]
    if seed:
        plt.close("all")
    return out + [state(models[i], f) if i in models else None]


def alone(sim, plan, i, strip=True):
    """Model i's calls in a process of their own."""
    def body():
        models, out = {}, []
        for op in plan["ops"]:
            if op["on"] == i:
                out.append(one(models, plan["fits"], op, seed="seed" in op))
        return out
    r = sim.incarnation(body, "alone%d" % i)
    if r["exit"] != "ok":
        raise RuntimeError("reference execution failed: %s" % str(r)[:300])
    return r["value"]


def run(plan, sim):
    import json
    sim.install_clock()
    boot.small_pictures()
    if plan["mode"] == "threads":
        return run_threads(plan, sim)
    # a model disturbed by its own faults is compared up to its first fault
    refs = {}
    for i in range(len(plan["fits"])):
        if any(op["on"] == i for op in plan["ops"]):
            refs[i] = alone(sim, plan, i)
    models, pos, spoiled = {}, {}, set()
    between = 0
    last = None
    for n, op in enumerate(plan["ops"]):
        i = op["on"]
        if last is not None and last != i and pos.get(i):
            between += 1
        last = i
        lines = 0
        if op.get("strike") and i in models:
            def twin():
                sim.install_steps()
                sim.step_no = 0
                one(models, plan["fits"], op)
                return sim.step_no
            lines = sim.incarnation(twin, "measure%d" % n).get("value") or 1
            sim.install_steps()
            sim.step_no = 0
            sim.step_hook = sim.strike_at(max(1, int(lines * op["strike"]["frac"])), op["strike"])
            spoiled.add(i)
        got = one(models, plan["fits"], op)
        sim.step_hook = None
        sim.remove_steps()
        k = pos.get(i, 0)
        pos[i] = k + 1
        got = json.loads(json.dumps(got, default=repr))
        sim.log("call", n, i, op["do"], digest(got))
        if i in spoiled:
            continue
        want = refs[i][k]
        if got != want:
            sim.violate("influence", "call %d, %s of model %d (%s): %s; alone: %s" % (
                n, op["do"], i, plan["fits"][i]["model"], diff(got, want), diff(want, got)))
            break
    sim.nontrivial = between > 0
    sim.info["count"] = {"model:" + f["model"]: 1 for f in plan["fits"]}
    sim.info["count"]["mode:mix"] = 1


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return str(x)[:160]
    return str(a)[:160]


def run_threads(plan, sim):
    import json
    from .. import threads
    fits = plan["fits"]
    refs = {i: alone(sim, {"fits": fits, "ops": [{"do": "make", "on": i}] + (
        [{"do": "fit", "on": i}] if plan["ready"] == i else []) + [op for op in plan["ops"] if op["on"] == i]}, i) for i in (0, 1)}
    threads.install_locks()
    models, got = {}, {0: [], 1: []}
    for i in (0, 1):
        got[i].append(one(models, fits, {"do": "make", "on": i}, seed=False))
        if plan["ready"] == i:
            got[i].append(one(models, fits, {"do": "fit", "on": i}, seed=False))
    sch = threads.Sched(sim, plan["sched"])

    def body(i):
        def go():
            for op in plan["ops"]:
                if op["on"] == i:
                    got[i].append(one(models, fits, op, seed=False))
        return go
    for i in (0, 1):
        sch.spawn("t%d" % i, body(i))
    for r in sch.run():
        if r[0] != "ok":
            sim.violate("thread", "a thread ended with %r" % (r[1],))
    for i in (0, 1):
        a = json.loads(json.dumps(got[i], default=repr))
        sim.log("thread", i, digest(a))
        for k, (g, w) in enumerate(zip(a, refs[i])):
            if g != w:
                sim.violate("influence", "result %d of model %d (%s) while another was used in another thread: %s; alone: %s" % (
                    k, i, fits[i]["model"], diff(g, w), diff(w, g)))
                break
    sim.nontrivial = sim.stats["switches"] > 2
    sim.info["count"] = {"model:" + f["model"]: 1 for f in fits}
    sim.info["count"]["mode:threads"] = 1
