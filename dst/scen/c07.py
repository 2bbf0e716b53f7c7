"""C07: a Discover search never loses or misreports its best equation."""
import math

from .. import boot, work
from ..sim import canon, digest

MODULES = boot.BASE_MODULES
TIMEOUT = 120
TIERS = {"quick": {"runs": 1500, "budget_s": 34, "selftest": 10, "min_runs": 40, "shrink_s": 40},
         "thorough": {"runs": 60000, "budget_s": 1500, "selftest": 200, "min_runs": 1000}}
RULE = ("one run = one in-training Discover, regression or sparse model driven through 2-8 public calls (train_one_step, train, plot, "
        "print_pq), with errors, interrupts, exhausted memory, failing linear algebra at seeded points; invariants after every call, "
        "the best equation re-evaluated in a fresh process; non-trivial = a best equation existed and a fault struck or the search "
        "was continued after a completed call")
REAL = ["KD_Discover, KD_Discover_Regression, KD_Discover_SPR with controller, searcher, memory queue, program evaluation, PINN"]
STUB = ["numpy.linalg failures", "errors at executed lines", "clock (virtual)"]
ASSUMPTIONS = ["programs whose reward is zero or negative are exempt from the check that no better program was sampled"]
STATE_MEASURE = "digest of the run's event log"


def prepare(base):
    boot.standard_prepare(models=("discover", "regression", "spr"))


def gen(rng, idx, tier):
    m = rng.choice(["discover"] * 5 + ["regression"] * 3 + ["spr"] * 2)
    f = work.gen_fit(rng, (m,))
    if m == "discover":
        f["batch"] = rng.choice([10, 20, 40])
    if m == "regression":
        f["batch"] = rng.choice([8, 16, 30])
    if m != "spr" and rng.random() < 0.7:
        f["conf"] = {"training": {"epsilon": rng.choice([0.05, 0.2, 0.5])}, "controller": {"pqt_k": rng.choice([2, 3, 5, 10]),
                                                                                             "pqt_batch_size": 1}}
    ops = []
    n = rng.choice([2, 3, 4, 6, 8]) if m != "spr" else 1
    for i in range(n):
        r = rng.random()
        if m == "spr":
            op = {"do": "fit"}
        elif r < 0.62:
            op = {"do": "step", "verbose": rng.random() < 0.4}
        elif r < 0.76:
            op = {"do": "train", "n": rng.choice([1, 2, 3])}
        elif r < 0.86:
            op = {"do": "plot", "kind": rng.choice(["evolution", "density", "tree"])}
        elif r < 0.93:
            op = {"do": "print_pq"}
        else:
            op = {"do": "ambient", "seed": rng.randrange(1000)}
        if op["do"] in ("step", "train", "fit"):
            r = rng.random()
            if r < 0.4:
                op["strike"] = {"do": rng.choice(["error", "interrupt", "memerr"]),
                                "frac": round(rng.choice([rng.random(), 1 - rng.random() ** 3 * 0.05, rng.random()]), 4)}
            elif r < 0.55:
                op["linalg"] = {"on": "linalg", "match": rng.choice(["lstsq", "*", "lstsq"]), "nth": rng.choice([1, 2, 5, rng.randrange(1, 60)]),
                                "times": rng.choice([1, 1, 3, 1000]), "do": "linalg"}
        ops.append(op)
    return {"fit": f, "ops": ops, "amb": rng.randrange(1000)}


def shrink(plan):
    import copy
    for i, op in enumerate(plan["ops"]):
        for k in ("strike", "linalg"):
            if k in op:
                c = copy.deepcopy(plan)
                del c["ops"][i][k]
                yield c
    if plan["fit"].get("batch", 10) > 10:
        c = copy.deepcopy(plan)
        c["fit"]["batch"] = 10
        yield c


def install_linalg(sim):
    import numpy as np

    def wrap(name):
        real = getattr(np.linalg, name)

        def call(*a, **k):
            if sim.linalg_on and sim.fault("linalg", name) is not None:
                raise np.linalg.LinAlgError("SVD did not converge [injected]")
            return real(*a, **k)
        setattr(np.linalg, name, call)
    sim.linalg_on = False
    for n in ("lstsq", "solve", "svd", "inv", "pinv"):
        wrap(n)


def start(m, f):
    """Make the model ready to be trained step by step."""
    if f["model"] == "discover":
        m.import_dataset(work.dataset(f["ds"]))
    elif f["model"] == "regression":
        # the public fit trains at once; one epoch of it prepares everything
        X, y = work.reg_data(f)
        m.n_iterations = 1
        m.fit(X, y)


def scratch_reward(f, tokens, consts=None):
    """What a program earns in a process that never evaluated anything else (`consts`: with these constants)."""
    import numpy as np
    from kd.model.discover.program import from_tokens
    m = work.make(f)
    start(m, f)
    p = from_tokens(np.array(tokens, dtype=np.int32), skip_cache=True)
    if consts:
        p.set_constants(consts)
        p.optimize_inner_constant = lambda: None
    return [float(p.r_ridge), bool(p.invalid), p.str_expression, repr(p)]


def do(m, f, op):
    if op["do"] == "step":
        return m.train_one_step(epoch=op.get("epoch", 0), verbose=op["verbose"])
    if op["do"] == "train":
        return m.train(n_epochs=op["n"], verbose=False)
    if op["do"] == "fit":
        return work.do_fit(m, f)
    if op["do"] == "plot":
        return m.plot(op["kind"])
    if op["do"] == "print_pq":
        return m.print_pq()
    if op["do"] == "ambient":
        return work.ambient(op["seed"])


def run(plan, sim):
    import numpy as np
    import matplotlib.pyplot as plt
    from kd.model.discover import searcher as smod
    f = plan["fit"]
    install_linalg(sim)
    sim.install_clock()
    work.ambient(plan["amb"])
    boot.small_pictures()
    scratch = sim.reserve(lambda arg: scratch_reward(f, *arg), "scratch")
    seen = {}
    real = getattr(smod, "from_tokens", None)
    if real is not None:
        def recorder(*a, **k):
            p = real(*a, **k)
            seen[id(p)] = p
            return p
        smod.from_tokens = recorder
    m = work.make(f)
    if f["model"] != "spr":
        start(m, f)
    best = None
    struck = completed = 0
    cost = {}
    for i, op in enumerate(plan["ops"]):
        tag = "call %d (%s)" % (i, op["do"])
        before = observe(m)
        seen.clear()
        op = dict(op, epoch=i)
        if op.get("strike"):
            n = measure(sim, plan, i, op, m, f)
        mark = len(sim.trace)
        sim.arm([op["linalg"]] if op.get("linalg") else [])
        sim.linalg_on = True
        if op.get("strike"):
            sim.install_steps()
            sim.step_no = 0
            sim.step_hook = sim.strike_at(max(1, int(n * op["strike"]["frac"])), op["strike"])
        how, val = "ok", None
        try:
            val = do(m, f, op)
        except BaseException as e:
            how, val = "raised", "%s: %s" % (type(e).__name__, str(e)[:100])
        sim.step_hook = None
        sim.remove_steps()
        sim.linalg_on = False
        sim.arm([])
        plt.close("all")
        hit = any(ln.startswith("fault ") for ln in sim.trace[mark:])
        struck += hit
        completed += how == "ok" and op["do"] in ("step", "train")
        after = observe(m)
        sim.log(tag, how, val if how == "raised" else "", canon(after and after["view"]))
        if how == "raised" and not hit and op["do"] in ("step", "train", "fit", "ambient"):
            none = after is None or after["best"] is None
            if not none or op["do"] == "step":
                sim.violate("raises", "%s: nothing failed but it raised %s" % (tag, val))
        if after is None:
            continue
        invariants(sim, tag, op, how, before, after, seen, f, struck)
        if op["do"] in ("train", "fit") and how == "ok":
            result(sim, tag, val, m, f, after)
        if how == "ok" and op["do"] in ("plot", "print_pq", "ambient") and before["view"] != after["view"]:
            sim.violate("readonly", "%s changed the search: %s -> %s" % (tag, before["view"], after["view"]))
        if after["best"] is not None:
            best = after
    if best is not None:
        honest(sim, f, m, best, scratch)
    sim.nontrivial = best is not None and (struck > 0 or completed > 1)
    sim.info["count"] = {"model:" + f["model"]: 1}


def measure(sim, plan, i, op, m, f):
    """How many lines this call executes undisturbed (in a forked twin)."""
    def twin():
        sim.install_steps()
        sim.step_no = 0
        try:
            do(m, f, dict(op))
        except BaseException:
            pass
        return sim.step_no
    r = sim.incarnation(twin, "measure%d" % i)
    return r.get("value") or 1


def observe(m):
    s = getattr(m, "searcher", None)
    if s is None:
        return None
    p = s.best_p
    r = float(s.r_best)
    items = [(str_key(k), float(x.rewards)) for k, x in s.pq.iter_in_order()]
    return {"searcher": id(s), "best": p, "r": r, "items": items, "total": s.total_epoch,
            "hist": [list(map(float, np_list(h))) for h in s.r_train], "n": (len(s.r_history), len(s.r_train)),
            "cap": s.pq.capacity,
            "view": [r, None if p is None else repr(p), items, s.total_epoch, len(s.r_history)]}


def np_list(v):
    import numpy as np
    return np.asarray(v, dtype=float).reshape(-1)


def str_key(k):
    return digest([k.hex() if isinstance(k, bytes) else str(k)])


def faulted(sim):
    return any(ln.startswith("fault ") for ln in sim.trace)


def invariants(sim, tag, op, how, before, after, seen, f, struck):
    r, p = after["r"], after["best"]
    if math.isnan(r) or r == math.inf:
        sim.violate("finite", "%s: the best reward is %r" % (tag, r))
        return
    if (p is None) != (r == -math.inf):
        sim.violate("best-of", "%s: best reward %r but best equation %s" % (tag, r, p))
        return
    restarted = op["do"] in ("train", "fit")
    if before is not None and not restarted and r < before["r"]:
        sim.violate("lost", "%s: the best reward fell from %r to %r" % (tag, before["r"], r))
    voted = f["model"] == "spr" and how == "ok"
    if p is not None and not voted:
        pr = p.__dict__.get("r_ridge")
        if pr is None or float(pr) != r:
            sim.violate("best-of", "%s: the best reward is %r, the best equation (%s) earned %r" % (tag, r, p, pr))
        if p.invalid:
            if r > 0 and not faulted(sim):
                sim.violate("invalid", "%s: the best equation %s is invalid" % (tag, p))
    top = [max(h) for h in after["hist"] if len(h)]
    if top and max(top) > r and not voted:
        sim.violate("history", "%s: the reward history reaches %r, the reported best is %r" % (tag, max(top), r))
    if how == "ok" and op["do"] in ("step", "train", "fit") and not voted:
        for q in seen.values():
            v = q.__dict__.get("r_ridge")
            if v is None or q.invalid or not math.isfinite(float(v)) or float(v) <= 0:
                continue
            if float(v) > r and f["model"] != "spr":
                sim.violate("missed", "%s: %s earned %r, the best is reported as %r" % (tag, q, float(v), r))
                break
    if after["n"][0] != after["n"][1] and not struck:
        sim.violate("histories", "%s: the two reward histories have %s entries" % (tag, after["n"]))
    if any("fault step" in ln and " memory.py " in ln for ln in sim.trace):
        return      # cut in the middle of one queue operation
    keys = [k for k, _ in after["items"]]
    if len(set(keys)) != len(keys) or len(keys) > after["cap"]:
        sim.violate("queue", "%s: the queue holds duplicates or too many equations: %s" % (tag, len(keys)))
    vals = [v for _, v in after["items"]]
    if vals != sorted(vals, reverse=True):
        sim.violate("queue", "%s: the queue is out of order: %s" % (tag, vals))
    if how == "ok" and before is not None and not restarted and before["searcher"] == after["searcher"]:
        # nothing may be dropped except for something at least as good
        if len(before["items"]) > len(after["items"]):
            sim.violate("queue", "%s: the queue shrank" % tag)
        lost = [v for k, v in before["items"] if k not in keys]
        if lost and (len(keys) < after["cap"] or min(vals) < max(lost)):
            sim.violate("queue", "%s: the queue dropped rewards %s and holds %s" % (tag, lost, vals))
        if op["do"] == "step" and after["total"] != before["total"] + 1:
            sim.violate("histories", "%s: one step counted as %d" % (tag, after["total"] - before["total"]))
        if op["do"] == "step" and not 0 <= after["n"][0] - before["n"][0] <= 1:
            sim.violate("histories", "%s: one step added %d history entries" % (tag, after["n"][0] - before["n"][0]))
    if top and after["items"] and how == "ok" and not faulted(sim) and f["model"] != "spr":
        want = max(top)
        if abs(vals[0] - want) > 1e-5 * max(1.0, abs(want)):
            sim.violate("queue", "%s: the queue's best is %r, the best training reward %r" % (tag, vals[0], want))


def result(sim, tag, val, m, f, after):
    p = val["program"] if f["model"] == "spr" or "program" in val else None
    if p is None:
        return
    if float(val["r"]) != float(p.r_ridge) or not math.isfinite(float(val["r"])):
        sim.violate("result", "%s: reports reward %r for an equation that earned %r" % (tag, val["r"], p.r_ridge))
    if val["expression"] != p.str_expression or val["traversal"] != repr(p):
        sim.violate("result", "%s: reports %r / %r for the equation %r / %r" % (
            tag, val["expression"], val["traversal"], p.str_expression, repr(p)))
    if p is not after["best"]:
        sim.violate("result", "%s: returned %s, the search's best is %s" % (tag, p, after["best"]))
    if f["model"] != "spr" and float(val["r"]) != after["r"]:
        sim.violate("result", "%s: returned reward %r, the search's best is %r" % (tag, val["r"], after["r"]))


def honest(sim, f, m, best, scratch):
    p = best["best"]
    want = float(p.r_ridge)
    failed = faulted(sim)
    if failed and want <= 0:
        return      # an equation whose evaluation failed is worth nothing
    if f["model"] == "spr":
        again = p.task.reward_function(p)[0]
        if not close(float(again), want):
            sim.violate("honest", "the best equation %s is reported with reward %r but earns %r" % (p, want, float(again)))
        return
    # a failure inside one step of the optimizer of the constants is borne by choosing others: they are judged as they are
    consts = [float(c) for c in p.get_constants()] if failed else []
    res = scratch([[int(t) for t in p.tokens], consts])
    if res["exit"] != "ok":
        raise RuntimeError("scratch evaluation failed: %s" % res)
    r, inv, expr, trav = res["value"]
    if (inv != bool(p.invalid) and not failed) or not close(r, want):
        sim.violate("honest", "the best equation %s is reported with reward %r (invalid: %s) but earns %r (invalid: %s) when evaluated "
                    "from scratch" % (p, want, p.invalid, r, inv))
    elif expr != p.str_expression:
        sim.violate("honest", "the best equation reads %r, evaluated from scratch %r" % (p.str_expression, expr))


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
