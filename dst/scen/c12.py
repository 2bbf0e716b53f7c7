"""C12: the web application - jobs, sessions and pictures under faults and several users."""
import inspect
import json
import os
import sys

from .. import boot, cloud, threads
from ..sim import _real_open, canon

MODULES = boot.BASE_MODULES
TIMEOUT = 90
TIERS = {"quick": {"runs": 1500, "budget_s": 34, "selftest": 14, "min_runs": 120, "shrink_s": 40},
         "thorough": {"runs": 100000, "budget_s": 1500, "selftest": 200, "min_runs": 1500}}
RULE = ("one run = 2-14 browser events (dataset and model choice, training, job polling, cancel, pictures) in 1-3 sessions, "
        "sequential or as simulated threads, dispatched through the real event wiring of build_app against a simulated GPU "
        "platform with network, disk and model faults; non-trivial = a job or a training took place and a fault struck, "
        "threads were switched or a second session was active")
REAL = ["app.py (build_app and every handler)", "kd.job", "kd.runner (in half of the sequential jobs)", "kd.viz.core", "kd.dataset registry"]
STUB = ["gradio (component recorder and event dispatcher)", "bohrium_open_sdk (simulated platform)",
        "model fits and viz adapters replaced by fast ones that record what they are given (in most runs)", "clock (virtual)",
        "file-system faults"]
ASSUMPTIONS = ["events of one browser session are processed one after another"]
STATE_MEASURE = "digest of the run's event log (events, answers, faults, switches)"

MODELS = ["KD_SGA", "KD_DLGA", "KD_DSCV", "KD_DSCV_SPR", "KD_EqGPT"]
DATASETS = ["burgers", "chafee-infante", "kdv", "PDE_divide", "PDE_compound"]
CAPS = {"equation", "parity", "residual", "density", "tree", "field_comparison", "spr_residual"}


def prepare(base):
    boot.warm_torch()
    boot.warm_mpl()
    cloud.install_gradio()
    cloud.install_sdk(lambda: cloud.CURRENT["platform"])
    import app  # noqa: F401


def gen(rng, idx, tier):
    users = [rng.choice(["a", "b", None]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    mode = "par" if len(users) > 1 and rng.random() < 0.6 else "seq"
    plan = {"users": users, "mode": mode, "fits": "stub", "ops": [], "faults": [], "oneapp": rng.random() < 0.5, "clutter": rng.random() < 0.3}
    if rng.random() < 0.4:
        return gen_jobs(rng, plan)
    if rng.random() < 0.02:
        plan["users"], plan["mode"], plan["fits"] = [None], "seq", "real"
        plan["ops"] = [{"s": 0, "ev": "train", "set": widgets(rng), "dataset": "PDE_divide", "pick": rng.choice(MODELS[:4])}]
        plan["ops"][0]["set"].update(SMALL)
        return plan
    if mode == "par" and rng.random() < 0.4:
        # every session draws pictures of its own model at the same time
        for s in range(len(users)):
            op = dict(gen_op(rng, s, users, 0.0), dataset=rng.choice(DATASETS), unset=False, set={})
            op["pick"] = rng.choice(MODELS[:4] if users[s] is None else ["KD_SGA", "KD_DSCV"])
            plan["ops"].append(op)
        for _ in range(rng.choice([2, 3, 5])):
            for s in range(len(users)):
                plan["ops"].append({"s": s, "ev": "viz", "kind": rng.choice(["residual", "residual", "parity", "tree", "first"])})
    else:
        for _ in range(rng.choice([2, 4, 6, 9, 14])):
            plan["ops"].append(gen_op(rng, rng.randrange(len(users)), users))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        plan["faults"].append(gen_fault(rng))
    if mode == "par":
        plan["sched"] = threads.gen_sched(rng, rng.choice([8, 30, 100, 160]), rng.choice([20, 120]))
    return plan


def gen_jobs(rng, plan):
    """Sessions whose work is GPU jobs: submit, poll, fetch, again."""
    users = plan["users"] = [rng.choice(["a", "b"]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    plan["mode"] = "par" if len(users) > 1 and rng.random() < 0.4 else "seq"
    plan["clutter"] = rng.random() < 0.1
    rounds = rng.choice([1, 2, 2, 3])
    for k in range(rounds):
        for s in range(len(users)):
            op = gen_op(rng, s, users, 0.0)
            op.update(pick=rng.choice(["KD_DLGA", "KD_DSCV_SPR"]), dataset=rng.choice(["burgers", "chafee-infante", "kdv"]), unset=False)
            if rng.random() < 0.6:
                op["set"] = {}
            plan["ops"].append(op)
            n = rng.choice([1, 2, 3]) if k < rounds - 1 else rng.choice([0, 2, 4])
            plan["ops"] += [{"s": s, "ev": "check"} for _ in range(n)]
            if rng.random() < 0.1:
                plan["ops"].append({"s": s, "ev": "cancel"})
    if rng.random() < 0.5:
        rng.shuffle(plan["ops"])
    for _ in range(rng.choice([0, 1, 1, 2])):
        f = gen_fault(rng)
        while not f["on"].startswith("net:"):
            f = gen_fault(rng)
        if rng.random() < 0.5:
            f.update(on="net:detail", times=1, nth=rng.choice([1, 2, 3, 4]))
        plan["faults"].append(f)
    if plan["mode"] == "par":
        plan["sched"] = threads.gen_sched(rng, rng.choice([8, 30, 100, 160]), rng.choice([20, 120]))
    return plan


SMALL = {"sga_run": 1, "sga_num": 4, "sga_depth": 2, "dlga_max_iter": 3, "dlga_sample": 100, "dscv_batch": 12,
         "dscv_epochs": 1, "spr_ratio": 0.05, "spr_epochs": 1, "dlga_ops": "u, u_x, u_xx", "dscv_binary": None,
         "dscv_unary": None, "dlga_epi": 0.1, "sga_seed": 1, "dscv_seed": 1}


def widgets(rng):
    w = {}
    for k, vals in (("sga_run", [1, 2]), ("sga_num", [4, 11]), ("sga_depth", [2, 5]), ("sga_seed", [0, 7]),
                    ("dlga_ops", ["u, u_x, u_xx", "u,u_x ,u_tt,"]), ("dlga_epi", [0.1, 0.01, 1]), ("dlga_max_iter", [30, 3000]),
                    ("dlga_sample", [500, 100, 0, None]), ("dscv_binary", ["add, mul, diff", "add_t,mul_t , diff_t", None]),
                    ("dscv_unary", ["n2", "n2_t, n3_t", None]), ("dscv_batch", [20, 200]), ("dscv_epochs", [1, 4]),
                    ("dscv_seed", [0, 3]), ("spr_ratio", [0.05, 0.5]), ("spr_epochs", [2, 6]), ("eq_epochs", [1, 5]),
                    ("eq_samples", [40, 400]), ("eq_cases", ["N only (12 cases)", "All (23 cases)"])):
        if rng.random() < 0.6:
            w[k] = rng.choice(vals)
    if rng.random() < 0.06:
        w[rng.choice(["dlga_max_iter", "dscv_batch", "sga_num", "dlga_epi", "spr_epochs", "eq_epochs"])] = "cleared"
    return w


def gen_op(rng, s, users, r=None):
    r = rng.random() if r is None else r
    if r < 0.36:
        ms = MODELS if users[s] is None else ["KD_DLGA", "KD_DSCV_SPR", "KD_DLGA", "KD_SGA", "KD_DSCV"]
        return {"s": s, "ev": "train", "set": widgets(rng), "dataset": rng.choice(DATASETS + [None] * (rng.random() < 0.1)),
                "pick": rng.choice(ms), "unset": rng.random() < 0.04,
                "script": rng.choice([[10], [3, 10], [3, 1, 11], [0, 2, 9, 10], [12], [4, 13], [14, 10]]),
                "out": rng.choice(["good", "good", "runner", "runner", "error", "none", "badpng", "nopng"])}
    if r < 0.7:
        return {"s": s, "ev": "check"}
    if r < 0.9:
        return {"s": s, "ev": "viz", "kind": rng.choice(sorted(CAPS) + ["first"])}
    if r < 0.96:
        return {"s": s, "ev": "dataset", "dataset": rng.choice(DATASETS + ["burgers"])}
    return {"s": s, "ev": "cancel"}


def gen_fault(rng):
    r = rng.random()
    if r < 0.5:
        return {"on": "net:" + rng.choice(["submit", "detail", "download", "list_project"]), "nth": rng.choice([1, 1, 2, 3]),
                "times": rng.choice([1, 1, 2, 50]), "do": rng.choice(["lost-request", "lost-reply", "auth", "empty", "delay", "error"]),
                "arg": 90}
    if r < 0.62:
        return {"on": "net:file", "nth": rng.choice([1, 2, 3]), "times": rng.choice([1, 2]),
                "do": rng.choice(["skip", "torn", "torn-stop", "lost-reply"]), "arg": rng.choice([0, 0.4])}
    if r < 0.77:
        return {"on": "model:fit", "nth": rng.choice([1, 1, 2]), "do": rng.choice(["error", "memerr"])}
    if r < 0.87:
        return {"on": "viz:*", "nth": rng.choice([1, 1, 2]), "do": "error"}
    return {"on": rng.choice(["open-w", "write", "mkdir", "open-r", "remove", "close", "rmdir"]), "match": rng.choice(["tmp/*", "jobs*"]),
            "nth": rng.choice([1, 1, 2]), "times": rng.choice([1, 3, 50]), "do": rng.choice(["ENOSPC", "EIO", "EACCES"]), "arg": 0.5}


# ---------------------------------------------------------------- stubs for the slow parts

LABELS = {"KD_SGA": "sga", "KD_DLGA": "dlga", "KD_Discover": "discover", "KD_Discover_SPR": "spr", "KD_EqGPT": "eqgpt"}


def colour(n):
    n = int(n)
    return [(n * 37 + 11) % 256, (n * 91 + 50) % 256, (n * 53 + 101) % 256]


def picture(n):
    """A tiny PNG of one colour."""
    import struct
    import zlib

    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    row = b"\0" + bytes(colour(n)) * 4
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 4, 4, 8, 2, 0, 0, 0)) + \
        chunk(b"IDAT", zlib.compress(row * 4)) + chunk(b"IEND", b"")


class Spy:
    """What the models of this process were given, per instance."""

    def __init__(self, sim, start=1):
        self.sim, self.n = sim, start
        self.made = []


def install_models(sim, spy):
    import numpy as np
    from kd.model.kd_dlga import KD_DLGA
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    from kd.model.kd_eqgpt import KD_EqGPT
    from kd.model.kd_sga import KD_SGA
    from kd.viz import registry

    def patch(cls, base, fitname):
        pnames = [p for p in inspect.signature(base.__init__).parameters if p not in ("self", "args", "kwargs")]
        fnames = [p for p in inspect.signature(getattr(cls, fitname)).parameters if p not in ("self", "args", "kwargs")]
        label = cls.__name__

        def __init__(self, *a, **k):
            given = dict(zip(pnames, a))
            given.update(k)
            self._rec = {"cls": label, "ctor": given, "who": threads.threading.current_thread().name}
            spy.made.append(self)
            threads.point(3)

        def fit(self, *a, **k):
            given = dict(zip(fnames, a))
            given.update(k)
            ds = given.pop("dataset", None)
            if ds is not None:
                self._rec["data"] = [canon(np.asarray(v, dtype=float)) for v in (ds.x, ds.t, ds.usol)]
            self._rec["fit"] = given
            threads.point(20)
            f = sim.fault("model:fit", LABELS[label])
            if f is not None:
                sim.apply(f, "model")
            n = spy.n
            spy.n += 1
            threads.point(40)
            self._rec["n"] = n
            self._rec["eq"] = "u_t = k_{%d} u_{xx}" % n
            if label == "KD_SGA":
                return None
            if label == "KD_DLGA":
                self.eq_latex = self._rec["eq"]
                return None
            if label == "KD_EqGPT":
                return {"best_equation": self._rec["eq"]}
            return {"expression": self._rec["eq"]}
        cls.__init__ = __init__
        setattr(cls, fitname, fit)
    patch(KD_SGA, KD_SGA, "fit_dataset")
    patch(KD_DLGA, KD_DLGA, "fit_dataset")
    sig = KD_Discover.fit_dataset
    patch(KD_Discover_SPR, KD_Discover, "fit_dataset")
    if KD_Discover.fit_dataset is sig:
        patch(KD_Discover, KD_Discover, "fit_dataset")
    patch(KD_EqGPT, KD_EqGPT, "fit_pretrained")
    KD_SGA.equation_latex = lambda self, *a, **k: self._rec["eq"]

    class Adapter:
        capabilities = set(CAPS)

        def render(self, request, ctx):
            from kd.viz.core import VizResult
            from matplotlib.figure import Figure
            kind, m = request.kind, request.target
            n = m._rec["n"]
            threads.point(5)
            f = sim.fault("viz:" + kind, LABELS[m._rec["cls"]])
            if f is not None:
                raise ValueError("cannot draw [injected]")
            if kind in ("equation", "parity", "spr_residual"):
                fig = Figure(figsize=(1, 1))
                fig._mark = (n, kind)
                threads.point(10)
                return VizResult(intent=kind, figure=fig)
            if kind == "residual":
                p = ctx.save_path("plot.png")
                with open(p, "wb") as fh:
                    fh.write(picture(n))
                threads.point(30)
                return VizResult(intent=kind, paths=[p])
            if kind == "density":
                return VizResult(intent=kind, warnings=["no density for %d" % n])
            if kind == "tree":
                raise RuntimeError("tree failed for %d" % n)
            return VizResult(intent=kind)
    for cls in (KD_SGA, KD_DLGA, KD_Discover, KD_Discover_SPR, KD_EqGPT):
        registry.register_adapter(cls, Adapter())


# ---------------------------------------------------------------- sessions

LABEL = {"sga_run": "SGA runs", "sga_num": "Population size", "sga_depth": "Tree depth", "sga_seed": "Seed",
         "dlga_ops": "Operators (comma-separated)", "dlga_epi": "Sparsity penalty (epi)", "dlga_max_iter": "NN max iterations",
         "dlga_sample": "Sample points", "dscv_binary": "Binary operators", "dscv_unary": "Unary operators",
         "dscv_batch": "Samples per batch", "dscv_epochs": "Search epochs", "dscv_seed": "Seed",
         "spr_ratio": "Observation ratio (sample_ratio)", "spr_epochs": "PINN search epochs", "eq_epochs": "Optimize epochs",
         "eq_samples": "Samples per epoch", "eq_cases": "Case filter"}


class User:
    """The model of one session: what it must be holding."""

    def __init__(self, w, i, comps):
        self.w, self.i = w, i
        self.name = w.plan["users"][i]
        self.b = cloud.Session(w.sim, comps, self.name, "s%d" % i)
        self.comps = comps
        self.job = None
        self.model = None
        self.buttons = [c for c in comps if c.kind == "Button"]

    def comp(self, label, kinds=("Dropdown", "Number", "Textbox", "Slider", "Button", "Plot", "State"), nth=0):
        hits = [c for c in self.comps if c.kind in kinds and (c.kw.get("label") == label or (c.args and c.args[0] == label)
                                                             or c.kw.get("value") == label and c.kind == "Button")]
        return hits[nth]

    def widget(self, key):
        return self.comp(LABEL[key], nth=1 if key == "dscv_seed" else 0)

    def state(self):
        """(equation text, figure, model, plot types, job, status, button) as the page holds them."""
        outs = [e for e in self.comp("Start Training").events if e["ev"] == "click"][0]["outputs"]
        return [self.b.get(c) for c in outs]


class World:
    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        self.p = cloud.Platform(sim)
        self.p.projects = {"ak-a": [71], "ak-b": [81, 82]}
        if plan.get("oneapp"):
            self.p.users = {"ak-a": "app-one", "ak-b": "app-one"}
        self.pending = {}
        self.pictures = {}

    def on_submit(self, job):
        op = self.pending.get(job["who"], {"script": [10], "out": "good"})
        job["script"], job["order"] = op["script"], "last" if job["id"] % 2 else "first"
        cfg = json.loads(job["files"]["config"]["data"].decode("utf-8"))
        job["cfg"] = cfg
        job["kind"] = op["out"]
        if op["out"] == "runner" and self.plan["mode"] == "seq":
            job["output"] = self.run_runner(job, cfg)
        else:
            job["output"] = self.fake_output(job, op["out"], cfg)

    def fake_output(self, job, kind, cfg):
        doc = {"model": cfg.get("model"), "dataset": cfg.get("dataset_name"), "equation": "u_t = j_{%d} u_{xx}" % job["id"],
               "elapsed_seconds": 2.5, "status": "success", "params": cfg.get("params")}
        if kind == "error":
            doc.update(status="error", equation="(error)", error="Traceback of job %d" % job["id"])
        out = {}
        if kind != "none":
            out["result.json"] = json.dumps(doc, ensure_ascii=False).encode("utf-8")
        if kind not in ("error", "none", "nopng"):
            out["equation.png"] = picture(job["id"]) if kind != "badpng" else b"not a picture"
        job["doc"] = doc if kind != "none" else None
        job["png"] = job["id"] if kind in ("good", "runner") else None
        return out

    def run_runner(self, job, cfg):
        """The job really runs the runner on the uploaded configuration."""
        sim = self.sim
        d = os.path.join("cloud", str(job["id"]))
        os.makedirs(d)
        with _real_open(os.path.join(d, "config.json"), "wb") as f:
            f.write(job["files"]["config"]["data"])

        def go():
            import kd.runner
            sim.arm([f for f in self.plan["faults"] if f["on"].startswith("model")])
            threads.Sched.current = None
            sim.step_hook = None
            os.chdir(d)
            spy = Spy(sim, start=job["id"])
            install_models(sim, spy)
            sys.argv = ["kd.runner", "--config", "config.json"]
            try:
                kd.runner.main()
            finally:
                for m in spy.made:
                    sim.log("RUNNER " + json.dumps(canon(dict(m._rec)), sort_keys=True))
            return None
        mark = len(sim.trace)
        sim.incarnation(go, "job%d" % job["id"])
        recs = [json.loads(ln.split("RUNNER ", 1)[1]) for ln in sim.trace[mark:] if "RUNNER " in ln]
        job["rec"] = recs[-1] if recs else None
        out = {}
        od = os.path.join(d, cfg.get("output_dir", "output"))
        if os.path.isdir(od):
            for n in sorted(os.listdir(od)):
                with _real_open(os.path.join(od, n), "rb") as f:
                    out[n] = f.read()
        job["doc"] = json.loads(out["result.json"].decode("utf-8")) if "result.json" in out else None
        job["png"] = None
        if job["doc"] is not None and job["rec"] is not None and job["rec"].get("eq") and job["doc"].get("equation") != job["rec"]["eq"]:
            sim.violate("equation", "job %d: the runner reports %r, its model found %r" % (
                job["id"], job["doc"].get("equation"), job["rec"]["eq"]))
        return out


_DATA = {}


def data_of(name):
    if name not in _DATA:
        import numpy as np
        from kd.dataset import load_pde
        d = load_pde(name)
        _DATA[name] = [canon(np.asarray(v, dtype=float)) for v in (d.x, d.t, d.usol)]
    return _DATA[name]


def run(plan, sim):
    os.makedirs("tmp")
    sim.install_tmp(os.path.join(os.getcwd(), "tmp"))
    os.environ["KD_JOB_OUTPUT_DIR"] = os.path.join(os.getcwd(), "jobs")
    for k in ("KD_GPU_PROJECT_ID", "KD_GPU_APP_KEY", "KD_GPU_SUB_MODEL"):
        os.environ.pop(k, None)
    import kd.job
    kd.job.JOB_OUTPUT_DIR = os.environ["KD_JOB_OUTPUT_DIR"]
    w = World(plan, sim)
    w.p.on_submit = w.on_submit
    cloud.CURRENT["platform"] = w.p
    import app
    spy = Spy(sim, start=5000)
    for op in plan["ops"]:
        if op.get("dataset"):
            data_of(op["dataset"])
    if plan["fits"] == "stub":
        install_models(sim, spy)
    threads.install_locks()
    if plan["clutter"]:
        from kd.viz.core import configure
        configure(save_dir=os.path.join(os.getcwd(), "elsewhere"))
        for i in range(1000, 1004):
            os.makedirs("jobs/kd_%d" % i)
            with open("jobs/kd_%d/result.json" % i, "w") as f:
                f.write('{"status": "success", "equation": "u_t = OLD"}')
            with open("jobs/kd_%d/equation.png" % i, "wb") as f:
                f.write(picture(3))
    sim.install_clock()
    sim.install_fs()
    sim.log_io = False
    comps = cloud.build_ui(app)
    us = [User(w, i, comps) for i in range(len(plan["users"]))]
    w.users = us
    for u in us:
        fire(w, u, next(c for c in comps if any(e["ev"] == "load" for e in c.events)), "load", "page load")
    sim.arm(plan["faults"])
    if plan["mode"] == "seq":
        for k, op in enumerate(plan["ops"]):
            event(w, us[op["s"]], k, op)
            if k > 0 and plan["fits"] == "stub":
                settled(w, "after event %d" % k)
    else:
        s = threads.Sched(sim, plan["sched"])
        for u in us:
            def body(u=u):
                for k, op in enumerate(plan["ops"]):
                    if op["s"] == u.i:
                        event(w, u, k, op)
            s.spawn("s%d" % u.i, body)
        for t, r in zip(s.threads, s.run()):
            if r[0] != "ok" and not isinstance(r[1], threads.Deadlock):
                raise RuntimeError("session %s: %s" % (t.name, r[2])) from r[1]
        settled(w, "after all sessions")
    sim.arm([])
    for u in us:
        progress(w, u)
    for u in us:
        if u.model is not None and plan["fits"] == "stub":
            event(w, u, "last", {"s": u.i, "ev": "viz", "kind": "residual"})
    settled(w, "at the end")
    sim.nontrivial = bool(w.p.jobs or spy.made) and (bool(sim.stats["faults"]) or sim.stats["switches"] > 3 or len(us) > 1)
    sim.info["count"] = {"jobs": len(w.p.jobs), "trainings": len(spy.made)}


def settled(w, when):
    from kd.viz.core import VizRequest  # noqa: F401
    from kd.viz import _style
    d = _style.get_config().save_dir
    if d is not None and os.path.join(os.getcwd(), "tmp") in str(d):
        w.sim.violate("save-dir", "%s: the visualization directory still is the temporary %s" % (when, os.path.basename(str(d))))


def fire(w, u, comp, ev, tag):
    how, detail = u.b.fire(comp, ev)
    if how == "raised":
        w.sim.violate("raises", "%s: the handler raised %s" % (tag, detail))
    elif how == "bad":
        w.sim.violate("outputs", "%s: %s" % (tag, detail))
    return how == "ok"


def fired(w, mark, what="fault "):
    return any(ln.startswith(what) or "] " + what in ln for ln in w.sim.trace[mark:])


def event(w, u, k, op):
    sim = w.sim
    tag = "event %s (%s by session %d)" % (k, op["ev"], u.i)
    if op["ev"] == "dataset":
        choose_dataset(w, u, tag, op["dataset"])
    elif op["ev"] == "train":
        train(w, u, tag, op)
    elif op["ev"] == "check":
        check(w, u, tag)
    elif op["ev"] == "cancel":
        if fire(w, u, u.comp("Cancel"), "click", tag):
            u.job = u.model = None
            if u.state()[4]["value"] is not None or u.state()[2]["value"] is not None:
                sim.violate("cancel", "%s: a job or model is still held" % tag)
    elif op["ev"] == "viz":
        viz(w, u, tag, op)
    sim.log(tag, str(u.state()[0]["value"])[:60].replace(os.getcwd(), ""), "job", u.state()[4]["value"])


def choose_dataset(w, u, tag, name):
    from kd.dataset._registry import PDE_REGISTRY
    dd, mm = u.comp("Dataset"), u.comp("Model")
    u.b.set(dd, name)
    if not fire(w, u, dd, "change", tag):
        return
    st = u.b.get(mm)
    support = PDE_REGISTRY.get(name, {}).get("models", {})
    keys = {"KD_SGA": "sga", "KD_DLGA": "dlga", "KD_DSCV": "discover", "KD_DSCV_SPR": "discover_spr"}
    want = {m for m, key in keys.items() if support.get(key)} | {"KD_EqGPT"}
    if set(st["choices"]) - {"KD_EqGPT"} != want - {"KD_EqGPT"} or not set(st["choices"]) <= want:
        w.sim.violate("offered", "%s: %s offers %s, verified models are %s" % (tag, name, sorted(st["choices"]), sorted(want)))
    if st["value"] not in st["choices"]:
        w.sim.violate("offered", "%s: %r is selected but not offered" % (tag, st["value"]))
    model_changed(w, u, tag)


def model_changed(w, u, tag):
    mm = u.comp("Model")
    if not fire(w, u, mm, "change", tag):
        return
    m = u.b.get(mm)["value"]
    outs = [e for e in mm.events if e["ev"] == "change"][0]["outputs"]
    groups = [c for c in outs if c.kind == "Group"]
    shown = {"KD_SGA": 1, "KD_DLGA": 1, "KD_DSCV": 1, "KD_DSCV_SPR": 2, "KD_EqGPT": 1}.get(m, 0)
    if sum(1 for g in groups if u.b.get(g)["visible"]) != shown:
        w.sim.violate("groups", "%s: %s shows %d parameter groups" % (tag, m, sum(1 for g in groups if u.b.get(g)["visible"])))


def train(w, u, tag, op):
    sim, p = w.sim, w.p
    if op.get("dataset"):
        choose_dataset(w, u, tag, op["dataset"])
    mm = u.comp("Model")
    if op["pick"] in u.b.get(mm)["choices"]:
        u.b.set(mm, op["pick"])
        model_changed(w, u, tag)
    if op.get("unset"):
        u.b.set(mm, None)
    for key, v in op["set"].items():
        if v == "cleared":
            u.b.set(u.widget(key), None)
        elif v is not None or key == "dlga_sample":
            u.b.set(u.widget(key), v)
    vals = {key: u.b.get(u.widget(key))["value"] for key in LABEL}
    ds, model = u.b.get(u.comp("Dataset"))["value"], u.b.get(mm)["value"]
    tag += " %s on %s" % (model, ds)
    who = threads.threading.current_thread().name
    w.pending[who] = op
    mark, j0, c0 = len(sim.trace), set(p.jobs), len(p.calls)
    par = w.plan["mode"] == "par"
    if not fire(w, u, u.comp("Start Training"), "click", tag):
        return
    text, fig, mod, plots, job, status, button = u.state()
    mine = [p.jobs[j] for j in sorted(set(p.jobs) - j0) if p.jobs[j]["who"] == who]
    sent = [c for c in p.calls[c0:] if c["api"] == "submit" and c["who"] == who]
    for c in p.calls[c0:]:
        if c["who"] == who and c["ak"] != "ak-%s" % u.name:
            sim.violate("credentials", "%s: the platform was called as %s" % (tag, c["ak"]))
    u.job = u.model = None
    if not isinstance(text["value"], str) or not text["value"]:
        sim.violate("outputs", "%s: the text is %r" % (tag, text["value"]))
        return
    gpu = model in ("KD_DLGA", "KD_DSCV_SPR") and u.name is not None and ds
    cleared = any(vals[key] is None and key != "dlga_sample" for key in used(model))
    if not ds or not model:
        if mine or mod["value"] is not None or job["value"] is not None:
            sim.violate("outputs", "%s: something was trained without dataset or model" % tag)
        return
    if gpu:
        if len(sent) > 1:
            sim.violate("resubmit", "%s: %d submissions" % (tag, len(sent)))
        if mod["value"] is not None:
            sim.violate("outputs", "%s: a local model appeared" % tag)
        accepted = mine[-1] if mine else None
        if job["value"] is not None:
            if accepted is None or job["value"] != accepted["id"]:
                sim.violate("job-id", "%s: holds job %r, the platform accepted %s" % (tag, job["value"], [j["id"] for j in mine]))
                return
            u.job = job["value"]
            if not button["visible"]:
                sim.violate("job-lost", "%s: job %s was submitted but cannot be checked" % (tag, u.job))
            if str(u.job) not in text["value"]:
                sim.violate("outputs", "%s: the text does not name job %s: %r" % (tag, u.job, text["value"]))
        elif not fired(w, mark) and not cleared:
            sim.violate("progress", "%s: nothing failed but no job was submitted: %r" % (tag, text["value"][:300]))
        elif "rror" not in text["value"]:
            sim.violate("outputs", "%s: a failed submission is shown as %r" % (tag, text["value"][:200]))
        for j in mine:
            judge_config(w, tag, j, model, ds, vals)
        return
    if mine or sent:
        sim.violate("local", "%s: a local training was sent to the platform" % tag)
    if job["value"] is not None:
        sim.violate("job-id", "%s: a local training left job %r" % (tag, job["value"]))
    if w.plan["fits"] == "real":
        if text["value"].startswith("Training error") or mod["value"] is None:
            sim.violate("progress", "%s: nothing failed but training did: %s" % (tag, text["value"][-700:]))
        else:
            m = mod["value"]
            want = m.equation_latex() if model == "KD_SGA" else getattr(m, "eq_latex", None) if model == "KD_DLGA" else None
            if want and text["value"] != want:
                sim.violate("equation", "%s: shows %r, the model found %r" % (tag, text["value"], want))
        return
    m = mod["value"]
    if m is None:
        if not fired(w, mark, "fault ") and not cleared:
            sim.violate("progress", "%s: nothing failed but training did: %s" % (tag, text["value"][-500:]))
        if "rror" not in text["value"]:
            sim.violate("outputs", "%s: a failed training is shown as %r" % (tag, text["value"][:200]))
        if fig["value"] is not None:
            sim.violate("stale", "%s: a failed training shows a picture" % tag)
        return
    rec = m._rec
    if rec["who"] != who:
        sim.violate("mixed", "%s: shows the model of another session" % tag)
    if "eq" not in rec or text["value"] != rec["eq"]:
        sim.violate("equation", "%s: shows %r, the model found %r" % (tag, text["value"], rec.get("eq")))
    mark_ = getattr(fig["value"], "_mark", None)
    if fig["value"] is None or (mark_ is not None and mark_ != (rec.get("n"), "equation")):
        sim.violate("picture", "%s: the equation picture is of %r, the model is %r" % (tag, mark_, rec.get("n")))
    u.model = m
    judge_local(w, tag, model, ds, vals, rec)
    caps = CAPS if model == "KD_DSCV_SPR" else {c for c in CAPS if not c.startswith("spr_")}
    if model != "KD_EqGPT" and (set(plots["choices"]) != caps or plots["value"] not in plots["choices"]):
        sim.violate("offered", "%s: plot types %r" % (tag, plots))
    if model == "KD_EqGPT" and not set(plots["choices"]) <= CAPS:
        sim.violate("offered", "%s: plot types %r" % (tag, plots))


def used(model):
    return {"KD_SGA": ["sga_run", "sga_num", "sga_depth", "sga_seed"], "KD_DLGA": ["dlga_ops", "dlga_epi", "dlga_max_iter"],
            "KD_DSCV": ["dscv_binary", "dscv_unary", "dscv_batch", "dscv_epochs", "dscv_seed"],
            "KD_DSCV_SPR": ["dscv_binary", "dscv_unary", "dscv_batch", "dscv_seed", "spr_ratio", "spr_epochs"],
            "KD_EqGPT": ["eq_epochs", "eq_samples", "eq_cases"]}.get(model, [])


def split(v):
    return [x.strip() for x in v.split(",") if x.strip()] if isinstance(v, str) else list(v)


def expected(model, v):
    if model == "KD_SGA":
        return {"sga_run": v["sga_run"], "num": v["sga_num"], "depth": v["sga_depth"], "seed": v["sga_seed"]}, {}
    if model == "KD_DLGA":
        return {"operators": split(v["dlga_ops"]), "epi": float(v["dlga_epi"]), "max_iter": v["dlga_max_iter"]}, \
            {"sample": v["dlga_sample"] or None}
    both = {"binary_operators": split(v["dscv_binary"]), "unary_operators": split(v["dscv_unary"]),
            "n_samples_per_batch": v["dscv_batch"], "seed": v["dscv_seed"]} if model.startswith("KD_DSCV") else {}
    if model == "KD_DSCV":
        return both, {"n_epochs": v["dscv_epochs"]}
    if model == "KD_DSCV_SPR":
        return both, {"n_epochs": v["spr_epochs"], "sample_ratio": v["spr_ratio"]}
    return {"optimize_epochs": v["eq_epochs"], "samples_per_epoch": v["eq_samples"],
            "case_filter": "N" if v["eq_cases"].startswith("N only") else "all"}, {}


CLS = {"KD_SGA": "KD_SGA", "KD_DLGA": "KD_DLGA", "KD_DSCV": "KD_Discover", "KD_DSCV_SPR": "KD_Discover_SPR", "KD_EqGPT": "KD_EqGPT"}


def judge_local(w, tag, model, ds, vals, rec, canonical=False):
    c = (lambda x: x) if canonical else canon
    if rec["cls"] != CLS[model]:
        w.sim.violate("params", "%s: trained a %s" % (tag, rec["cls"]))
        return
    ctor, fit = expected(model, vals)
    for want, have, where in ((ctor, rec["ctor"], "model"), (fit, rec.get("fit", {}), "fit")):
        for key, v in want.items():
            if key not in have:
                if v is not None:
                    w.sim.violate("params", "%s: %s got no %s (form: %r)" % (tag, where, key, v))
            elif c(have[key]) != canon(v):
                w.sim.violate("params", "%s: %s got %s=%r, the form says %r" % (tag, where, key, have[key], v))
    if model != "KD_EqGPT" and rec.get("data") is not None and rec["data"] != data_of(ds):
        w.sim.violate("params", "%s: trained on other data" % tag)


def judge_config(w, tag, job, model, ds, vals):
    cfg = job["cfg"]
    if cfg.get("dataset_name") != ds or cfg.get("model") != {"KD_DLGA": "dlga", "KD_DSCV_SPR": "dscv_spr"}[model]:
        w.sim.violate("params", "%s: the job trains %s on %s" % (tag, cfg.get("model"), cfg.get("dataset_name")))
        return
    ctor, fit = expected(model, vals)
    for key, v in list(ctor.items()) + list(fit.items()):
        have = cfg.get("params", {}).get(key)
        if isinstance(v, list):
            have = split(have) if have is not None else None
        if have != v:
            w.sim.violate("params", "%s: the job gets %s=%r, the form says %r" % (tag, key, have, v))
    if job.get("rec"):
        judge_local(w, tag + " (runner)", model, ds, vals, job["rec"], canonical=True)


def check(w, u, tag):
    sim, p = w.sim, w.p
    held = u.job
    st0 = u.state()
    if st0[4]["value"] != held:
        sim.violate("job-id", "%s: the page holds job %r instead of %r" % (tag, st0[4]["value"], held))
        return
    mark, c0 = len(sim.trace), len(p.calls)
    who = threads.threading.current_thread().name
    if not fire(w, u, u.comp("Check GPU Job"), "click", tag):
        return
    text, fig, mod, plots, job, status, button = u.state()
    calls = [c for c in p.calls[c0:] if c["who"] == who]
    for c in calls:
        if c["ak"] != "ak-%s" % u.name:
            sim.violate("credentials", "%s: the platform was called as %s" % (tag, c["ak"]))
        if c["api"] == "submit":
            sim.violate("resubmit", "%s: polling submitted a job" % tag)
        if c["api"] in ("detail", "download") and c["arg"] != held:
            sim.violate("wrong-job", "%s: asked about job %r instead of %r" % (tag, c["arg"], held))
    if not isinstance(text["value"], str) or not text["value"]:
        sim.violate("outputs", "%s: the text is %r" % (tag, text["value"]))
        return
    u.model = mod["value"]
    if mod["value"] is not None:
        sim.violate("outputs", "%s: polling produced a local model" % tag)
    if held is None:
        if job["value"] is not None or calls:
            sim.violate("job-id", "%s: there was no job, now %r" % (tag, job["value"]))
        return
    j = p.jobs[held]
    doc = j["doc"]
    shown = doc is not None and doc.get("status") == "success" and text["value"] == doc["equation"]
    code = j["status"]
    trouble = fired(w, mark)
    polled = any(c["api"] == "detail" for c in calls)
    if job["value"] is None:
        u.job = None
        if shown:
            if code not in (10, 11):
                sim.violate("job-state", "%s: job %s shows a result in state %s" % (tag, held, code))
            judge_picture(w, tag, j, fig["value"], trouble)
            return
        failed = code in (12, 13) or (doc is not None and doc.get("status") == "error" and code in (10, 11))
        if not failed or not polled:
            sim.violate("job-lost", "%s: job %s (state %s, %s) was given up: %r" % (
                tag, held, code, "result available" if doc else "no result", text["value"][:200]))
        elif "ail" not in text["value"] and "rror" not in text["value"]:
            sim.violate("outputs", "%s: the failed job %s is shown as %r" % (tag, held, text["value"][:200]))
        if doc is not None and code in (10, 11) and doc.get("status") == "error" and failed and doc["error"][:40] not in text["value"]:
            sim.violate("outputs", "%s: the error of job %s is not shown: %r" % (tag, held, text["value"][:200]))
        return
    if job["value"] != held:
        sim.violate("job-id", "%s: job %r turned into %r" % (tag, held, job["value"]))
        return
    if not button["visible"]:
        sim.violate("job-lost", "%s: job %s cannot be checked any more" % (tag, held))
    if text["value"].startswith("u_t"):
        sim.violate("stale", "%s: shows %r although job %s is not done here" % (tag, text["value"], held))
    if not trouble:
        if code in (12, 13):
            sim.violate("job-state", "%s: the failed job %s is still held" % (tag, held))
        if code in (10, 11) and doc is not None:
            sim.violate("progress", "%s: job %s finished but its result is not shown: %r" % (tag, held, text["value"][:300]))


def judge_picture(w, tag, j, fig, trouble):
    if fig is None:
        if j["png"] is not None and not trouble:
            w.sim.violate("picture", "%s: the equation picture of job %d is missing" % (tag, j["id"]))
        return
    if j["png"] is None:
        if j["kind"] in ("nopng", "badpng") and "equation.png" not in j["output"] and not w.plan["clutter"]:
            w.sim.violate("picture", "%s: a picture job %d never made" % (tag, j["id"]))
        return
    c = image_colour(fig)
    if c is not None and c != colour(j["png"]) and not trouble:
        w.sim.violate("picture", "%s: the picture shown is not that of job %d" % (tag, j["id"]))


def image_colour(fig):
    import numpy as np
    for ax in getattr(fig, "axes", []):
        for im in ax.images:
            a = np.asarray(im.get_array())
            px = a.reshape(-1, a.shape[-1])[0][:3]
            return [int(round(float(v) * 255)) if a.dtype.kind == "f" else int(v) for v in px]
    return None


def viz(w, u, tag, op):
    sim = w.sim
    dd = u.b.get(u.comp("Plot type (train a model first)"))
    kind = op["kind"]
    if kind == "first" or u.model is None:
        kind = dd["value"]
    elif dd["choices"] and kind in dd["choices"]:
        u.b.set(u.comp("Plot type (train a model first)"), kind)
    kind = u.b.get(u.comp("Plot type (train a model first)"))["value"]
    mark = len(sim.trace)
    if not fire(w, u, u.comp("Generate"), "click", tag):
        return
    outs = [e for e in u.comp("Generate").events if e["ev"] == "click"][0]["outputs"]
    fig, msg = u.b.get(outs[0])["value"], u.b.get(outs[1])["value"]
    if not isinstance(msg, str) or not msg:
        sim.violate("outputs", "%s: the message is %r" % (tag, msg))
    if u.model is None:
        if fig is not None:
            sim.violate("stale", "%s: a picture without a model" % tag)
        return
    if kind not in CAPS:
        if fig is not None:
            sim.violate("picture", "%s: a picture of %r" % (tag, kind))
        return
    n = u.model._rec["n"]
    trouble = fired(w, mark)
    if kind in ("equation", "parity", "spr_residual"):
        if fig is None and not trouble:
            sim.violate("progress", "%s: nothing failed but there is no %s: %r" % (tag, kind, msg))
        if fig is not None and getattr(fig, "_mark", None) != (n, kind):
            sim.violate("mixed", "%s: shows %r instead of %r" % (tag, getattr(fig, "_mark", None), (n, kind)))
    elif kind == "residual":
        if fig is None and not trouble:
            sim.violate("progress", "%s: nothing failed but there is no residual plot: %r" % (tag, msg))
        if fig is not None and image_colour(fig) != colour(n):
            sim.violate("mixed", "%s: the picture is not the one drawn for this session's model" % tag)
    elif fig is not None:
        sim.violate("picture", "%s: a picture although %s failed" % (tag, kind))
    elif kind in ("density", "tree") and not trouble and str(n) not in msg:
        sim.violate("outputs", "%s: the reason is not shown: %r" % (tag, msg))


def progress(w, u):
    """Faults have stopped: polling brings every job to its end."""
    for k in range(12):
        if u.job is None:
            return
        j = w.p.jobs[u.job]
        check(w, u, "final poll %d (session %d)" % (k, u.i))
        if w.sim.violations:
            return
    if j["doc"] is not None or j["script"][-1] in (12, 13):
        w.sim.violate("progress", "session %d: job %s never comes to an end" % (u.i, u.job))
