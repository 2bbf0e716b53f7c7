"""C11: the job client - one call, one job; the result shown is that job's own."""
import copy
import json
import os

from .. import boot, cloud, threads
from ..sim import _real_open

MODULES = ["kd", "kd.job", "kd.runner"]
TIMEOUT = 60
TIERS = {"quick": {"runs": 4000, "budget_s": 26, "selftest": 20, "min_runs": 300, "shrink_s": 30},
         "thorough": {"runs": 400000, "budget_s": 1200, "selftest": 300, "min_runs": 3000}}
RULE = ("one run = 2-9 calls of the job client (submit, poll, download) by 1-3 users, sequential or as simulated threads, "
        "against a simulated platform that loses requests and replies, delays, refuses, answers with incomplete data and "
        "tears or drops downloaded files, with disk faults and left-over files; non-trivial = at least one job was "
        "accepted and a fault struck, an old file was present or threads were switched")
REAL = ["kd.job"]
STUB = ["bohrium_open_sdk (simulated platform with jobs, credentials, projects, uploads and downloads)", "gr.Request",
        "clock (virtual)", "file-system faults"]
ASSUMPTIONS = ["the platform accepts a submission at most once per request it receives",
               "a lost reply is indistinguishable from a lost request for the client"]
STATE_MEASURE = "digest of the run's event log (calls, faults, switches)"

DATA = ["data.mat", "mesure é.npy", "field (1).npy", "config.json"]


def prepare(base):
    pass


def gen(rng, idx, tier):
    users = ["a", "b", "c"][: rng.choice([1, 2, 2, 3])]
    mode = "par" if len(users) > 1 and rng.random() < 0.45 else "seq"
    env = {}
    if rng.random() < 0.35:
        env["KD_GPU_PROJECT_ID"] = str(rng.choice([0, 5, 640]))
    if rng.random() < 0.2:
        env["KD_GPU_APP_KEY"] = "runner-key"
    if rng.random() < 0.2:
        env["KD_GPU_SUB_MODEL"] = "SUB"
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5, 7, 9])):
        ops.append(gen_op(rng, rng.choice(users)))
    plan = {"env": env, "mode": mode, "ops": ops, "faults": [], "oneapp": rng.random() < 0.5, "noproj": rng.random() < 0.08,
            "litter": rng.random() < 0.35}
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        plan["faults"].append(gen_fault(rng))
    if mode == "par":
        plan["sched"] = threads.gen_sched(rng, rng.choice([4, 12, 40]), 60)
    return plan


def gen_op(rng, user):
    api = rng.choice(["submit", "submit", "check", "download", "download"])
    op = {"api": api, "user": user}
    if rng.random() < 0.07:
        op["cookie"] = rng.choice(["", "appAccessKey=ak-%s" % user, "clientName=x", "other=1; y=2", None])
    if api == "submit":
        op["model"] = rng.choice(["dlga", "dscv_spr"])
        op["params"] = rng.choice([{"operators": "u,u_x", "epi": 0.1, "max_iter": 300}, {"seed": 0, "n_epochs": 3}, {},
                                   {"note": "∂u/∂t", "ops": ["a", "b"]}, {"big": list(range(300))}])
        op["ds"] = rng.choice(["burgers", "kdv", None])
        if op["ds"] is None or rng.random() < 0.2:
            op["file"] = rng.choice(DATA)
            if rng.random() < 0.15:
                op["gone"] = True
        if rng.random() < 0.3:
            op["project"] = rng.choice([11, 12, 0])
        # the job's future on the platform
        op["script"] = rng.choice([[10], [3, 4, 10], [3, 0, 1, 2, 9, 11], [5, 12], [13], [6, 7, 8, 10], [14, -1, 10], [99]])
        op["out"] = rng.choice(["good", "good", "good", "error", "none", "extra"])
        op["order"] = rng.choice(["first", "last"])
    else:
        op["pick"] = rng.randrange(4)
        op["other"] = rng.random() < 0.06       # the id of a job of somebody else
    if api == "download":
        op["dir"] = rng.choice([None, None, None, "shared", "own"])
    return op


def gen_fault(rng):
    r = rng.random()
    if r < 0.6:
        return {"on": "net:" + rng.choice(["submit", "submit", "detail", "download", "list_project"]),
                "nth": rng.choice([1, 1, 1, 2, 3]), "times": rng.choice([1, 1, 2, 50]),
                "do": rng.choice(["lost-request", "lost-reply", "auth", "empty", "delay", "error", "interrupt"]), "arg": 120}
    if r < 0.8:
        return {"on": "net:file", "match": rng.choice(["*", "result.json"]), "nth": rng.choice([1, 1, 2]),
                "times": rng.choice([1, 1, 3]), "do": rng.choice(["skip", "torn", "torn-stop", "lost-reply"]),
                "arg": rng.choice([0, 0.3, 0.9])}
    if r < 0.9:
        return {"on": rng.choice(["write", "open-w", "close"]), "match": "tmp/*", "nth": 1, "times": rng.choice([1, 50]),
                "do": rng.choice(["ENOSPC", "EIO"]), "arg": 0.5}
    return {"on": rng.choice(["remove", "mkdir", "open-r"]), "match": "jobs*", "nth": rng.choice([1, 2]), "times": rng.choice([1, 50]),
            "do": rng.choice(["EACCES", "EIO"])}


# ---------------------------------------------------------------- the run

class World:
    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        self.root = os.getcwd()
        self.p = cloud.Platform(sim)
        cloud.CURRENT["platform"] = self.p
        self.p.users = {"ak-" + u: "app-one" if plan.get("oneapp") else "app-" + u for u in "abc"}
        self.p.projects = {"ak-a": [71, 72], "ak-b": [81], "ak-c": [91, 92, 93]}
        if plan["noproj"]:
            self.p.projects["ak-a"] = []
        self.jobs = {u: [] for u in "abc"}       # ids this user was given
        self.seq = 0


def data_bytes(name, user):
    return ("data of %s for %s\n" % (name, user)).encode() * 40


def files_in(d):
    out = []
    for dp, _, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(dp, f), d) for f in fs]
    return sorted(out)


def job_output(job, kind):
    jid = job["id"]
    doc = {"model": job["spec"]["model"], "dataset": "d%d" % jid, "equation": "u_t = %d u_xx" % jid,
           "elapsed_seconds": 1.5, "status": "success", "params": job["spec"]["params"]}
    if kind == "error":
        doc.update(status="error", equation="(error)", error="Traceback of job %d" % jid)
    out = {"equation.png": b"png%d" % jid}
    if kind != "none":
        out["result.json"] = json.dumps(doc, ensure_ascii=False).encode("utf-8")
    if kind == "extra":
        out["training_curve.png"] = b"curve%d" % jid
        out["log.txt"] = b"x" * 500
    return out


def run(plan, sim):
    import importlib
    os.makedirs("tmp")
    os.makedirs("up")
    sim.install_tmp(os.path.join(os.getcwd(), "tmp"))
    for k in ("KD_GPU_PROJECT_ID", "KD_GPU_APP_KEY", "KD_GPU_SUB_MODEL"):
        os.environ.pop(k, None)
    os.environ.update(plan["env"])
    os.environ["KD_JOB_OUTPUT_DIR"] = os.path.join(os.getcwd(), "jobs")
    w = World(plan, sim)
    cloud.install_sdk(lambda: w.p)
    import kd.job
    importlib.reload(kd.job)
    threads.install_locks()
    for u in "abc":
        os.makedirs(os.path.join("up", u))
        for n in DATA:
            with open(os.path.join("up", u, n), "wb") as f:
                f.write(data_bytes(n, u))
    if plan["litter"]:
        for d in ["jobs/kd_%d" % i for i in range(1000, 1006)] + ["shared"] + ["own-" + u for u in "abc"]:
            os.makedirs(d)
            with open(os.path.join(d, "result.json"), "w") as f:
                f.write('{"status": "success", "equation": "u_t = OLD"}')
            with open(os.path.join(d, "equation.png"), "wb") as f:
                f.write(b"OLD")
    sim.install_clock()
    sim.install_fs()
    sim.log_io = False
    sim.arm(plan["faults"])
    if plan["mode"] == "seq":
        for k, op in enumerate(plan["ops"]):
            call(w, k, op)
    else:
        s = threads.Sched(sim, plan["sched"])
        users = sorted({op["user"] for op in plan["ops"]})
        for u in users:
            def body(u=u):
                for k, op in enumerate(plan["ops"]):
                    if op["user"] == u:
                        call(w, k, op)
            s.spawn(u, body)
        for t, r in zip(s.threads, s.run()):
            if r[0] != "ok":
                raise RuntimeError("thread %s: %s" % (t.name, r[2])) from r[1]
    # faults stop: every finished job's result can be had
    sim.arm([])
    for u in "abc":
        for jid in w.jobs[u]:
            final(w, u, jid)
    sim.nontrivial = bool(w.p.jobs) and (bool(sim.stats["faults"]) or plan["litter"] or sim.stats["switches"] > 3)
    sim.info["count"] = {"jobs accepted": len(w.p.jobs), "platform calls": len(w.p.calls)}


def call(w, k, op):
    {"submit": submit, "check": check, "download": download}[op["api"]](w, k, op)


def attempt(fn):
    try:
        return "ok", fn()
    except (threads.Deadlock, threads.Killed):
        raise
    except BaseException as e:
        return "raised", e


def fired(w, mark):
    return any(ln.startswith("fault ") for ln in w.sim.trace[mark:])


def request_of(op):
    return cloud.Request(op["user"], op["cookie"]) if op.get("cookie") is not None else (
        cloud.Request(None) if "cookie" in op else cloud.Request(op["user"]))


def creds_ok(op):
    return "cookie" not in op


def submit(w, k, op):
    import kd.job
    sim, p, u = w.sim, w.p, op["user"]
    me = w.plan["mode"] == "par"
    path = os.path.join("up", u, op["file"]) if op.get("file") else None
    if op.get("gone"):
        path = os.path.join("up", u, "gone-" + op["file"])
    params = copy.deepcopy(op["params"])
    before_jobs, before_calls, mark = set(p.jobs), len(p.calls), len(sim.trace)
    tmp0 = [f for f in files_in("tmp")]

    def on_submit(job):
        job["spec"] = op
        for q in w.plan["ops"]:
            if q["api"] == "submit" and q.get("_now") and q["user"] == job["who"].replace("MainThread", q["user"]):
                job["spec"] = q
        job["script"] = job["spec"]["script"]
        job["order"] = job["spec"]["order"]
        job["output"] = job_output(job, job["spec"]["out"])
    p.on_submit = on_submit
    op["_now"] = True
    kw = {}
    if "project" in op:
        kw["project_id"] = op["project"]
    if path:
        kw["dataset_file"] = path
    how, val = attempt(lambda: kd.job.submit_gpu_job(op["model"], op["ds"], params, request_of(op), **kw))
    op.pop("_now")
    mine = [p.jobs[j] for j in sorted(set(p.jobs) - before_jobs) if p.jobs[j]["ak"] == "ak-" + u]
    calls = [c for c in p.calls[before_calls:] if not me or c["who"] == u]
    sent = [c for c in calls if c["api"] == "submit"]
    tag = "call %s: submit by %s (%s)" % (k, u, val if how == "ok" else type(val).__name__)
    sim.log(tag)
    if params != op["params"]:
        sim.violate("arguments", "%s: the caller's parameters were changed" % tag)
    if len(sent) > 1:
        sim.violate("resubmit", "%s: the job was sent %d times" % (tag, len(sent)))
    foreign = [c for c in calls if c["ak"] != "ak-" + u]
    if foreign:
        sim.violate("credentials", "%s: the platform was called with the credentials of %s" % (tag, foreign[0]["ak"]))
    others = [p.jobs[j] for j in set(p.jobs) - before_jobs if p.jobs[j]["who"] == ("MainThread" if not me else u) and p.jobs[j]["ak"] != "ak-" + u]
    if others:
        sim.violate("credentials", "%s: a job was created for %s" % (tag, others[0]["ak"]))
    pid = op.get("project") or int(w.plan["env"].get("KD_GPU_PROJECT_ID", "0"))
    if not pid:
        pid = (w.p.projects["ak-" + u] or [None])[0]
    bad = []
    if op.get("gone"):
        bad.append("data file missing")
    if not creds_ok(op):
        bad.append("no credentials")
    if pid is None:
        bad.append("no project")
    if bad and sent:
        sim.violate("precondition", "%s: a job was sent although: %s" % (tag, ", ".join(bad)))
    if bad and how == "ok":
        sim.violate("precondition", "%s: returned %r although: %s" % (tag, val, ", ".join(bad)))
    if how == "ok":
        if len(mine) != 1 or val != mine[0]["id"]:
            sim.violate("returned-id", "%s: returned %r, the platform accepted %s" % (tag, val, [j["id"] for j in mine]))
        else:
            w.jobs[u].append(val)
    elif not bad and not fired(w, mark):
        sim.violate("progress", "%s: nothing failed but the call raised %r" % (tag, val))
    for j in mine:
        judge_job(w, tag, op, j, pid, path)
    broken_remove = any(ln.startswith("fault remove tmp") for ln in sim.trace[mark:])
    left = [f for f in files_in("tmp") if f not in tmp0]
    if not me and left and not broken_remove:
        sim.violate("leftover", "%s: temporary file left behind: %s" % (tag, left))
    if path and not op.get("gone"):
        with _real_open(path, "rb") as f:
            if f.read() != data_bytes(op["file"], u):
                sim.violate("arguments", "%s: the user's data file was changed" % tag)


def judge_job(w, tag, op, j, pid, path):
    sim, env = w.sim, w.plan["env"]
    if j["project"] != pid:
        sim.violate("project", "%s: job submitted to project %r instead of %r" % (tag, j["project"], pid))
    if j["app_key"] != env.get("KD_GPU_APP_KEY", "kd-gpu-runner") or j["sub_model"] != env.get("KD_GPU_SUB_MODEL", "KD_GPU"):
        sim.violate("upload", "%s: job sent to %s/%s" % (tag, j["app_key"], j["sub_model"]))
    cfg = j["files"].get("config")
    try:
        doc = json.loads(cfg["data"].decode("utf-8"))
    except Exception as e:
        sim.violate("upload", "%s: the uploaded configuration is not readable: %r (%s)" % (tag, cfg and cfg["data"][:80], e))
        return
    if doc.get("model") != op["model"] or doc.get("params") != op["params"] or (doc.get("dataset_name") or None) != op["ds"]:
        sim.violate("upload", "%s: the uploaded configuration describes another training: %r" % (tag, doc))
    if doc.get("output_dir") != "output" or j["inputs"].get("output_dir") != "output":
        sim.violate("upload", "%s: the job writes to %r/%r, the client downloads 'output'" % (
            tag, doc.get("output_dir"), j["inputs"].get("output_dir")))
    if path:
        up = j["files"].get("dataset_file")
        if up is None or up["data"] != data_bytes(op["file"], op["user"]):
            sim.violate("upload", "%s: the data file was not uploaded unchanged" % tag)
        elif doc.get("dataset_file") != up["name"]:
            sim.violate("upload", "%s: the configuration names %r, the uploaded file is %r" % (tag, doc.get("dataset_file"), up["name"]))
    elif "dataset_file" in j["files"] or doc.get("dataset_file"):
        sim.violate("upload", "%s: a data file nobody gave was uploaded" % tag)
    if set(j["files"]) - {"config", "dataset_file"}:
        sim.violate("upload", "%s: unexpected uploads %s" % (tag, sorted(j["files"])))


TEXT = {0: "Pending", 1: "Running", 2: "Packaging", 3: "Submitted", 4: "Running", 5: "Running", 6: "Running", 7: "Running",
        8: "Running", 9: "DownloadOutput", 10: "Finished", 11: "Finished", 12: "Failed", 13: "Error"}


def target_job(w, op):
    if op.get("other"):
        ids = [j for u in "abc" if u != op["user"] for j in w.jobs[u]]
        if ids:
            return sorted(ids)[op["pick"] % len(ids)]
    ids = w.jobs[op["user"]]
    return ids[op["pick"] % len(ids)] if ids else None


def check(w, k, op):
    import kd.job
    sim, p, u = w.sim, w.p, op["user"]
    jid = target_job(w, op)
    if jid is None:
        return
    mark, c0, j0 = len(sim.trace), len(p.calls), len(p.jobs)
    me = w.plan["mode"] == "par"
    how, val = attempt(lambda: kd.job.check_job(jid, request_of(op)))
    tag = "call %s: check of %s by %s" % (k, jid, u)
    sim.log(tag, how, sorted(val.items()) if how == "ok" and isinstance(val, dict) else type(val).__name__)
    calls = [c for c in p.calls[c0:] if not me or c["who"] == u]
    side_effects(w, tag, calls, u, ("detail",), jid)
    if not creds_ok(op):
        if how == "ok":
            sim.violate("precondition", "%s: answered without credentials" % tag)
        return
    if how != "ok":
        if not fired(w, mark):
            sim.violate("progress", "%s: nothing failed but the call raised %r" % (tag, val))
        return
    code = p.jobs[jid]["status"]
    if me and sum(1 for q in p.calls[c0:] if q["api"] == "detail" and q["arg"] == jid) != 1:
        return          # somebody else polled the same job meanwhile
    want = {"status_code": code, "finished": code in (10, 11), "failed": code in (12, 13)}
    for key, v in want.items():
        if val.get(key) != v or (isinstance(v, bool) and not isinstance(val.get(key), bool)):
            sim.violate("status", "%s: the platform says %s, %s is %r" % (tag, code, key, val.get(key)))
    if code in TEXT and val.get("status_text") != TEXT[code]:
        sim.violate("status", "%s: the platform says %s, status_text is %r" % (tag, code, val.get("status_text")))
    if not isinstance(val.get("status_text"), str) or (code not in TEXT and str(code) not in val["status_text"]):
        sim.violate("status", "%s: unknown status %s is shown as %r" % (tag, code, val.get("status_text")))
    if val.get("spend_time") != "%ds" % (60 * p.jobs[jid]["polls"]):
        sim.violate("status", "%s: spend_time is %r" % (tag, val.get("spend_time")))


def side_effects(w, tag, calls, u, allowed, jid):
    for c in calls:
        if c["api"] == "submit":
            w.sim.violate("resubmit", "%s sent a new job" % tag)
        elif c["ak"] != "ak-" + u:
            w.sim.violate("credentials", "%s used the credentials of %s" % (tag, c["ak"]))
        elif c["api"] in allowed and c["arg"] != jid:
            w.sim.violate("wrong-job", "%s asked about job %s" % (tag, c["arg"]))


def download(w, k, op, jid=None):
    import kd.job
    sim, p, u = w.sim, w.p, op["user"]
    jid = jid or target_job(w, op)
    if jid is None:
        return None
    mark, c0 = len(sim.trace), len(p.calls)
    me = w.plan["mode"] == "par"
    d = {"shared": "shared", "own": "own-" + u}.get(op.get("dir"))
    if me and d == "shared":
        d = "own-" + u
    kw = {"save_dir": d} if d else {}
    snap = snapshot(w.root) if not me else None
    how, val = attempt(lambda: kd.job.download_result(jid, request_of(op), **kw))
    tag = "call %s: download of %s by %s" % (k, jid, u)
    sim.log(tag, how, repr(val).replace(w.root, "")[:200])
    calls = [c for c in p.calls[c0:] if not me or c["who"] == u]
    side_effects(w, tag, calls, u, ("download",), jid)
    if not creds_ok(op):
        if how == "ok":
            sim.violate("precondition", "%s: answered without credentials" % tag)
        return None
    dest = os.path.realpath(d) if d else os.path.realpath(os.path.join("jobs", "kd_%d" % jid))
    if snap is not None:
        now = snapshot(w.root)
        for f in set(snap) | set(now):
            if snap.get(f) != now.get(f) and not os.path.join(w.root, f).startswith(dest + os.sep):
                sim.violate("outside", "%s: changed %s outside %s" % (tag, f, os.path.relpath(dest, w.root)))
    if how != "ok":
        if not fired(w, mark) and not (me and shares(w, op)):
            sim.violate("progress", "%s: nothing failed but the call raised %r" % (tag, val))
        return None
    if not (isinstance(val, tuple) and len(val) == 2 and isinstance(val[0], dict)):
        sim.violate("result", "%s: returned %r" % (tag, val))
        return None
    doc, where = val
    if os.path.realpath(where) != dest:
        sim.violate("result", "%s: reports the directory %s instead of %s" % (tag, where, dest))
    true = p.jobs[jid]["output"].get("result.json")
    true = json.loads(true.decode("utf-8")) if true is not None else None
    if doc != true:
        if doc.get("status") != "error" or "equation" in doc and "u_t" in str(doc["equation"]):
            sim.violate("stale", "%s: reported %r, the job's result is %r" % (tag, doc, true))
        elif true is not None and not fired(w, mark) and not (me and shares(w, op)):
            sim.violate("progress", "%s: nothing failed but the result is missing: %r" % (tag, doc))
    return doc


def shares(w, op):
    return any(o["api"] == "download" and o["user"] != op["user"] for o in w.plan["ops"])


def snapshot(root):
    out = {}
    for dp, _, fs in os.walk(root):
        for f in fs:
            q = os.path.join(dp, f)
            try:
                with _real_open(q, "rb") as fh:
                    out[os.path.relpath(q, root)] = fh.read()
            except OSError:
                pass
    return out


def final(w, u, jid):
    doc = download(w, "last", {"user": u, "api": "download"}, jid=jid)
    true = w.p.jobs[jid]["output"].get("result.json")
    if true is not None and doc != json.loads(true.decode("utf-8")):
        w.sim.violate("progress", "after all faults the result of job %d still cannot be had: %r" % (jid, doc))
