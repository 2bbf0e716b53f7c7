"""A simulated Bohrium platform and Gradio front end (network seams of kd.job and app).

The platform keeps projects, jobs, uploaded files and job outputs. Every SDK
call is one simulated message exchange: the plan may lose the request (nothing
happens), lose the reply (the effect stands), delay it, or answer with an error.
"""
import json
import os
import shutil
import sys
import threading
import types


from .sim import _real_open


class NetError(ConnectionError):
    pass


class Platform:
    def __init__(self, sim, plan=None):
        self.sim = sim
        self.jobs = {}            # id -> dict
        self.calls = []           # (api, credentials, summary)
        self.next_id = 1000
        self.users = {"ak-a": "app-a", "ak-b": "app-b"}
        self.via = {}             # thread -> application of the client it is using
        self.projects = {"ak-a": [71, 72], "ak-b": [81]}
        self.on_submit = None     # fn(job) -> None, decides the job's future

    def note(self, api, creds, detail=None):
        app = self.via.get(threading.current_thread().name)
        if app is not None and app != self.users.get(creds, app):
            creds = "%s of %s" % (creds, app)         # not a pair this user was given
        self.calls.append({"api": api, "ak": creds, "arg": detail, "who": threading.current_thread().name})

    # -- faults ------------------------------------------------------------
    def net(self, api, creds, effect):
        """One request/reply exchange."""
        sim = self.sim
        f = sim.fault("net:" + api, creds)
        if f is not None:
            do = f["do"]
            if do == "lost-request":
                raise NetError("connection reset [injected]")
            if do == "lost-reply":
                effect()
                raise NetError("timed out waiting for a reply [injected]")
            if do == "auth":
                raise PermissionError("401 Unauthorized [injected]")
            if do == "empty":
                effect()
                return {}
            if do == "delay":
                sim.clock += float(f.get("arg", 1))
                sim.stats["sim_time"] += float(f.get("arg", 1))
            elif do == "interrupt":
                raise KeyboardInterrupt("injected")
            elif do == "error":
                raise RuntimeError("500 Internal Server Error [injected]")
        return effect()

    # -- API ---------------------------------------------------------------
    def list_project(self, ak):
        items = [{"project_id": p} for p in self.projects.get(ak, [])]
        self.note("list_project", ak)
        return self.net("list_project", ak, lambda: {"code": 0, "data": {"items": items}})

    def submit(self, ak, app_key, sub_model_name, project_id, inputs, upload_files):
        def effect():
            files = {}
            for it in upload_files:
                with open(it.src, "rb") as fh:
                    files[it.input_field] = {"name": os.path.basename(it.src), "data": fh.read(), "src": it.src}
            jid = self.next_id
            self.next_id += 1
            job = {"id": jid, "ak": ak, "app_key": app_key, "sub_model": sub_model_name, "project": project_id,
                   "inputs": dict(inputs), "files": files, "status": 3, "who": threading.current_thread().name, "polls": 0, "script": [10], "output": {}}
            self.jobs[jid] = job
            if self.on_submit:
                self.on_submit(job)
            self.sim.log("platform: job", jid, "accepted from", ak)
            return {"code": 0, "data": {"jobId": jid}}
        self.note("submit", ak)
        return self.net("submit", ak, effect)

    def detail(self, ak, job_id):
        def effect():
            job = self.jobs[int(job_id)]
            script = job["script"]
            job["status"] = script[min(job["polls"], len(script) - 1)]
            job["polls"] += 1
            self.sim.log("platform: job", job_id, "status", job["status"])
            return {"code": 0, "data": {"status": job["status"], "spendTime": "%ds" % (60 * job["polls"])}}
        self.note("detail", ak, job_id)
        return self.net("detail", ak, effect)

    def download(self, ak, job_id, remote_target, save_path):
        """Files arrive one by one; a fault may stop after some, or tear one."""
        self.note("download", ak, job_id)
        sim = self.sim

        def effect():
            job = self.jobs[int(job_id)]
            names = sorted(job["output"], key=lambda n: (n == "result.json", n)) if job.get("order") == "last" \
                else sorted(job["output"], key=lambda n: (n != "result.json", n))
            for name in names:
                f = sim.fault("net:file", name)
                data = job["output"][name]
                if f is not None:
                    if f["do"] == "skip":
                        continue
                    if f["do"] == "lost-reply" or f["do"] == "lost-request":
                        raise NetError("connection reset during download [injected]")
                    if f["do"] == "torn":
                        data = data[: int(len(data) * float(f.get("arg", 0.5)))]
                    if f["do"] == "torn-stop":
                        self._store(save_path, name, data[: int(len(data) * float(f.get("arg", 0.5)))])
                        raise NetError("connection reset during download [injected]")
                self._store(save_path, name, data)
            sim.log("platform: download of", job_id, "done")
        return self.net("download", ak, effect)

    def _store(self, save_path, name, data):
        with _real_open(os.path.join(save_path, name), "wb") as fh:
            fh.write(data)


def install_sdk(get_platform):
    """Put a fake bohrium_open_sdk in sys.modules; get_platform() at call time."""
    m = types.ModuleType("bohrium_open_sdk")

    class UploadInputItem:
        def __init__(self, input_field=None, src=None, **k):
            self.input_field, self.src = input_field, src

    class OpenSDK:
        def __init__(self, access_key=None, app_key=None, **k):
            p = get_platform()
            if not isinstance(access_key, str) or not access_key:
                raise ValueError("no access key")
            own_app = app_key

            def via():
                p.via[threading.current_thread().name] = own_app
                return access_key
            p.note("client", via(), app_key)
            ns = types.SimpleNamespace
            self.user = ns(list_project=lambda: p.list_project(via()))
            self.app = ns(job=ns(
                submit=lambda app_key=None, sub_model_name=None, project_id=None, inputs=None, upload_files=():
                    p.submit(via(), app_key, sub_model_name, project_id, inputs or {}, upload_files),
                detail=lambda job_id: p.detail(via(), job_id)))
            self.web = ns(sub_model=ns(
                download=lambda job_id, remote_target=None, save_path=None:
                    p.download(via(), job_id, remote_target, save_path)))

    m.UploadInputItem, m.OpenSDK = UploadInputItem, OpenSDK
    sys.modules["bohrium_open_sdk"] = m


class Request:
    """gr.Request as the handlers see it."""

    def __init__(self, user=None, cookie=None):
        self.user = user
        if cookie is None and user:
            p = CURRENT.get("platform")
            app = p.users.get("ak-%s" % user, "app-%s" % user) if p else "app-%s" % user
            cookie = "appAccessKey=ak-%s; clientName=%s; other=1" % (user, app)
        self.headers = {"cookie": cookie} if cookie is not None else {}


# ---------------------------------------------------------------- front end

class Component:
    def __init__(self, kind, *a, **k):
        self.kind, self.args, self.kw = kind, a, k
        self.events = []
        if UI["current"] is not None:
            UI["current"].append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _on(self, ev, fn, inputs=None, outputs=None, cancels=None, **k):
        e = {"ev": ev, "fn": fn, "inputs": _l(inputs), "outputs": _l(outputs), "cancels": cancels or []}
        self.events.append(e)
        return e

    def click(self, fn=None, inputs=None, outputs=None, cancels=None, **k):
        return self._on("click", fn, inputs, outputs, cancels)

    def change(self, fn=None, inputs=None, outputs=None, **k):
        return self._on("change", fn, inputs, outputs)

    def load(self, fn=None, inputs=None, outputs=None, **k):
        return self._on("load", fn, inputs, outputs)

    def launch(self, *a, **k):
        raise AssertionError("launch")

    def initial(self):
        k = self.kw
        return {"value": self.args[0] if self.kind == "State" and self.args else k.get("value"),
                "choices": list(k.get("choices") or []), "visible": k.get("visible", True)}


UI = {"current": None}
CURRENT = {"platform": None}


def _l(v):
    if v is None:
        return []
    return list(v) if isinstance(v, (list, tuple)) else [v]


def install_gradio():
    g = types.ModuleType("gradio")

    def update(**k):
        return dict(k, __type__="update")
    g.update = update
    g.Request = Request
    for kind in ("Blocks", "Markdown", "State", "Tabs", "TabItem", "Tab", "Row", "Column", "Group", "Dropdown", "Number",
                 "Textbox", "Slider", "Button", "Plot", "Accordion", "Image", "Checkbox", "File", "HTML", "Radio"):
        setattr(g, kind, (lambda kind: lambda *a, **k: Component(kind, *a, **k))(kind))
    g.themes = types.SimpleNamespace(Soft=lambda **k: None, Default=lambda **k: None)
    sys.modules["gradio"] = g


class Session:
    """One browser session: component values, and events dispatched by the wiring."""

    def __init__(self, sim, comps, user, name):
        self.sim, self.comps, self.user, self.name = sim, comps, user, name
        self.vals = {id(c): c.initial() for c in comps}

    def find(self, kind, label):
        for c in self.comps:
            if c.kind == kind and (c.kw.get("label") == label or (c.args and c.args[0] == label)
                                   or c.kw.get("value") == label):
                return c
        raise AssertionError("the page has no %s %r" % (kind, label))

    def get(self, comp):
        return self.vals[id(comp)]

    def set(self, comp, value):
        self.vals[id(comp)]["value"] = value

    def apply(self, outputs, res):
        """What Gradio does with a handler's return value; returns an error text or None."""
        outs = list(res) if isinstance(res, tuple) else [res]
        if len(outs) != len(outputs):
            return "handler returned %d values for %d outputs" % (len(outs), len(outputs))
        for c, v in zip(outputs, outs):
            st = self.vals[id(c)]
            if isinstance(v, dict) and v.get("__type__") == "update":
                st.update({k: x for k, x in v.items() if k in ("value", "visible", "choices")})
            else:
                st["value"] = v
        return None

    def fire(self, comp, ev):
        """Dispatch one event; returns ("ok"|"raised"|"bad", detail)."""
        import inspect
        for e in comp.events:
            if e["ev"] != ev:
                continue
            args = [self.vals[id(c)]["value"] for c in e["inputs"]]
            fn = e["fn"]
            params = inspect.signature(fn).parameters
            kw = {"request": Request(self.user)} if "request" in params else {}
            try:
                res = fn(*args, **kw)
            except Exception as x:
                import traceback
                return "raised", "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1500:])
            bad = self.apply(e["outputs"], res)
            if bad:
                return "bad", bad
        return "ok", None


def build_ui(app):
    UI["current"] = comps = []
    try:
        app.build_app()
    finally:
        UI["current"] = None
    return comps
