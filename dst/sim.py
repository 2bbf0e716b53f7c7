"""The simulator: one Sim object owns every source of nondeterminism of one run.

Seams (all installed inside the forked process of one run, at library level, so
they do not depend on how the code under test is written):

* file system  - builtins.open / io.open / os.* / torch.save / torch.load, for
                 paths inside the run's scratch directory (or other scopes the
                 scenario adds): ENOSPC, EIO, EACCES, short and torn writes,
                 vanished files, truncated reads, crash at an operation
* step points  - sys.monitoring LINE events of the code under test: interrupt,
                 memory error, crash or thread switch at the n-th executed line
* clock        - time.time/monotonic/perf_counter/sleep on a virtual clock
* randomness   - the process-global generators, seeded or perturbed by the plan
* threads      - a baton scheduler: exactly one simulated thread runs, a seeded
                 generator decides who continues at every step point
* network      - scenario-owned stubs that ask `sim.fault()` what to do
"""
import builtins
import errno
import fnmatch
import hashlib
import io
import json
import os
import random
import re
import signal
import sys
import threading
import time as _time
import traceback

from . import boot

_real_open = io.open
_real = {
    "os.open": os.open, "os.rename": os.rename, "os.replace": os.replace,
    "os.remove": os.remove, "os.unlink": os.unlink, "os.mkdir": os.mkdir,
    "os.rmdir": os.rmdir, "os.fsync": os.fsync, "os.close": os.close,
    "os.link": os.link,
    "time": _time.time, "sleep": _time.sleep, "monotonic": _time.monotonic,
    "perf_counter": _time.perf_counter,
}

CRASH_EXIT = 137


class Violation(Exception):
    pass


def code_failure(e):
    """How e came out of the code under test, or None when it came from the harness itself."""
    from . import boot
    last, tb = None, e.__traceback__
    here = os.path.dirname(os.path.abspath(__file__))
    tops = (os.path.join(boot.REPO, "kd") + os.sep, os.path.join(boot.REPO, "app.py"))
    while tb is not None:
        code = tb.tb_frame.f_code
        name = code.co_filename
        if name.startswith(tops):
            last = code.co_name
        elif name.startswith(os.path.join(here, "scen")) or name == os.path.join(here, "work.py"):
            last = None
        tb = tb.tb_next
    if last is None and e.__cause__ is not None:
        return code_failure(e.__cause__)
    if last is None or type(e).__module__.startswith("dst.") or "injected" in str(e) or isinstance(e, (MemoryError, KeyboardInterrupt, SystemExit)):
        return None
    text = re.sub(r"0x[0-9a-f]+", "0x", re.sub(r"/[\w./+-]*/", "", str(e)))
    return "%s in %s: %s" % (type(e).__name__, last, text[:200])


class HarnessError(Exception):
    pass


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def canon(v):
    """A canonical, exactly comparable form of a result value."""
    import numpy as np
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    if isinstance(v, float):
        return float(v).hex() if v == v else "nan"
    if isinstance(v, np.generic):
        return canon(v.item())
    if isinstance(v, complex):
        return [canon(v.real), canon(v.imag)]
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ["obj", list(v.shape), [canon(x) for x in v.ravel()]]
        return ["nd", str(v.dtype), list(v.shape),
                hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest()[:16]]
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted(json.dumps(canon(x)) for x in v)
    try:
        import torch
        if isinstance(v, torch.Tensor):
            return canon(v.detach().cpu().numpy())
    except Exception:
        pass
    return "<" + type(v).__name__ + ">"


ERRNO = {
    "ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES,
    "ENOENT": errno.ENOENT, "EROFS": errno.EROFS, "EMFILE": errno.EMFILE,
}


def oserror(kind, path=None):
    code = ERRNO[kind]
    return OSError(code, os.strerror(code) + " [injected]", path)


_CLEAN = {}


def cleanup_lines(path):
    """Lines of `finally` and `except` bodies and `__exit__` methods, and of `with` headers
    (where leaving the block is reported)."""
    got = _CLEAN.get(path)
    if got is None:
        import ast
        body, heads = set(), set()
        try:
            with _real_open(path, "rb") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            part = []
            if isinstance(node, ast.Try):
                part = node.finalbody + [b for h in node.handlers for b in h.body]
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in ("__exit__", "__aexit__"):
                part = node.body
            elif isinstance(node, (ast.With, ast.AsyncWith)):
                heads.update(range(node.lineno, node.body[0].lineno))
            for b in part:
                body.update(range(b.lineno, b.end_lineno + 1))
        got = _CLEAN[path] = (body, heads)
    return got


def cleaning(frame, roots):
    """Is this code, or a caller of it, in the middle of its clean-up?"""
    inner = True
    while frame is not None:
        path = frame.f_code.co_filename
        if path.startswith(roots):
            body, heads = cleanup_lines(path)
            if frame.f_lineno in body or inner and frame.f_lineno in heads:
                return True
            inner = False
        frame = frame.f_back
    return False


class SimFile:
    """Write-side wrapper: bytes reach the file, then a planned fault may strike."""

    def __init__(self, sim, raw, path, rel):
        self._sim, self._f, self._path, self._rel = sim, raw, path, rel
        self._closed = False

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def writelines(self, lines):
        for ln in lines:
            self.write(ln)

    def write(self, data):
        f = self._sim.fs_fault("write", self._rel)
        if f is not None:
            do = f["do"]
            n = len(data)
            keep = min(n, int(f.get("arg", 0)) if f.get("arg", 0) >= 1 else int(n * float(f.get("arg", 0))))
            if do == "crash":
                try:
                    self._f.write(data[:keep])
                    if f.get("flush", True):
                        self._f.flush()
                finally:
                    self._sim.crash("write " + self._rel)
            if do in ERRNO:
                self._f.write(data[:keep])
                raise oserror(do, self._path)
            self._sim.apply(f, "write " + self._rel)
        return self._f.write(data)

    def flush(self):
        return self._f.flush()

    def close(self):
        if self._closed:
            return
        self._closed = True
        f = self._sim.fs_fault("close", self._rel)
        if f is not None:
            if f["do"] == "crash":
                self._sim.crash("close " + self._rel)
            try:
                if f["do"] in ERRNO:
                    # delayed allocation: the tail of the file never reached the disk
                    self._f.flush()
                    try:
                        size = self._f.tell()
                        self._f.truncate(int(size * float(f.get("arg", 0.5))))
                    except Exception:
                        pass
            finally:
                self._f.close()
            if f["do"] in ERRNO:
                raise oserror(f["do"], self._path)
            self._sim.apply(f, "close " + self._rel)
        else:
            self._f.close()

    @property
    def closed(self):
        return self._f.closed


class Sim:
    def __init__(self, plan, scratch, label=""):
        self.plan = plan
        self.scratch = scratch
        self.root = os.path.realpath(scratch)
        self.scopes = [(self.root, "")]
        self.trace = []
        self.violations = []
        self.failure = None     # how the code failed in the last incarnation
        self.stats = {"faults": {}, "io_ops": 0, "steps": 0, "sim_time": 0.0, "switches": 0}
        self.clock = 1_700_000_000.0
        self.mono = 5000.0
        self.nontrivial = False
        self.state = None
        self.info = {}
        self.fs_on = False
        self.fds = {}
        self._counts = {}
        self.faults = []
        self.sched = None
        self._mon = False
        self.step_no = 0
        self.step_hook = None
        self.log_io = True

    # -- reporting ---------------------------------------------------------
    def log(self, *parts):
        if len(self.trace) < 4000:
            self.trace.append(" ".join(str(p) for p in parts))

    def violate(self, oracle, detail):
        self.violations.append({"oracle": oracle, "detail": str(detail)[:2000]})
        self.log("VIOLATION", oracle, str(detail)[:400])

    def check(self, ok, oracle, detail):
        if not ok:
            self.violate(oracle, detail() if callable(detail) else detail)
        return ok

    def count(self, kind):
        self.stats["faults"][kind] = self.stats["faults"].get(kind, 0) + 1

    # -- faults ------------------------------------------------------------
    def arm(self, faults):
        """Install the plan's fault list; each entry strikes on its n-th match."""
        self.faults = [dict(f, _seen=0, _fired=0) for f in faults]

    def fault(self, op, target=""):
        """Ask the plan whether something happens to this operation."""
        hit = None
        for f in self.faults:
            if not fnmatch.fnmatchcase(op, f["on"]):
                continue
            if f.get("match") and not fnmatch.fnmatchcase(target, f["match"]):
                continue
            f["_seen"] += 1
            first = int(f.get("nth", 1))
            times = int(f.get("times", 1))
            if hit is None and first <= f["_seen"] < first + times:
                f["_fired"] += 1
                hit = f
        if hit is not None:
            self.count(op.split(":")[0] + ":" + hit["do"])
            self.log("fault", op, target, hit["do"])
        return hit

    def fs_fault(self, op, rel):
        self.stats["io_ops"] += 1
        if self.log_io and op != "write":
            self.log("io", op, rel)
        return self.fault(op, rel)

    def apply(self, f, where):
        do = f["do"]
        if do in ERRNO:
            raise oserror(do, where)
        if do == "crash":
            self.crash(where)
        if do == "interrupt":
            raise KeyboardInterrupt("injected")
        if do == "memerr":
            raise MemoryError("injected")
        if do == "error":
            raise RuntimeError("injected failure")
        if do == "bare":
            raise MemoryError()
        if do == "exit":
            raise SystemExit(3)
        if do == "clock":
            self.clock += float(f.get("arg", 0))
            return
        if do == "rng":
            self.perturb_rng(int(f.get("arg", 1)))
            return
        if do == "call":
            f["fn"]()
            return
        raise HarnessError("unknown fault " + do)

    def crash(self, where):
        """kill -9 of the simulated process: buffers are gone, files stay."""
        self.log("crash", where)
        hook = getattr(self, "on_crash", None)
        if hook:
            hook()
        os._exit(CRASH_EXIT)

    # -- file system -------------------------------------------------------
    def rel(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        # resolve the parent (the last component may not exist yet)
        for root, prefix in self.scopes:
            if p == root or p.startswith(root + os.sep):
                return prefix + os.path.relpath(p, root)
        return None

    def add_scope(self, root, prefix):
        self.scopes.append((os.path.realpath(root), prefix))

    def install_fs(self):
        if self.fs_on:
            return
        self.fs_on = True
        sim = self

        def sim_open(file, mode="r", *a, **k):
            if isinstance(file, int):
                path = sim.fds.pop(file, None)
                rel = sim.rel(path) if path is not None else None
            else:
                path, rel = file, sim.rel(file)
            if rel is None or not sim.fs_on:
                return _real_open(file, mode, *a, **k)
            writing = any(c in mode for c in "wax+")
            if not isinstance(file, int):
                f = sim.fs_fault("open-w" if writing else "open-r", rel)
                if f is not None:
                    if f["do"] == "truncate":
                        with _real_open(file, "rb") as fh:
                            data = fh.read()
                        data = data[: int(len(data) * float(f.get("arg", 0.5)))]
                        if "b" in mode:
                            return io.BytesIO(data)
                        return io.StringIO(data.decode("utf-8", "replace"))
                    if f["do"] == "flip":
                        with _real_open(file, "rb") as fh:
                            data = bytearray(fh.read())
                        if data:
                            i = int(f.get("arg", 0)) % len(data)
                            data[i] ^= 0xFF
                        if "b" in mode:
                            return io.BytesIO(bytes(data))
                        return io.StringIO(bytes(data).decode("utf-8", "replace"))
                    sim.apply(f, rel)
            raw = _real_open(file, mode, *a, **k)
            return SimFile(sim, raw, os.fspath(path), rel) if writing else raw

        builtins.open = sim_open
        io.open = sim_open

        def os_open(path, flags, *a, **k):
            rel = sim.rel(path)
            if rel is not None:
                w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
                f = sim.fs_fault("open-w" if w else "open-r", rel)
                if f is not None:
                    sim.apply(f, rel)
            fd = _real["os.open"](path, flags, *a, **k)
            if rel is not None:
                sim.fds[fd] = path
            return fd

        def os_close(fd):
            sim.fds.pop(fd, None)
            return _real["os.close"](fd)

        def one(name, op):
            real = _real[name]

            def call(path, *a, **k):
                rel = sim.rel(path)
                if rel is not None:
                    f = sim.fs_fault(op, rel)
                    if f is not None:
                        sim.apply(f, rel)
                return real(path, *a, **k)
            return call

        def two(name, op):
            real = _real[name]

            def call(src, dst, *a, **k):
                rel = sim.rel(dst) or sim.rel(src)
                if rel is not None:
                    f = sim.fs_fault(op, rel)
                    if f is not None:
                        sim.apply(f, rel)
                return real(src, dst, *a, **k)
            return call

        os.open, os.close = os_open, os_close
        os.remove, os.unlink = one("os.remove", "remove"), one("os.unlink", "remove")
        os.mkdir, os.rmdir = one("os.mkdir", "mkdir"), one("os.rmdir", "rmdir")
        os.rename, os.replace = two("os.rename", "rename"), two("os.replace", "rename")
        os.link = two("os.link", "rename")
        self._install_torch()

    def install_tmp(self, path):
        """Temporary files go to `path` under names that repeat exactly."""
        import itertools
        import tempfile
        tempfile.tempdir = path
        tempfile._name_sequence = ("t%06d" % i for i in itertools.count())

    def _install_torch(self):
        import torch
        if getattr(torch, "_dst_sim", False):
            return
        torch._dst_sim = True
        t_save, t_load = torch.save, torch.load
        sim = self

        def save(obj, f, *a, **k):
            if isinstance(f, (str, os.PathLike)) and sim.rel(f) is not None:
                buf = io.BytesIO()
                t_save(obj, buf, *a, **k)
                with builtins.open(f, "wb") as fh:
                    fh.write(buf.getvalue())
                return None
            return t_save(obj, f, *a, **k)

        def load(f, *a, **k):
            if isinstance(f, (str, os.PathLike)) and sim.rel(f) is not None:
                with builtins.open(f, "rb") as fh:
                    data = fh.read()
                return t_load(io.BytesIO(data), *a, **k)
            return t_load(f, *a, **k)

        torch.save, torch.load = save, load
        if hasattr(torch, "serialization"):
            torch.serialization.save, torch.serialization.load = save, load

    # -- clock -------------------------------------------------------------
    def install_clock(self):
        sim = self

        def now():
            f = sim.fault("clock", "")
            if f is not None:
                sim.clock += float(f.get("arg", 0))   # the wall clock is set; monotonic clocks are not
            sim.clock += 1e-4
            sim.mono += 1e-4
            return sim.clock

        def mono():
            sim.clock += 1e-4
            sim.mono += 1e-4
            return sim.mono

        def sleep(s):
            s = max(0.0, float(s))
            sim.clock += s
            sim.mono += s
            sim.stats["sim_time"] += s
            sim.log("sleep", s)

        repl = {_real["time"]: now, _real["sleep"]: sleep,
                _real["monotonic"]: mono, _real["perf_counter"]: mono}
        _time.time, _time.sleep = now, sleep
        _time.monotonic, _time.perf_counter = mono, mono
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == "app" or name.split(".")[0] == "kd"):
                continue
            for k, v in list(vars(mod).items()):
                try:
                    r = repl.get(v)
                except TypeError:
                    continue
                if r is not None:
                    setattr(mod, k, r)

    # -- randomness --------------------------------------------------------
    def perturb_rng(self, seed):
        import numpy as np
        import torch
        random.seed(seed)
        np.random.seed(seed % (2 ** 32))
        torch.manual_seed(seed)

    # -- step points -------------------------------------------------------
    def install_steps(self, hook=None, prefixes=None):
        """Count executed lines of the code under test; `hook(n, code, line)`."""
        self.step_hook = hook
        self.step_no = 0
        if self._mon:
            return
        self._mon = True
        mon = sys.monitoring
        tool = mon.DEBUGGER_ID
        mon.use_tool_id(tool, "dst")
        roots = tuple(prefixes or (os.path.join(boot.REPO, "kd") + os.sep,
                                   os.path.join(boot.REPO, "app.py")))
        self._step_roots = roots
        seen = {}
        sim = self

        def on_line(code, line):
            ok = seen.get(code)
            if ok is None:
                ok = seen[code] = code.co_filename.startswith(roots)
            if not ok:
                return mon.DISABLE
            sim.step_no += 1
            sim.stats["steps"] += 1
            if sim.step_hook is not None:
                sim.step_hook(sim.step_no, code, line)
            return None

        mon.register_callback(tool, mon.events.LINE, on_line)
        mon.set_events(tool, mon.events.LINE)

    def remove_steps(self):
        if self._mon:
            mon = sys.monitoring
            mon.set_events(mon.DEBUGGER_ID, 0)
            mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, None)
            mon.free_tool_id(mon.DEBUGGER_ID)
            self._mon = False

    def strike_at(self, n, fault, spare_cleanup=False):
        """Apply `fault` at the n-th step point from now (once); with
        `spare_cleanup` at the first one from there on that is not inside a
        clean-up (what ends in the middle of its own clean-up cannot finish it)."""
        sim = self
        state = {"done": False}

        def hook(k, code, line):
            if k >= n and not state["done"]:
                if spare_cleanup and cleaning(sys._getframe(1), sim._step_roots):
                    return
                state["done"] = True
                sim.count("step:" + fault["do"])
                sim.log("fault step", fault["do"], os.path.basename(code.co_filename), code.co_name)
                sim.apply(fault, f"{code.co_name}:{line}")
        return hook

    def aside(self, n, call):
        """Run `call` (another process, from start to end) at the n-th step point from now (once)."""
        state = []

        def hook(k, code, line):
            if k >= n and not state:
                state.append(1)
                on, self.fs_on = self.fs_on, False
                self.count("another process meanwhile")
                self.log("meanwhile", os.path.basename(code.co_filename), code.co_name)
                try:
                    call()
                finally:
                    self.fs_on = on
        return hook

    # -- sub-processes -----------------------------------------------------
    def incarnation(self, fn, label="p", keep_faults=True):
        """Run fn() in a forked process that shares only the disk with us.

        Returns {"exit": "ok"|"crash"|"error"|"exit:<n>", "value":..., "error":...}.
        """
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r) if not self.fs_on else _real["os.close"](r)
                base = len(self.trace)
                sent = {"x": False}

                def send(payload):
                    if sent["x"]:
                        return
                    sent["x"] = True
                    payload.update(trace=self.trace[base:], stats=self.stats,
                                   violations=self.violations)
                    data = json.dumps(payload, default=repr).encode()
                    off = 0
                    while off < len(data):
                        off += os.write(w, data[off:off + 65536])

                self.on_crash = lambda: send({"exit": "crash"})
                self.violations = []
                self.stats = {"faults": {}, "io_ops": 0, "steps": 0, "sim_time": 0.0, "switches": 0}
                try:
                    value = fn()
                    payload = {"exit": "ok", "value": value}
                except SystemExit as e:
                    c = e.code
                    payload = {"exit": "exit:%s" % (0 if c is None else c if isinstance(c, int) else 1)}
                except BaseException as e:
                    payload = {"failure": code_failure(e), "exit": "error", "error": type(e).__name__ + ": " + str(e)[:500],
                               "tb": traceback.format_exc()[-3000:]}
                self.fs_on = False
                send(payload)
            except BaseException:
                code = 3
                try:
                    traceback.print_exc()
                except BaseException:
                    pass
            finally:
                os._exit(code)
        _real["os.close"](w)
        chunks = []
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            chunks.append(b)
        _real["os.close"](r)
        _, st = os.waitpid(pid, 0)
        data = b"".join(chunks)
        if not data:
            raise HarnessError(f"incarnation {label} died without a report (status {st})")
        res = json.loads(data)
        for ln in res.pop("trace"):
            self.log(f"[{label}]", ln)
        st2 = res.pop("stats")
        for k, v in st2["faults"].items():
            self.stats["faults"][k] = self.stats["faults"].get(k, 0) + v
        for k in ("io_ops", "steps", "sim_time", "switches"):
            self.stats[k] += st2[k]
        self.violations.extend(res.pop("violations"))
        self.failure = res.pop("failure", None)
        self.log(f"[{label}] exit", res["exit"], res.get("error", ""))
        return res

    def reserve(self, fn, label="r"):
        """A process as this one is now; the returned function runs fn(*args) in a fork of it, however late."""
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        sys.stdout.flush()
        if os.fork() == 0:
            try:
                os.close(qw), os.close(ar)
                ask, here = _real_open(qr, "r"), os.getcwd()
                for line in ask:
                    args = json.loads(line)
                    self.trace, self.violations = [], []
                    self.stats = {"faults": {}, "io_ops": 0, "steps": 0, "sim_time": 0.0, "switches": 0}
                    try:
                        os.chdir(here)
                        res = self.incarnation(lambda: fn(*args), label)
                    except HarnessError as e:
                        res = {"died": str(e)}
                    data = json.dumps({"res": res, "trace": self.trace, "stats": self.stats, "violations": self.violations,
                                       "failure": self.failure}, default=repr).encode() + b"\n"
                    while data:
                        data = data[os.write(aw, data):]
            finally:
                os._exit(0)
        os.close(qr), os.close(aw)

        def run(*args):
            data = json.dumps(args).encode() + b"\n"
            while data:
                data = data[os.write(qw, data):]
            buf = b""
            while not buf.endswith(b"\n"):
                b = os.read(ar, 65536)
                if not b:
                    raise HarnessError("the reserved process %s ended" % label)
                buf += b
            got = json.loads(buf)
            if "died" in got["res"]:
                raise HarnessError(got["res"]["died"])
            for ln in got["trace"]:
                self.log(ln)
            for k, v in got["stats"]["faults"].items():
                self.stats["faults"][k] = self.stats["faults"].get(k, 0) + v
            for k in ("io_ops", "steps", "sim_time", "switches"):
                self.stats[k] += got["stats"][k]
            self.violations.extend(got["violations"])
            self.failure = got["failure"]
            return got["res"]
        return run

    # -- result ------------------------------------------------------------
    def outcome(self):
        st = dict(self.stats)
        return {
            "violations": self.violations, "nontrivial": bool(self.nontrivial),
            "state": self.state if self.state is not None else digest(self.trace),
            "stats": st, "trace": self.trace, "digest": digest(self.trace),
            "info": self.info,
        }
