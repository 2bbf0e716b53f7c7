"""Zygote: imports the code under test once, then forks one process per run.

Protocol: JSON lines on stdin ({"id", "prop", "plan", "timeout"}), JSON lines on
the original stdout ({"id", "outcome"|"error"|"timeout"}).
"""
import gc
import importlib
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback


def no_debugger(s):
    """The code under test has debugger prompts; nobody is there to answer one."""
    import pdb

    def set_trace(*a, **k):
        f = sys._getframe(1)
        s.log("debugger", os.path.basename(f.f_code.co_filename), f.f_code.co_name, f.f_lineno)
        raise RuntimeError("the code stopped at a debugger prompt (%s)" % f.f_code.co_name)
    pdb.set_trace = set_trace


def main():
    base, slots, prop = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    out = os.fdopen(os.dup(1), "wb", buffering=0)
    devnull = os.open(os.devnull, os.O_RDWR)
    dbg = os.environ.get("DST_DEBUG")
    if not dbg:
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    else:
        os.dup2(2, 1)
    from . import boot, sim as simmod

    def emit(obj):
        out.write(json.dumps(obj, default=repr).encode() + b"\n")

    broken = None
    try:
        scen = importlib.import_module("dst.scen." + prop.lower())
        home = os.path.join(base, "home")
        os.makedirs(home, exist_ok=True)
        os.chdir(home)
        boot.import_target(scen.MODULES)
        if hasattr(scen, "prepare"):
            scen.prepare(base)
    except BaseException as e:
        broken = simmod.code_failure(e)
        if broken is None:
            emit({"id": -1, "error": traceback.format_exc()})
            return 1
    gc.collect()
    gc.freeze()
    emit({"id": -1, "ready": True})

    running = {}  # fd -> dict
    queue = []
    buf = b""
    eof = False
    stdin = 0

    def start(req):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(rd)
                for fd in list(running):
                    os.close(fd)
                null = os.open(os.devnull, os.O_RDONLY)
                os.dup2(null, 0)      # a debugger prompt must not eat the requests
                os.close(null)
                scratch = os.path.join(base, "run-%d" % req["id"])
                os.makedirs(scratch, exist_ok=True)
                os.chdir(scratch)
                os.environ["HOME"] = scratch
                import tempfile
                tempfile.tempdir = None
                os.environ["TMPDIR"] = scratch
                s = simmod.Sim(req["plan"], scratch)
                no_debugger(s)
                try:
                    if broken:
                        s.violate("fails", "the code under test fails before any fault: " + broken)
                    else:
                        scen.run(req["plan"], s)
                    payload = {"outcome": s.outcome()}
                except BaseException as e:
                    # an operation no scenario lets fail
                    failure = simmod.code_failure(e) or s.failure
                    if failure:
                        s.violate("fails", "an operation that has to succeed fails: " + failure)
                        payload = {"outcome": s.outcome()}
                    else:
                        payload = {"error": traceback.format_exc()[-6000:], "trace": s.trace[-50:]}
                s.fs_on = False
                data = json.dumps(payload, default=repr).encode()
                off = 0
                while off < len(data):
                    off += os.write(wr, data[off:off + 65536])
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        running[rd] = {"id": req["id"], "pid": pid, "t0": time.monotonic(),
                       "timeout": req.get("timeout", 120), "buf": []}

    def finish(rd, timeout=False):
        r = running.pop(rd)
        os.close(rd)
        try:
            os.killpg(r["pid"], signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(r["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(r["pid"], 0)
        scratch = os.path.join(base, "run-%d" % r["id"])
        shutil.rmtree(scratch, ignore_errors=True)
        wall = time.monotonic() - r["t0"]
        if timeout:
            emit({"id": r["id"], "timeout": True, "wall": wall})
            return
        data = b"".join(r["buf"])
        try:
            payload = json.loads(data)
        except ValueError:
            payload = {"error": "run process died (status %d)" % st}
        payload["id"] = r["id"]
        payload["wall"] = wall
        emit(payload)

    while not (eof and not queue and not running):
        while queue and len(running) < slots:
            start(queue.pop(0))
        fds = list(running) + ([] if eof else [stdin])
        rl, _, _ = select.select(fds, [], [], 0.5)
        for fd in rl:
            if fd == stdin and fd not in running:
                b = os.read(stdin, 1 << 16)
                if not b:
                    eof = True
                    # the orchestrator is gone: abandon the rest
                    for rd in list(running):
                        finish(rd, True)
                    return 0
                buf += b
                while b"\n" in buf:
                    line, buf = buf.split(b"\n", 1)
                    queue.append(json.loads(line))
            elif fd in running:
                b = os.read(fd, 1 << 16)
                if b:
                    running[fd]["buf"].append(b)
                else:
                    finish(fd)
        now = time.monotonic()
        for fd in list(running):
            if now - running[fd]["t0"] > running[fd]["timeout"]:
                finish(fd, True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
