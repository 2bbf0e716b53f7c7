"""Environment for the process that hosts simulated runs.

Everything here is set before the code under test is imported, so that one seed
is one exactly repeatable execution: one numeric thread, no GPU, no display.
"""
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")

FIXED_ENV = {
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "CUDA_VISIBLE_DEVICES": "",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "LANG": "C.UTF-8",
}


def child_env(hashseed, base):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("KD_", "EQGPT_"))}
    env.update(FIXED_ENV)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["TMPDIR"] = base
    env["MPLCONFIGDIR"] = os.path.join(base, "mpl")
    env["HOME"] = base
    env["KD_JOB_OUTPUT_DIR"] = os.path.join(base, "job-output")
    env["EQGPT_DATA_DIR"] = "eqgpt-data"          # relative: the run's own directory
    return env


def import_target(modules):
    """Import the code under test from REPO (never from site-packages)."""
    import importlib
    import types
    import warnings

    warnings.filterwarnings("ignore")
    sys.dont_write_bytecode = True
    # TensorFlow and TensorBoard are telemetry sinks of the code under test:
    # the event writer is replaced by a recorder that does nothing.
    sys.modules["tensorflow"] = None
    tb = types.ModuleType("torch.utils.tensorboard")

    class SummaryWriter:  # stub
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, name):
            return lambda *a, **k: None

    tb.SummaryWriter = SummaryWriter
    sys.modules["torch.utils.tensorboard"] = tb
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(1)
    for m in modules:
        importlib.import_module(m)
    import kd

    where = os.path.realpath(kd.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"kd was imported from {where}, not from {REPO}")


def warm_numba(workload):
    """Compile the target's jitted helpers without running a fit in this process.

    A forked child runs `workload` and reports which signatures it compiled; the
    zygote then compiles the same ones, so that every run starts warm while the
    zygote's own state stays as imported.
    """
    import io
    import contextlib
    import pickle
    try:
        from numba.core.dispatcher import Dispatcher
    except Exception:
        return

    def dispatchers():
        out = {}
        for name, mod in list(sys.modules.items()):
            if mod is not None and name.split(".")[0] == "kd":
                for k, v in list(vars(mod).items()):
                    if isinstance(v, Dispatcher):
                        out[(name, k)] = v
        return out

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    workload()
            except BaseException:
                pass
            sigs = {k: list(d.signatures) for k, d in dispatchers().items() if d.signatures}
            data = pickle.dumps(sigs)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return
    ds = dispatchers()
    for k, sl in pickle.loads(data).items():
        for s in sl:
            try:
                ds[k].compile(s)
            except Exception:
                pass


def warm_torch():
    import torch
    import numpy as np
    net = torch.nn.Sequential(torch.nn.Linear(2, 4), torch.nn.Tanh(), torch.nn.Linear(4, 1))
    st = torch.random.get_rng_state()
    for cls in (torch.optim.Adam, torch.optim.LBFGS):
        opt = cls(net.parameters())

        def closure():
            opt.zero_grad()
            loss = (net(torch.ones(3, 2)) ** 2).mean()
            loss.backward()
            return loss
        opt.step(closure)
    torch.random.set_rng_state(st)
    np.linalg.svd(np.eye(3))


def warm_mpl():
    """First-use caches of the drawing library (fonts, mathtext), without pyplot state."""
    import io
    import matplotlib
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    with matplotlib.rc_context():
        fig = Figure(figsize=(2, 2))
        FigureCanvasAgg(fig)
        ax = fig.add_subplot()
        ax.plot([1, 2], [3, 4], label="a")
        ax.set_title(r"$u_t = \frac{a}{b} u_{xx}$")
        ax.legend()
        fig.savefig(io.BytesIO(), dpi=30)


def small_pictures(dpi=30):
    """Draw every picture at a low resolution (cost only)."""
    from matplotlib.figure import Figure
    real = Figure.savefig

    def savefig(self, *a, **k):
        k["dpi"] = dpi
        return real(self, *a, **k)
    Figure.savefig = savefig


BASE_MODULES = ["kd", "kd.model", "kd.viz", "kd.dataset", "kd.runner", "kd.job", "torch._dynamo",
                "kd.model.kd_sga", "kd.model.kd_dlga", "kd.model.kd_discover",
                "kd.model.kd_discover_regression", "kd.model.kd_eqgpt", "kd.model.sga.adapter",
                "kd.model.discover.adapter"]


def few_collocations(n=200):
    """The default number of collocation points (20000) only costs time in small runs."""
    import kd.data
    orig = kd.data.SparseData.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        self.colloc_num = n
    kd.data.SparseData.__init__ = init


def standard_prepare(models=("discover", "regression", "spr")):
    from . import work
    import random

    def load():
        for m in models:
            for i in range(3):
                f = work.gen_fit(random.Random(i), [m])
                if m == "discover" and i == 2:
                    f["ds"] = {"nd": 2, "nx": 8, "nt": 8, "seed": 1}
                    f["ops"] = None
                try:
                    work.fit_record(f)
                except Exception:
                    pass
    here = os.getcwd()
    if "spr" in models:
        few_collocations()
    warm_torch()
    warm_mpl()
    warm_numba(load)
    os.chdir(here)
