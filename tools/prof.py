"""Profile one plan of a scenario in-process: prof.py C10 IDX [seed]."""
import cProfile, importlib, json, os, pstats, random, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import boot, sim as S
prop, n = sys.argv[1], int(sys.argv[2])
base = tempfile.mkdtemp()
os.environ.update(boot.child_env(0, base))
scen = importlib.import_module("dst.scen." + prop.lower())
os.chdir(base)
boot.import_target(scen.MODULES)
scen.prepare(base)
out = os.fdopen(os.dup(1), "w")
dn = os.open(os.devnull, os.O_RDWR)
os.dup2(dn, 1)
for idx in range(n):
    plan = scen.gen(random.Random("%s:1:%d" % (prop, idx)), idx, "quick")
    sc = tempfile.mkdtemp(dir=base)
    pid = os.fork()
    if pid == 0:
        os.chdir(sc)
        if os.environ.get("PROF"):
            pr = cProfile.Profile()
            orig = S.Sim.incarnation
            def inc(self, fn, label="p", keep_faults=True):
                def g():
                    p2 = cProfile.Profile()
                    try:
                        return p2.runcall(fn)
                    finally:
                        pstats.Stats(p2, stream=out).sort_stats("cumtime").print_stats(28)
                        out.flush()
                return orig(self, g, label, keep_faults)
            S.Sim.incarnation = inc
        s = S.Sim(plan, sc)
        t = time.time()
        scen.run(plan, s)
        out.write("%d %.2fs steps %d faults %s viol %s\n" % (idx, time.time() - t, s.stats["steps"], s.stats["faults"], s.violations[:1]))
        out.flush()
        os._exit(0)
    os.waitpid(pid, 0)
