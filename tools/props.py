"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []          # properties
C = {}          # id -> (technique, level, note)
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, technique=None, level="exploration", note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
    C[id] = (technique, level, note)


def na(id, reason):
    NA.append({"property": id, "reason": reason})


D = "kd/model/kd_discover.py"
TRUST = ("Seeded sampling, not proof. Trusts numpy/torch/scipy run single-threaded, the stubs named in the evidence "
         "file and the oracle code in dst/scen.")

prop("C01", "A seed fixes the result, whatever ran before in the process",
     "Fitting an SGA or Discover (grid, sparse or symbolic-regression) estimator built with a given seed on given data "
     "yields exactly the same equation, coefficients, score and training history every time. "
     "Nothing outside the seed, the arguments and the data matters: earlier, failed or interrupted fits in the process, the state of "
     "the global random generators, the hash seed, the wall clock, or floating-point faults raised earlier. "
     "DLGA, which has no seed of its own, is equally repeatable from a given state of the global generators.",
     ["histories", "schedules"],
     "Every sequence of earlier work in the same process (other estimators, failed fits, generator draws, clock jumps), "
     "every hash seed and every thread the fit may run in.",
     "Tests fit once in a fresh process, or compare two fits with identical history; they sample no process history.",
     ["kd/model/kd_sga.py", "kd/model/sga/**", D, "kd/model/discover/**", "kd/model/kd_dlga.py", "kd/base.py"],
     [("seeding on setup", D + " setup/set_seeds"), ("SGA seeding", "kd/model/kd_sga.py fit"),
      ("program cache reset", "kd/model/discover/program.py clear_cache"),
      ("per-dataset RandomState", "kd/model/discover/adapter.py _split_and_collocate")],
     observe=["return value of fit", "fitted attributes"],
     technique="deterministic simulation: seeded process histories vs. a fresh process", note=TRUST)

prop("C02", "A failed or interrupted fit leaves the estimator reusable",
     "When a fit ends early (an interrupt, an exhausted memory, a failing file operation or any other error at any point), "
     "or completes on other data, fitting the same estimator instance again gives exactly the result, and writes the same "
     "output files, as a never-used instance with the same settings. "
     "DLGA, whose network keeps training across fits, gives the result of a never-used instance that starts from the same weights.",
     ["crash_points", "fault_sequences", "histories"],
     "Every point of an earlier fit at which it may be cut short, every failing file operation, every number of earlier fits.",
     "No test fails a fit midway; refit tests are few and only check that a result exists.",
     [D, "kd/model/discover/**", "kd/model/kd_sga.py", "kd/model/sga/**", "kd/model/kd_dlga.py", "kd/model/dlga.py",
      "kd/model/discover_regression.py"],
     [("setup rebuilds task, prior, controller, searcher", D + " setup"),
      ("configuration snapshot reset", D + " _auto_select_function_set, _inject_nd_config"),
      ("histories reset", "kd/model/dlga.py _reset_histories")],
     observe=["return value of fit", "files under the output directory"],
     technique="deterministic simulation: faults at seeded execution points, then refit vs. fresh instance", note=TRUST)


exec(open(os.path.join(ROOT, "tools", "props_more.py")).read())

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    T = {p["id"]: p["title"] for p in P}
    napp = {n["property"] for n in NA}
    for p in P:
        i = p["id"]
        if i in napp:
            continue
        t, lv, note = C[i]
        checks.append({"property": i, "quick_cmd": "%s check.py %s" % (PY, i),
                       "thorough_cmd": "%s check.py %s --tier thorough" % (PY, i),
                       "technique": t, "level": lv, "level_note": note, "evidence_file": "evidence/%s.json" % i})
    m = {"version": 1, "setup_cmd": PY + " tools/setup.py",
         "hooks": {"guard": "none", "enable": "no hooks: every seam (file system, clock, random generators, executed lines, "
                   "locks, SDK client, processes) is taken from outside the repository", "source_commits": []},
         "checks": checks, "not_applicable": NA,
         "notes": "See DESIGN.md. known_findings.jsonl lists repaired defects and known findings."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    d = open(os.path.join(ROOT, "DESIGN.md")).read()
    rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        j = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (b, j["property"], j["needs"], j.get("caught_by", j["property"])))
    for tag, lines in (("seeds", rows), ("na", ["* **%s** %s: %s" % (n["property"], T[n["property"]], n["reason"]) for n in NA])):
        a, b = "<!-- %s -->\n" % tag, "<!-- /%s -->\n" % tag
        i, k = d.index(a) + len(a), d.index(b)
        d = d[:i] + "".join(x + "\n" for x in lines) + d[k:]
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(d)
    print(len(P), "properties", len(checks), "checks", len(NA), "not applicable")
