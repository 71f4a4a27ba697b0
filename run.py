#!/usr/bin/env python3-vt
"""Runs the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE] [--case SUBSTR]"""
import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pkgutil
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")


import logging
logging.disable(logging.CRITICAL)


def load_checks():
    import checks
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module("checks." + m.name)


def instrument():
    """Record which functions of the analysed code ran (sys.monitoring, one event per function)."""
    from engine import loader
    seen = set()
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "verif")
    except ValueError:
        return seen

    def start(code, off):
        if code.co_filename.startswith(loader.REPO_TAG) and code.co_name != "<module>":
            seen.add("%s:%s" % (code.co_filename[len(loader.REPO_TAG):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def run_instance(job):
    prop, label, cname, params, after, budget, seed = job
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(2500)
    import numpy
    numpy.seterr(all="ignore")
    import z3
    z3.set_param("smt.random_seed", seed)
    from engine import ctx, registry, loader
    c = registry.find(prop, cname)
    seen = instrument()
    k = ctx.Case(prop, label, c["fn"], params, budget, [(registry.find(prop, n)["fn"], p, v) for n, p, v in after])
    err = None
    try:
        k.run()
    except MemoryError:
        k.completed = False
        k.inconclusive.append(("memory", "out of memory"))
        k.wall = 0.0
    except BaseException as e:
        err = traceback.format_exc()
        k.wall = 0.0
    return dict(label=label, case=cname, params=params, after=after, stats=k.stats.__dict__,
                confirmed={l: v.as_dict() for l, v in k.confirmed.items()},
                raw={l: dict(inputs=v.inputs, choices=v.choices) for l, v in k.confirmed.items()},
                inconclusive=k.inconclusive[:20], n_inconclusive=len(k.inconclusive), notes=list(k.notes),
                labels=k.labels, samples=k.samples, completed=k.completed, wall=k.wall, err=err,
                functions=sorted(seen), sources=sorted(loader.sources_used))


def loader_preload():
    """Translate the common modules once, before the worker processes are forked."""
    from engine import loader
    for m in ("config", "parameter", "scale", "shift", "smear", "spectra"):
        p = loader.find("echidna.core." + m)[0]
        if p:
            try:
                loader.code_for(p)
            except SyntaxError:
                pass


def child(job, conn):
    try:
        conn.send(run_instance(job))
    except BaseException:
        conn.send(dict(crash=traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def schedule(jobs, n, deadline):
    """Run jobs in at most n processes, each with a hard time limit; a dead worker is an error."""
    todo, live, results, errors = list(jobs), [], [], []
    while todo or live:
        while todo and len(live) < n and time.time() < deadline:
            j = todo.pop(0)
            rx, tx = multiprocessing.Pipe(False)
            p = multiprocessing.Process(target=child, args=(j, tx))
            p.start()
            tx.close()
            live.append((j, p, rx, time.time()))
        if todo and time.time() >= deadline:
            errors += [(j[1], "not started: time limit of the check") for j in todo]
            todo = []
        multiprocessing.connection.wait([l[2] for l in live], timeout=1.0)
        keep = []
        for j, p, rx, st in live:
            done = None
            if rx.poll():
                try:
                    done = rx.recv()
                except EOFError:
                    done = dict(crash="worker died (exit code %s)" % p.exitcode)
            elif not p.is_alive():
                done = dict(crash="worker died (exit code %s)" % p.exitcode)
            elif time.time() - st > j[5] * 1.5 + 30 or time.time() > deadline + 20:
                p.kill()
                done = dict(crash="hard time limit")
            if done is None:
                keep.append((j, p, rx, st))
                continue
            p.join(5)
            if "crash" in done:
                errors.append((j[1], done["crash"].strip().splitlines()[-1]))
            else:
                results.append(done)
        live = keep
    return results, errors


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.=-]+", "_", s)[:80]


def known_findings():
    """{(property, case, check label)} of recorded findings."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) case=(\S+) check=\"([^\"]+)\" (.*)", line)
            if m:
                out[(m.group(1), m.group(2), m.group(3))] = m.group(4).strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    load_checks()
    from engine import registry
    if a.replay:
        return replay(a)
    t0 = time.time()
    inst = registry.instances(a.prop, a.tier)
    if a.case:
        inst = [i for i in inst if a.case in i[0]]
    if not inst:
        print("no harness for", a.prop)
        return 2
    total = 780.0 if a.tier == "quick" else 3000.0
    jobs = [(a.prop, lab, c["name"], p, after, c["budget"] if a.tier == "quick" else c["tbudget"], seed)
            for lab, c, p, after in inst]
    jobs.sort(key=lambda j: -j[5])
    results, errors = [], []
    loader_preload()
    if a.jobs == 1:
        results = [run_instance(j) for j in jobs]
    else:
        results, errors = schedule(jobs, a.jobs, t0 + total)
    return report(a, seed, results, errors, jobs, time.time() - t0)


def report(a, seed, results, errors, jobs, wall):
    known = known_findings()
    from engine.path import Stats
    tot = Stats()
    functions, sources, samples, notes, incon, viol, cases = set(), set(), [], set(), [], [], []
    hit_known = {}
    for r in sorted(results, key=lambda r: r["label"]):
        s = Stats()
        s.__dict__.update(r["stats"])
        tot.add(s)
        functions.update(r["functions"])
        sources.update(r["sources"])
        notes.update(r["notes"])
        for x in r["samples"][:1]:
            samples.append(dict(case=r["label"], **x))
        if r["err"]:
            errors.append((r["label"], r["err"].strip().splitlines()[-1]))
            if a.v:
                print(r["err"])
        if not r["completed"] and not r["err"]:
            incon.append((r["label"], "budget", "not all paths explored within %.0f s" % r["wall"]))
        if s.obligations == 0 and r["completed"] and not r["confirmed"] and not r["err"]:
            incon.append((r["label"], "vacuous", "no path reached an obligation"))
        for l, w in r["inconclusive"]:
            incon.append((r["label"], l, w))
        for l, v in r["confirmed"].items():
            k = (a.prop, r["case"], l)
            if k in known:
                hit_known[k] = known[k]
            else:
                viol.append((r, l, v))
        cases.append(dict(case=r["label"], paths=s.paths, obligations=s.obligations, discharged=s.discharged,
                          queries=s.queries, solver_s=round(s.solver_time, 2), complete=r["completed"],
                          wall_s=round(r["wall"], 2)))
        if a.v:
            print("  %-60s paths=%d infeas=%d obl=%d disch=%d q=%d solver=%.1fs wall=%.1fs replays=%d/%d %s" % (
                r["label"], s.paths, s.infeasible, s.obligations, s.discharged, s.queries, s.solver_time,
                r["wall"], s.replay_agree, s.replays, "" if r["completed"] else "INCOMPLETE"))
    # evidence
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level="model_checking", wall_s=round(wall, 2),
              violations=len(viol),
              assumptions=ASSUMPTIONS,
              coverage=dict(states=tot.paths, transitions=tot.decisions,
                            traces_validated_against_impl=tot.replay_agree,
                            samples=samples[:12], forks=tot.forks, obligations=tot.obligations,
                            discharged=tot.discharged, discharged_by_simplification=tot.trivial,
                            undecided=tot.obligations - tot.discharged,
                            queries=tot.queries, branch_queries=tot.branch_queries,
                            solver_time_s=round(tot.solver_time, 2), replays=tot.replays,
                            refinements=tot.refinements, functions_encoded=sorted(functions),
                            sources=sorted(sources), bounds=[j[1] for j in jobs], cases=cases,
                            inconclusive=["%s: %s: %s" % x for x in incon][:60] +
                                         ["%s: error: %s" % x for x in errors],
                            known_findings=["%s/%s: %s" % (k[1], k[2], d) for k, d in hit_known.items()],
                            notes=sorted(notes),
                            explanation="states = feasible symbolic paths explored to their end, transitions = "
                                        "symbolic branch decisions, traces = solver models of explored paths "
                                        "re-run on the real code with concrete floats and agreeing"))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k, d in sorted(hit_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, d))
    for x in incon[:30]:
        print("INCONCLUSIVE %s: %s: %s" % x)
    for x in errors:
        print("ERROR %s: %s" % x)
    if viol:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        for r, l, v in viol[:10]:
            p = os.path.join(rd, "%s_%s_%s.json" % (a.prop, slug(r["label"]), slug(l)))
            with open(p, "w") as fh:
                json.dump(dict(property=a.prop, case=r["case"], params=r["params"], after=r["after"], label=l, detail=v["detail"],
                               inputs=r["raw"][l]["inputs"], choices=r["raw"][l]["choices"]), fh, indent=1,
                          default=repr)
            print("  %s: check \"%s\" fails (%s)" % (r["label"], l, v["detail"]))
            print(("  inputs %s" % v["inputs"])[:600], "choices %s" % v["choices"])
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
        return 1
    print("%s: held on %d paths, %d/%d obligations discharged, %d queries, %.1f s solver, %.1f s%s" % (
        a.prop, tot.paths, tot.discharged, tot.obligations, tot.queries, tot.solver_time, wall,
        ", %d inconclusive" % (len(incon) + len(errors)) if incon or errors else ""))
    return 0


def replay(a):
    from engine import ctx, registry
    d = json.load(open(a.replay))
    c = registry.find(d["property"], d["case"])
    k = ctx.Case(d["property"], d["case"], c["fn"], d["params"], 60,
                 [(registry.find(d["property"], n)["fn"], p, v) for n, p, v in d.get("after", [])])
    v = k.replay(d["inputs"], d["choices"], k.stats, want=d["label"])
    print("replay:", v.as_dict() if v else "no failure")
    return 1 if v else 0


ASSUMPTIONS = [
    "floating-point numbers are modelled as real numbers (rounding is outside the claim); every reported "
    "counterexample is confirmed on the real code with floats",
    "Python 3 semantics: the sources are translated from Python 2 syntax in memory with lib2to3 (no Python 2 "
    "interpreter exists here), true division",
    "numpy on object arrays through engine/npshim.py; each path's solver model is re-run on real numpy (traces)",
    "claims hold within the stated sizes (bounds) only",
]

if __name__ == "__main__":
    sys.exit(main())
