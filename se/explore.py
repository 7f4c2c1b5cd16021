"""Parallel exploration of a property's scenarios, evidence and replay files."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import sys
import time
import warnings

from . import terms as T
from .engine import ENG, Stats
from .harness import run_native, run_symbolic
from .instrument import Package
from .state import Snapshot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SE_REPO", "/repo")

warnings.simplefilter("ignore")


class World:
    """The instrumented and the native copy of the library and the harness."""

    def __init__(self, prop, symbolic=True):
        sys.setrecursionlimit(20000)
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        if VERIF not in sys.path:
            sys.path.insert(0, VERIF)
        sys.dont_write_bytecode = True
        self.native = importlib.import_module("jsonpath")
        assert self.native.__file__.startswith(REPO + "/"), self.native.__file__
        for sub in ("cli",):
            importlib.import_module("jsonpath." + sub)
        self.native_mods = {k: m for k, m in sys.modules.items() if k.split(".")[0] == "jsonpath"}
        self.native_checks = importlib.import_module("checks." + prop.lower())
        self.native_snap = Snapshot(self.native_mods.values(), "jsonpath")
        self.scen = {}
        if symbolic:
            self.pkg = Package({"jsonpath"}, REPO)
            self.sym = self.pkg.load("jsonpath")
            for k in self.native_mods:
                self.pkg.load(k)
            self.hpkg = Package({"checks", "ref"}, VERIF, [self.pkg])
            self.sym_checks = self.hpkg.load("checks." + prop.lower())
            self.sym_snap = Snapshot(self.pkg.modules.values(), "jsonpath")

    def scenarios(self, tier):
        out = {}
        for s in self.native_checks.SCENARIOS:
            if tier == "quick" and s.tier != "quick":
                continue
            out[s.name] = s
        return out

    def sym_fns(self):
        return {s.name: s.fn for s in self.sym_checks.SCENARIOS}


class CodeProfile:
    """Which functions of the package ran symbolically."""

    def __init__(self, root):
        self.root = root
        self.hit = set()
        self.lines = {}

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(self.root):
                self.hit.add((os.path.relpath(co.co_filename, self.root), co.co_qualname))


def worker(wid, prop, tier, seed, tasks, results, pending, hungry, stop, deadline, slice_s, verbose):
    try:
        _worker(wid, prop, tier, seed, tasks, results, pending, hungry, stop, deadline, slice_s, verbose)
    except BaseException as e:  # report instead of dying silently
        import traceback

        results.put(("crash", wid, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))


def _worker(wid, prop, tier, seed, tasks, results, pending, hungry, stop, deadline, slice_s, verbose):
    import gc

    gc.freeze()
    w = WORLD
    names = list(w.scenarios(tier))
    scen = w.scenarios(tier)
    symfn = w.sym_fns()
    rnd = random.Random(seed * 1000 + wid)
    prof = CodeProfile(REPO + "/jsonpath")
    per = {}
    profiled = {}

    def info(name):
        r = per.get(name)
        if r is None:
            r = per[name] = {"paths": 0, "ok": 0, "infeasible": 0, "cut": 0, "exc": 0, "failed": 0,
                             "decisions": 0, "maxdec": 0, "replays": 0, "mismatch": 0, "left": 0,
                             "spurious": 0, "time": 0.0, "samples": [], "cutreasons": {}, "errors": []}
        return r

    idle = False
    while True:
        if stop.value:
            break
        try:
            task = tasks.get(timeout=0.05)
        except queue.Empty:
            if not idle:
                idle = True
                with hungry.get_lock():
                    hungry.value += 1
            if pending.value == 0 or time.time() > deadline:
                break
            continue
        if idle:
            idle = False
            with hungry.get_lock():
                hungry.value -= 1
        name, stack = task
        inf = info(name)
        fn = symfn[name]
        t_slice = time.time()
        while stack:
            now = time.time()
            if now > deadline or stop.value:
                inf["left"] += len(stack)
                stack = []
                break
            if now - t_slice > slice_s:
                with pending.get_lock():
                    pending.value += 1
                tasks.put((name, stack))
                stack = None
                break
            if hungry.value > 0 and len(stack) > 1:
                k = len(stack) // 2
                give, stack = stack[:k], stack[k:]
                with pending.get_lock():
                    pending.value += 1
                tasks.put((name, give))
            if len(stack) > 1 and len(stack) < 20000 and rnd.random() < 0.35:
                i = rnd.randrange(len(stack))
                stack[i], stack[-1] = stack[-1], stack[i]
            prefix, model = stack.pop()
            k = profiled.get(name, 0)
            if k < 6 or (k < 60 and rnd.random() < 0.05):
                profiled[name] = k + 1
                sys.setprofile(prof)
                try:
                    r = run_symbolic(fn, w.sym, prefix, model, w.sym_snap)
                finally:
                    sys.setprofile(None)
            else:
                r = run_symbolic(fn, w.sym, prefix, model, w.sym_snap)
            stack.extend(r.new)
            inf["paths"] += 1
            inf[r.status] = inf.get(r.status, 0) + 1
            inf["decisions"] += r.ndec
            inf["maxdec"] = max(inf["maxdec"], r.ndec)
            if r.status == "cut":
                inf["cutreasons"][r.error] = inf["cutreasons"].get(r.error, 0) + 1
            if T.intern_size() > 400000:
                T.reset_intern()
            if r.status == "infeasible":
                continue
            # validate the path's witness on the native package
            st, lab, inputs = run_native(scen[name].fn, w.native, r.model, w.native_snap)
            inf["replays"] += 1
            confirmed = False
            if st == "violation" and r.status != "failed":
                results.put(("viol", name, lab, r.model, inputs, "witness"))
                confirmed = True
            for label, m in r.failures:
                st2, lab2, inputs2 = run_native(scen[name].fn, w.native, m, w.native_snap)
                inf["replays"] += 1
                if st2 == "violation":
                    results.put(("viol", name, lab2, m, inputs2, "solver"))
                    confirmed = True
                else:
                    inf["spurious"] += 1
                    if len(inf["errors"]) < 8:
                        inf["errors"].append(["spurious", label, inputs2, str(st2)])
            if r.status == "exc" and not confirmed:
                inf["mismatch"] += 1
                if len(inf["errors"]) < 8:
                    inf["errors"].append(["exc", r.error, inputs])
            elif r.status == "ok" and st == "ok" and lab != r.out and r.out[:1] != ["untraceable"]:
                inf["mismatch"] += 1
                if len(inf["errors"]) < 8:
                    inf["errors"].append(["trace", inputs, str(r.out)[:300], str(lab)[:300]])
            elif r.status == "ok" and st == "discard":
                inf["mismatch"] += 1
                if len(inf["errors"]) < 8:
                    inf["errors"].append(["discard", inputs])
            if r.status == "ok" and (len(inf["samples"]) < 2 or (len(inf["samples"]) < 4 and r.ndec > inf["maxdec"] * 0.8)):
                inf["samples"].append({"scenario": name, "decisions": r.ndec, "witness": inputs,
                                       "observed": str(r.out)[:200]})
        if stack is not None:
            inf["time"] += time.time() - t_slice
        else:
            inf["time"] += slice_s
        with pending.get_lock():
            pending.value -= 1
    results.put(("done", wid, per, ENG.stats.as_dict(), sorted(prof.hit)))


WORLD = None


def explore(prop, tier, seed, budget, jobs=None, only=None, verbose=False, stop_on_violation=True):
    global WORLD
    WORLD = World(prop)
    scen = WORLD.scenarios(tier)
    if only:
        scen = {k: v for k, v in scen.items() if any(o in k for o in only)}
    ctx = mp.get_context("fork")
    jobs = jobs or min(8, os.cpu_count() or 1)
    tasks = ctx.Queue()
    results = ctx.Queue()
    pending = ctx.Value("i", 0)
    hungry = ctx.Value("i", 0)
    stop = ctx.Value("i", 0)
    t0 = time.time()
    deadline = t0 + budget
    for name in scen:
        pending.value += 1
        tasks.put((name, [((), {})]))
    slice_s = 2.0 if budget < 200 else 5.0
    procs = [ctx.Process(target=worker, args=(i, prop, tier, seed, tasks, results, pending, hungry, stop,
                                              deadline, slice_s, verbose), daemon=True) for i in range(jobs)]
    for p in procs:
        p.start()
    done = 0
    viols = []
    per = {}
    stats = Stats()
    hit = set()
    crashes = []
    seenv = {}
    hard = deadline + 60
    while done < len(procs):
        try:
            msg = results.get(timeout=1.0)
        except queue.Empty:
            if time.time() > hard:
                crashes.append("workers did not stop in time")
                break
            if not any(p.is_alive() for p in procs):
                break
            continue
        if msg[0] == "viol":
            _, name, lab, model, inputs, how = msg
            key = (name, (lab or "")[:60])
            seenv[key] = seenv.get(key, 0) + 1
            if seenv[key] <= 3:
                v = {"property": prop, "scenario": name, "label": lab, "model": model, "inputs": inputs, "how": how}
                viols.append(v)
                if stop_on_violation and not is_known(v):
                    if confirm(v):
                        v["confirmed"] = True
                        stop.value = 1
        elif msg[0] == "done":
            done += 1
            _, wid, p, st, h = msg
            stats.merge(st)
            hit.update(map(tuple, h))
            for name, d in p.items():
                if name not in per:
                    per[name] = d
                else:
                    q = per[name]
                    for k, v in d.items():
                        if k in ("samples", "errors"):
                            q[k] = (q[k] + v)[:8]
                        elif k == "cutreasons":
                            for a, b in v.items():
                                q[k][a] = q[k].get(a, 0) + b
                        elif k == "maxdec":
                            q[k] = max(q[k], v)
                        else:
                            q[k] = q.get(k, 0) + v
        else:
            crashes.append(msg[2])
            done += 1
    # whatever is still queued was not explored
    try:
        while True:
            name, stack = tasks.get(timeout=0.2)
            if name in per:
                per[name]["left"] += len(stack)
            else:
                per[name] = {"paths": 0, "left": len(stack), "samples": [], "errors": [], "cutreasons": {}}
    except queue.Empty:
        pass
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.terminate()
    return {"scenarios": per, "stats": stats, "violations": viols, "crashes": crashes,
            "functions": sorted(hit), "wall": time.time() - t0, "seenv": seenv,
            "specs": {k: scen[k] for k in scen}, "tier": tier}


# ---------------------------------------------------------------- known findings


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def is_known(v):
    """A violation listed in known_findings.json: same property, same scenario
    and the recorded failing input."""
    for k in known_findings():
        if k.get("status") != "known" or k["property"] != v["property"]:
            continue
        if v["scenario"] == k.get("scenario") and (v["label"] or "").startswith(k.get("label", "\0")):
            return k
    return None


def confirm(v):
    """Reproduce in a fresh, uninstrumented process."""
    import subprocess
    import tempfile

    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(v, f)
        path = f.name
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "replay", path],
                           capture_output=True, text=True, timeout=120)
        return r.returncode == 1
    except subprocess.TimeoutExpired:
        return False
    finally:
        os.unlink(path)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    w = World(v["property"], symbolic=False)
    fn = {s.name: s.fn for s in w.native_checks.SCENARIOS}[v["scenario"]]
    st, lab, inputs = run_native(fn, w.native, v["model"], w.native_snap)
    print(json.dumps({"status": st, "detail": lab, "inputs": inputs}, indent=1, default=str))
    return 1 if st == "violation" else 0
