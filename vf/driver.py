"""Runs the check of one property: proof units, native validation, evidence."""
import glob
import importlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from . import ast
from .ast import REPO, Unsupported, ExtractionError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
CXX = ["g++", "-DEIGEN_HAS_CXX17_OVERALIGN=0", "-DENABLE_PROFILING",
       '-D_PROF_LOG_DIR_=".static_mapping_log"', "-DNDEBUG", "-std=gnu++14", "-fopenmp", "-O1",
       "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/third_parties", "-I" + REPO + "/.", "-I" + REPO + "/builder",
       "-I" + VERIF + "/native", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/pcl-1.14",
       "-isystem", "/usr/include/vtk-9.1", "-w"]
LIBS = ["-lpcl_common", "-lpcl_io", "-lpcl_kdtree", "-lpcl_search", "-lpcl_filters", "-lpcl_segmentation",
        "-lpcl_sample_consensus", "-lpcl_octree", "-lglog", "-lboost_system", "-lboost_filesystem",
        "-lboost_thread", "-ltbb", "-lGeographic", "-lgtsam", "-lpng", "-lpthread", "-fopenmp"]
LIBS[LIBS.index("-lGeographic")] = "/usr/lib/x86_64-linux-gnu/libGeographicLib.so"

CLOUD_LIBS = ["-lglog", "-lpcl_io", "-lpcl_common", "-lboost_filesystem", "-lboost_thread", "-lboost_system", "-lpng",
              "-lpthread"]

class Property:
    """What a props module declares."""

    def __init__(self, pid, title=""):
        self.id = pid
        self.units = []          # (name, files, fn, bounded)
        self.modes = {}
        self.native = []         # dicts
        self.notes = []
        self.assumptions = []

    def proof(self, name, files, bounded=None, modes=None):
        """modes: arithmetics tried in turn (as ctx.fp) until one discharges
        every obligation; the evidence names the one that did."""
        def deco(fn):
            self.units.append((name, tuple(files), fn, bounded))
            self.modes[name] = modes
            return fn
        return deco

    def harness(self, src, repo, libs=None, args=(), time=8, cflags=()):
        files = []
        for r in repo:
            files.extend(sorted(os.path.relpath(f, REPO) for f in glob.glob(os.path.join(REPO, r))) if "*" in r else [r])
        self.native.append({"src": src, "repo": list(dict.fromkeys(files)), "libs": libs, "args": list(args), "time": time,
                            "cflags": list(cflags)})


def discharged(u):
    return u["status"] == "ok" and all(o["status"] in ("proved", None) for o in u["obls"])


def run_unit(pid, i, patience):
    """Tries the arithmetics of the unit in turn."""
    from .engine import Exec
    Exec.patience = patience
    mod = load(pid)
    first, t0 = None, time.time()
    for fp in mod.P.modes[mod.P.units[i][0]] or (None,):
        out = run_mode(mod, i, fp)
        if first is not None:
            out["timeouts"] += first["timeouts"]
        if discharged(out):
            break
        first = first or out
    else:
        out = first
    out["wall"] = time.time() - t0
    return out


def run_mode(mod, i, fp):
    name, files, fn, bounded = mod.P.units[i]
    out = {"unit": name, "files": list(files), "obls": [], "functions": [], "assumed": [], "notes": [],
           "loops": [], "literals": [], "hints": [], "solver_time": 0, "queries": 0, "status": "ok",
           "timeouts": 0, "bounded": bounded}
    from .spec import Ctx
    ctx = Ctx(name, files, os.environ.get("VERIF_TIER", "quick"))
    ctx.fp = fp
    try:
        fn(ctx)
        ctx.finish()
    except Unsupported as e:
        out["status"] = "unsupported"
        out["message"] = str(e)
    except ExtractionError as e:
        out["status"] = "extraction"
        out["message"] = str(e)
    except Exception as e:
        out["status"] = "unsupported"
        out["message"] = "internal: %s\n%s" % (e, traceback.format_exc()[-1500:])
    for ex in ctx.execs:
        for o in ex.obls:
            out["obls"].append({"name": o.name, "kind": o.kind, "status": o.status, "time": round(o.time, 3),
                                "by": "ring normalisation" if o.reason == "ring" else
                                ("simplifier" if o.time == 0 else "z3"), "where": o.where})
            if o.status == "refuted" and o.model is not None:
                out["hints"].extend(model_values(o.model))
        out["functions"].extend(sorted(ex.functions))
        out["assumed"].extend(sorted(ex.assumed))
        out["notes"].extend(sorted(ex.notes))
        out["loops"].extend(ex.loopinfo)
        out["literals"].extend([x for x in ex.literals])
        out["solver_time"] += ex.solver_time
        out["queries"] += ex.queries
        out["timeouts"] += ex.timeouts
    if out["status"] == "unsupported" and any(o["status"] not in ("proved", None) for o in out["obls"]):
        pass
    out["notes"].extend(ctx.notes)
    out["assumed"].extend(ctx.assumptions)
    return out


def model_values(m):
    import z3
    out = []
    for d in m.decls()[:400]:
        v = m[d]
        try:
            if z3.is_int_value(v):
                out.append(float(v.as_long()) if abs(v.as_long()) > 2 ** 62 else v.as_long())
            elif z3.is_rational_value(v):
                out.append(float(v.as_fraction()))
        except Exception:
            pass
    return out[:200]


def run_group(pid, idx, q, limit, patience):
    """Units over the same sources: extract once, then one process each."""
    mod = load(pid)
    try:
        for f in mod.P.units[idx[0]][1]:
            ast.load(f)
    except Exception:
        pass                     # reported by the units themselves

    def one(i):
        try:
            q.put((i, run_unit(pid, i, patience)))
        except Exception as e:
            q.put((i, None))
    ps = []
    for i in idx:
        p = mp.get_context("fork").Process(target=one, args=(i,))
        p.start()
        ps.append(p)
    for p in ps:
        p.join(max(1, limit - time.time()))
        if p.is_alive():
            p.kill()
    os._exit(0)


def run_units(P, pid, limit, todo=None, patience=1):
    ctx = mp.get_context("fork")
    groups = {}
    todo = range(len(P.units)) if todo is None else todo
    for i in todo:
        groups.setdefault(P.units[i][1], []).append(i)
    q = ctx.Queue()
    ps = []
    for g in groups.values():
        p = ctx.Process(target=run_group, args=(pid, g, q, limit, patience))
        p.start()
        ps.append(p)
    res = {}
    while len(res) < len(todo) and time.time() < limit + 5:
        try:
            i, r = q.get(timeout=1)
            res[i] = r
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        if p.is_alive():
            p.kill()
    out = []
    for i in todo:
        u, r = P.units[i], res.get(i)
        if r is None:
            r = {"unit": u[0], "files": list(u[1]), "obls": [], "functions": [], "assumed": [], "notes": [],
                 "loops": [], "literals": [], "hints": [], "solver_time": 0, "queries": 0, "status": "unsupported",
                 "message": "verifier time limit", "wall": 0, "timeouts": 0, "bounded": None}
        out.append(r)
    return out


def load(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module("props." + pid)


class Native:
    """Compiles and runs the native validation harnesses of a property."""

    def __init__(self, prop, scratch, tier, seed):
        self.prop, self.scratch, self.tier, self.seed = prop, scratch, tier, seed
        self.exes = []
        self.error = None
        self.repo_error = None
        self.thread = threading.Thread(target=self.build)

    def build(self):
        try:
            jobs = {}
            for h in self.prop.native:
                for s in h["repo"]:
                    src = s if s.startswith("/") else os.path.join(REPO, s)
                    jobs.setdefault((src, tuple(h["cflags"])), True)
                jobs.setdefault((os.path.join(VERIF, "native", h["src"]), tuple(h["cflags"])), False)
            objs = {}
            procs = []
            sem = threading.Semaphore(8)

            def one(i, key, isrepo):
                src, cf = key
                obj = os.path.join(self.scratch, "o%d.o" % i)
                with sem:
                    p = subprocess.run(CXX + list(cf) + ["-c", src, "-o", obj], stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    if isrepo:
                        self.repo_error = "%s does not compile:\n%s" % (src, p.stdout[-2000:])
                    else:
                        self.error = "%s does not compile:\n%s" % (src, p.stdout[-2000:])
                objs[key] = obj
            ts = []
            for i, (key, isrepo) in enumerate(jobs.items()):
                t = threading.Thread(target=one, args=(i, key, isrepo))
                t.start()
                ts.append(t)
            for t in ts:
                t.join()
            if self.error or self.repo_error:
                return
            for j, h in enumerate(self.prop.native):
                exe = os.path.join(self.scratch, "h%d" % j)
                cf = tuple(h["cflags"])
                os_ = [objs[(os.path.join(VERIF, "native", h["src"]), cf)]] + \
                    [objs[(s if s.startswith("/") else os.path.join(REPO, s), cf)] for s in h["repo"]]
                p = subprocess.run(["g++", "-fopenmp"] + list(cf) + os_ + ["-o", exe, "-Wl,--as-needed"] +
                                   (h["libs"] or LIBS), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    self.error = "link: " + p.stdout[-3000:]
                    return
                self.exes.append((h, exe))
        except Exception as e:
            self.error = "native build: %s" % e

    def run(self, dictionary):
        """Returns list of result dicts."""
        res = []
        dic = os.path.join(self.scratch, "dict.txt")
        with open(dic, "w") as f:
            for x in dictionary:
                f.write("%.17g\n" % x)
        work = os.path.join(self.scratch, "work")
        os.makedirs(work, exist_ok=True)
        procs = []
        for h, exe in self.exes:
            budget = h["time"] * (4 if self.tier == "thorough" else 1)
            env = dict(os.environ, VF_DICT=dic, VF_SEED=str(self.seed), VF_BUDGET=str(budget), GLOG_logtostderr="1",
                       GLOG_minloglevel="2", OMP_WAIT_POLICY="passive", VF_TIER=self.tier)
            w = os.path.join(work, str(len(procs)))
            os.makedirs(w, exist_ok=True)
            out = open(os.path.join(w, "stdout.txt"), "w+")
            err = open(os.path.join(w, "stderr.txt"), "w+")
            p = subprocess.Popen([exe] + h["args"], cwd=w, stdout=out, stderr=err, env=env)
            procs.append((h, exe, p, out, err, budget, time.time()))
        for h, exe, p, out, err, budget, t0 in procs:
            try:
                rc = p.wait(timeout=max(5, budget * 6 + 60 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -999
            out.seek(0)
            err.seek(0)
            txt = out.read()[-200000:]
            e = err.read()[-20000:]
            r = {"harness": h["src"], "rc": rc, "cases": 0, "mismatch": None, "stderr": e, "repo": h["repo"]}
            for line in txt.splitlines():
                if line.startswith("CASES "):
                    r["cases"] += int(line.split()[1])
                elif line.startswith("MISMATCH") and r["mismatch"] is None:
                    r["mismatch"] = line
                elif line.startswith("KNOWN "):
                    r.setdefault("known", []).append(line[6:])
            if rc == -999:
                # sanity bound of the harness, not of the code: only a hang of the
                # code under test can make a case run this long
                r["mismatch"] = r["mismatch"] or "MISMATCH harness did not finish: a call under test hangs"
            elif rc != 0 and "FATAL: ThreadSanitizer" in e:
                r["cases"] = 0    # the sanitizer cannot start here: no run, no verdict
            elif rc != 0 and r["mismatch"] is None:
                race = e.find("ThreadSanitizer: data race")
                if race >= 0:
                    txt += "\n" + " | ".join(x.strip() for x in e[race:].splitlines()[:12] if x.strip())
                r["mismatch"] = "MISMATCH harness ended with status %d; last output: %s" % (
                    rc, (txt.splitlines() or [""])[-1][:500])
            res.append(r)
        return res


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % pid):
                    out.append(line)
    except FileNotFoundError:
        pass
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    mod = load(pid)
    P = mod.P
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    rc = 2
    try:
        rc = _main(P, pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _main(P, pid, tier, seed, scratch, t0):
    nat = Native(P, scratch, tier, seed)
    nat.thread.start()
    ast.overlay()
    units = run_units(P, pid, t0 + 600)
    nat.thread.join()
    return judge(P, pid, tier, seed, t0, nat, units)


def dictionary(units):
    """Literals of the code under contract and counterexample values."""
    d = []
    for u in units:
        d.extend(u["hints"])
    for u in units:
        d.extend(float(x) for x in u["literals"] if isinstance(x, (int, float)) and abs(x) < 1e300)
    seen = []
    for x in d:
        if x not in seen:
            seen.append(x)
    return seen[:600]


def judge(P, pid, tier, seed, t0, nat, units, nres=None):
    failed, proved, total = [], 0, 0
    unsupported, extraction = [], []
    for u in units:
        bad = [o for o in u["obls"] if o["status"] not in ("proved", None)]
        total += len(u["obls"])
        proved += sum(1 for o in u["obls"] if o["status"] == "proved")
        if u["status"] == "extraction":
            extraction.append(u)
        elif u["status"] == "unsupported":
            unsupported.append(u)
        elif bad:
            failed.append((u, bad))
        elif not u["obls"]:
            unsupported.append(dict(u, message="no obligations generated"))
    if extraction or nat.repo_error:
        print("ERROR: %s" % (nat.repo_error or extraction[0]["message"]))
        return 3
    if nat.error:
        print("native harness unavailable: " + nat.error, file=sys.stderr)
    again = nres is not None
    if not again:
        nres = nat.run(dictionary(units)) if nat.exes else []
    mism = [r for r in nres if r["mismatch"]]
    # open obligations where the clock cut the solver off, and no failing
    # input: once more with longer limits, so that a busy machine does not decide
    late = [i for i, u in enumerate(units) if u["status"] == "ok" and not discharged(u) and u["timeouts"]]
    if late and not mism and not again:
        for i, u in zip(late, run_units(P, pid, min(t0 + 800, time.time() + 400), late, 6)):
            if u["status"] == "ok":
                units[i] = u
        return judge(P, pid, tier, seed, t0, nat, units, nres)
    replay = os.path.join(EVID, "replay-%s.txt" % pid)
    violation = None
    known = known_findings(pid)
    if failed or mism:
        with open(replay, "w") as f:
            f.write("property %s\n" % pid)
            for u, bad in failed:
                f.write("unit: %s (%s)\n" % (u["unit"], ", ".join(u["files"])))
                for o in bad:
                    f.write("  obligation not discharged [%s]: %s\n" % (o["status"], o["name"]))
                if u["hints"]:
                    f.write("  verifier model values: %s\n" % ", ".join(str(x) for x in u["hints"][:60]))
            for r in mism:
                f.write("native replay against %s:\n  %s\n" % (", ".join(r["repo"]), r["mismatch"]))
                if r["stderr"].strip():
                    f.write("  stderr: %s\n" % r["stderr"].strip()[-1500:].replace("\n", "\n    "))
        violation = "VIOLATION property=%s replay=%s" % (pid, replay)
        if not mism:
            violation += " no-failing-input-found"
    fns = sorted({f for u in units for f in u["functions"]})
    assumed = sorted({a for u in units for a in u["assumed"]} | set(P.assumptions))
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": total, "discharged": proved,
            "checker_cmd": "python3-vt check.py %s" % pid,
            "trusted_base": ["clang 18 AST extraction", "vf verification-condition generator", "z3"],
            "functions_under_contract": fns,
            "units": [{"unit": u["unit"], "files": u["files"], "status": u["status"],
                       "message": u.get("message", ""), "bounded": u["bounded"],
                       "obligations": len(u["obls"]),
                       "discharged": sum(1 for o in u["obls"] if o["status"] == "proved"),
                       "by_kind": by_kind(u["obls"]), "queries": u["queries"],
                       "solver_s": round(u["solver_time"], 2), "wall_s": round(u["wall"], 2),
                       "loops": [{"where": l["where"], "invariants": l["invariants"]} for l in u["loops"]]}
                      for u in units],
            "discharged_by": by_backend(units), "solver_s": round(sum(u["solver_time"] for u in units), 2),
            "bounded_stand_ins": [u["unit"] for u in unsupported] + [u["unit"] for u in units if u["bounded"]],
            "native_validation": [{"harness": r["harness"], "cases": r["cases"], "rc": r["rc"],
                                   "mismatch": r["mismatch"], "label": "bounded, not counted as proof"}
                                  for r in nres],
        },
        "assumptions": assumed + sorted({n for u in units for n in u["notes"]}),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if unsupported:
        ev["coverage"]["note"] = "units outside the verifier's dialect on this tree are answered by the bounded " \
                                 "native stand-in only"
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in units:
        print("%-60s %-11s %d/%d obligations, %.1fs (solver %.1fs)" % (
            u["unit"][:60], u["status"], sum(1 for o in u["obls"] if o["status"] == "proved"), len(u["obls"]),
            u["wall"], u["solver_time"]))
        if u.get("message"):
            print("   " + (u["message"] if "-v" in sys.argv else u["message"].strip().splitlines()[-1][:300]))
            print("   " + u["message"].strip().splitlines()[0][:300])
        for o in u["obls"]:
            if o["status"] not in ("proved", None):
                print("   NOT DISCHARGED [%s] %s" % (o["status"], o["name"]))
    for r in nres:
        print("native %s: %d cases, status %d %s" % (r["harness"], r["cases"], r["rc"], r["mismatch"] or ""))
    for k in known:
        print(k)
    if violation:
        print(violation)
        return 1
    if unsupported and not nres and nat.error:
        print("ERROR: neither the verifier nor the stand-in gives an answer: " + unsupported[0].get("message", ""))
        return 3
    if not P.units and not nres:
        return 3
    return 0


def by_kind(obls):
    d = {}
    for o in obls:
        d[o["kind"]] = d.get(o["kind"], 0) + 1
    return d


def by_backend(units):
    d = {}
    for u in units:
        for o in u["obls"]:
            if o["status"] == "proved":
                d[o["by"]] = d.get(o["by"], 0) + 1
    return d
