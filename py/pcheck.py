"""Check driver for the Python properties: runs harness jobs in parallel symbolic workers, replays every
counterexample (and samples of the good paths) on the real modules, writes evidence, decides the exit code."""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "lib"))
from cb import is_known, load_known
NATIVE = "/opt/horus-venv/bin/python"
SYM = "/opt/veriftools/pyvenv/bin/python"


class PJob:
    def __init__(self, name, harness, func, params=None, budget=None, max_paths=20000, bounds="", what="", covers=()):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.params = params or {}


class R:
    def __init__(self, job): self.job, self.status, self.note, self.detail, self.replay, self.res, self.validated, self.mismatch, self.sample = job, "inconclusive", "", "", None, {}, 0, [], None


class PCheck:
    def __init__(self, pid, jobs, parallel=8, assumptions=(), outside=(), level="model_checking"):
        self.pid, self.jobs, self.par, self.assumptions, self.outside, self.level = pid, jobs, parallel, list(assumptions), list(outside), level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get("VP_BUDGET", "3300" if self.tier == "thorough" else "660"))
        self.work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.outdir = os.path.join(VERIF, "out", pid)
        self.running, self.lock = set(), threading.Lock()

    def native(self, job, case, tag):
        f = os.path.join(self.work, re.sub(r"\W", "_", job.name) + "_%s.json" % tag)
        json.dump(case, open(f, "w"))
        try:
            p = subprocess.run([NATIVE, "-B", os.path.join(HERE, "replay.py"), os.path.join(HERE, job.harness), job.func, f], capture_output=True, text=True, timeout=60, cwd=self.work, errors="replace")
            return p.returncode, (p.stdout.strip().split("\n") or [""])[-1], f
        except subprocess.TimeoutExpired:
            return None, "timeout", f

    def run_job(self, job):
        r = R(job)
        left = self.deadline - time.time()
        if left < 8: r.note = "budget exhausted before this job"; return r
        b = min(job.budget or left, left - 5)
        out = os.path.join(self.work, re.sub(r"\W", "_", job.name) + ".out.json")
        cmd = [SYM, "-B", os.path.join(HERE, "sxrun.py"), os.path.join(HERE, job.harness), job.func, json.dumps(job.params), str(b), str(job.max_paths), out]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.work, text=True, errors="replace", start_new_session=True)
        with self.lock: self.running.add(p)
        try: o, _ = p.communicate(timeout=b + 120)
        except subprocess.TimeoutExpired:
            p.kill(); o = "worker timeout"
        with self.lock: self.running.discard(p)
        if not os.path.exists(out):
            r.note = "worker gave no result: " + (o or "")[-400:].replace("\n", " | "); return r
        res = r.res = json.load(open(out))
        tried, seen = [], {}
        for k, c in enumerate(res["bad"]):
            if seen.get(c["msg"], 0) >= 3: continue
            seen[c["msg"]] = seen.get(c["msg"], 0) + 1
            rc, msg, f = self.native(job, dict(inputs=c["inputs"], params=job.params), "bad%d" % k)
            if rc == 1: self.report(r, f, c, msg); return r
            tried.append("%s: native run says %s" % (c["msg"], msg[:160]))
        for k, s in enumerate(res["samples"]):
            rc, msg, f = self.native(job, dict(inputs=s, params=job.params), "ok%d" % k)
            if rc == 0: r.validated += 1; r.sample = r.sample or {n: v[1] for n, v in s.items()}
            elif rc == 1: self.report(r, f, dict(msg="real code fails where the encoding holds"), msg); return r
            else: r.mismatch.append("native sample run: rc %s %s" % (rc, msg[:160]))
        if tried: r.note = "counterexample not reproduced: " + "; ".join(tried)[:700]
        elif res["undecided"]: r.note = "undecided: " + "; ".join("%s (x%d)" % kv for kv in list(res["undecided"].items())[:6])[:900]
        elif res["unknown"]: r.note = "solver unknown on %d queries %s" % (res["unknown"], res["unknown_msgs"])
        elif not res["ended"].get("ok"): r.note = "vacuous: no path completes"
        elif not res["checks"]: r.note = "vacuous: no check reached"
        elif [c for c in job.covers if c not in res["covered"]]: r.note = "vacuous: never reached: " + ", ".join(c for c in job.covers if c not in res["covered"])
        else: r.status = "held"
        return r

    def report(self, r, f, c, msg):
        os.makedirs(self.outdir, exist_ok=True)
        base = os.path.join(self.outdir, re.sub(r"\W", "_", r.job.name))
        shutil.copy(f, base + ".case.json")
        with open(base + ".replay.sh", "w") as g:
            g.write("#!/bin/sh\n# runs the harness on the real modules with the counterexample's inputs: exit 1 = violated\nexec %s -B %s %s %s %s\n" % (NATIVE, os.path.join(HERE, "replay.py"), os.path.join(HERE, r.job.harness), r.job.func, base + ".case.json"))
        os.chmod(base + ".replay.sh", 0o755)
        r.status, r.replay, r.detail = "violation", base + ".replay.sh", "%s -- native: %s" % (c["msg"], msg[:300])

    def main(self):
        only = os.environ.get("VP_ONLY")
        jobs = [j for j in self.jobs if not only or re.search(only, j.name)]
        stop = threading.Event()

        def go(j):
            if stop.is_set() and self.tier != "thorough":
                r = R(j); r.note = "skipped after a violation"; return r
            try: r = self.run_job(j)
            except Exception as e:
                r = R(j); r.note = "internal error: %r" % (e,)
            if r.status == "violation" and not is_known(self.pid, r):
                stop.set()
                if self.tier != "thorough":
                    with self.lock:
                        for p in list(self.running):
                            try: p.kill()
                            except OSError: pass
            print("  [%s] %-12s %s (%s paths, %.0fs) %s" % (self.pid, r.status, j.name, r.res.get("paths", "-"), r.res.get("wall_s", 0), r.detail or r.note), flush=True)
            return r
        with ThreadPoolExecutor(self.par) as ex: rs = list(ex.map(go, jobs))
        shutil.rmtree(self.work, ignore_errors=True)
        return self.finish(rs)

    def finish(self, rs):
        held = [r for r in rs if r.status == "held"]; viol = [r for r in rs if r.status == "violation"]; inc = [r for r in rs if r.status == "inconclusive"]
        tot = lambda k: sum(r.res.get(k, 0) for r in rs)
        conc, funcs = {}, {}
        for r in rs:
            for k, v in r.res.get("concretised", {}).items(): conc[k] = conc.get(k, 0) + v
            for k, v in r.res.get("functions", {}).items():
                if not k.startswith("harness_"): funcs[k] = funcs.get(k, 0) + v
        cov = {"states": tot("paths"), "transitions": tot("queries"),
               "states_meaning": "states = feasible paths of the real Python source explored symbolically (each stands for all inputs that take it); transitions = solver queries (branch feasibility and assertions); not explicit states",
               "traces_validated_against_impl": sum(r.validated for r in rs),
               "samples": [{"query": r.job.name, "inputs": r.sample} for r in held if r.sample][:4],
               "queries": len(rs), "queries_discharged": len(held), "queries_violated": len(viol),
               "queries_inconclusive": [{"query": r.job.name, "why": r.note} for r in inc],
               "assertions_checked": tot("checks"), "assertion_labels": sorted({l for r in rs for l in r.res.get("labels", {})}),
               "functions_encoded": sorted(funcs), "solver_seconds": round(tot("solver_s"), 2),
               "values_made_concrete_by_forking": conc,
               "sample_mismatches": [m for r in rs for m in r.mismatch][:10],
               "per_query": [{"query": r.job.name, "what": r.job.what, "bounds": r.job.bounds, "status": r.status, "note": r.note, **{k: r.res.get(k) for k in ("paths", "queries", "solver_s", "wall_s", "checks", "ended")}} for r in rs],
               "outside_the_bounds": self.outside}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        rc, known = 0, load_known(self.pid)
        for r in viol:
            k = is_known(self.pid, r, known)
            if k: print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
            else:
                print("VIOLATION property=%s replay=%s\n  %s" % (self.pid, r.replay, r.detail)); rc = 1
        for r in inc: print("INCONCLUSIVE property=%s query=%s: %s" % (self.pid, r.job.name, r.note))
        if rc == 0 and not held and not viol:
            print("no query of %s was decided" % self.pid); return 2
        if rc == 0: print("OK property=%s held=%d inconclusive=%d wall=%.1fs" % (self.pid, len(held), len(inc), ev["wall_s"]))
        return rc
