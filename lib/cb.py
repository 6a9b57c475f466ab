"""CBMC driver: decides harnesses over /repo's current C sources with a SAT solver.

One Job = one harness (C file in /verif/c) + real sources of /repo + defines + bounds.  A job is
 1. compiled with goto-cc (same defines as the product build) and encoded by cbmc;
 2. decided: every assertion must be unsat-negated, every WITNESS assertion must be reachable
    (vacuity guard), every loop bound must be proved sufficient (unwinding assertions);
 3. on a counterexample: the harness is compiled natively (gcc, ASan+UBSan) against the same
    sources and run on the solver's values; only a reproduced failure is reported.
The witness trace is replayed natively as well: it must run through without a failure, which
validates the encoding against the implementation on every run.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time, resource, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PRODUCT_DEFS = ["HORUS_L2_RX", "INTERLEAVER", "RUN_TIME_TABLES", "SCRAMBLER", "ENABLE_ASSERTIONS"]
SAFETY = ["--bounds-check", "--pointer-check", "--div-by-zero-check"]


class Job:
    def __init__(self, name, harness, srcs, defs=(), unwind=5000, unwindset=(), product_defs=True,
                 flags=(), stub_out=(), solver="cadical", safety=True, leaks=False, timeout=None, mem_gb=8, bounds="",
                 native_srcs=None, incs=(), native_flags=(), weight=1, trace=True, drop=(), fsarray=4096,
                 native_defs=(), what="", native=True, unwind_fn=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Result:
    def __init__(self, job):
        self.job = job
        self.status = "inconclusive"   # held | violation | inconclusive
        self.note = ""
        self.props = {}
        self.stats = {}
        self.functions = []
        self.replay = None
        self.detail = ""
        self.witness_sample = None
        self.traces_validated = 0
        self.cmd = ""


def _limits(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


_running = set()
_lock = threading.Lock()


def run(cmd, timeout, mem_gb=None, cwd=None, outfile=None):
    """returns (rc, output); rc None on timeout"""
    out = open(outfile, "wb") if outfile else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=cwd,
                         preexec_fn=_limits(mem_gb) if mem_gb else os.setsid)
    with _lock:
        _running.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, _ = p.communicate()
        rc = None
    finally:
        with _lock:
            _running.discard(p)
        if outfile:
            out.close()
    return rc, (o or b"").decode("utf8", "replace")


class CCheck:
    def __init__(self, pid, jobs, jobs_parallel=8, title="", assumptions=(), outside=(), level="model_checking",
                 finding_filter=None):
        self.pid = pid
        self.jobs = jobs
        self.par = jobs_parallel
        self.assumptions = list(assumptions)
        self.outside = list(outside)
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get("VP_BUDGET", "3300" if self.tier == "thorough" else "720"))
        self.work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.outdir = os.path.join(VERIF, "out", pid)

    # ---- one job -------------------------------------------------------------------------
    def defs(self, job):
        d = list(PRODUCT_DEFS) if job.product_defs else []
        d += list(job.defs)
        r = []
        for x in d:          # "@file.h": force-include a harness header
            r += ["-include", os.path.join(VERIF, "c", x[1:])] if x[0] == "@" else ["-D" + x]
        return r

    def incs(self, job):
        return ["-I" + os.path.join(VERIF, "c"), "-I" + os.path.join(REPO, "src")] + ["-I" + i for i in job.incs]

    def compile_goto(self, job, d):
        gb = os.path.join(d, "x.gb")
        srcs = [os.path.join(VERIF, "c", job.harness)] + [s if s.startswith("/") else os.path.join(REPO, s) for s in job.srcs]
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, "o%d.gb" % i)
            cmd = ["goto-cc", "-DVP_CBMC", "-D_FORTIFY_SOURCE=0", "-c", "-o", o, s] + self.defs(job) + self.incs(job)
            rc, out = run(cmd, 120, cwd=d)
            if rc != 0:
                return None, "goto-cc failed on %s: %s" % (s, out[-600:])
            # remove named bodies (replaced by harness stubs or havoc)
            objs.append(o)
        if job.stub_out:
            # functions of the code under test that the harness replaces: drop their bodies from
            # the object that defines them, so that the harness's definition is the one linked
            for i in range(1, len(objs)):
                o2 = os.path.join(d, "p%d.gb" % i)
                cmd = ["goto-instrument"]
                for f in job.stub_out:
                    cmd += ["--remove-function-body", f]
                rc, out = run(cmd + [objs[i], o2], 120, cwd=d)
                if rc == 0:
                    objs[i] = o2
        rc, out = run(["goto-cc", "-o", gb, "--function", "vp_harness"] + objs, 120, cwd=d)
        if rc != 0:
            return None, "goto link failed: " + out[-600:]
        return gb, ""

    def fn_loops(self, gb, d, unwind_fn, factor):
        """bounds for the loops of named functions (data-dependent trip counts)"""
        if not unwind_fn:
            return []
        rc, out = run(["goto-instrument", "--show-loops", gb], 60, cwd=d)
        r = []
        for m in re.finditer(r"^Loop (\S+)\.(\d+):", out, re.M):
            for f, b in unwind_fn:
                if re.match(f + "$", m.group(1)):
                    r.append("%s.%s:%d" % (m.group(1), m.group(2), b * factor))
                    break
        return r

    def reach(self, gb, d):
        rc, out = run(["goto-instrument", "--reachable-call-graph", gb], 60, cwd=d)
        names = set()
        for m in re.finditer(r"^(\S+) -> (\S+)$", out, re.M):
            names.add(m.group(1)); names.add(m.group(2))
        names = {n for n in names if not n.startswith("__CPROVER") and not n.startswith("nondet_") and not n.startswith("vp_")}
        return sorted(names)

    def compile_native(self, job, d):
        exe = os.path.join(d, "replay.exe")
        srcs = [os.path.join(VERIF, "c", job.harness), os.path.join(VERIF, "c", "vp_native.c")]
        srcs += [s if s.startswith("/") else os.path.join(REPO, s) for s in (job.native_srcs if job.native_srcs is not None else job.srcs)]
        cmd = ["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        cmd += list(job.native_flags) + self.defs(job) + ["-D" + x for x in job.native_defs] + self.incs(job) + srcs + ["-o", exe, "-lm"]
        if job.stub_out:
            # weaken the replaced functions so that the harness's definitions win
            objs = []
            for i, s in enumerate(srcs):
                o = os.path.join(d, "n%d.o" % i)
                c = ["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-inline", "-c", s, "-o", o]
                c += list(job.native_flags) + self.defs(job) + ["-D" + x for x in job.native_defs] + self.incs(job)
                rc, out = run(c, 120, cwd=d)
                if rc != 0:
                    return None, out
                if i >= 2:
                    run(["objcopy"] + sum([["-W", f] for f in job.stub_out], []) + [o], 60, cwd=d)
                objs.append(o)
            cmd = ["gcc", "-fsanitize=address,undefined"] + objs + ["-o", exe, "-lm"]
        rc, out = run(cmd, 180, cwd=d)
        if rc != 0:
            return None, out
        return exe, ""

    def native_run(self, exe, values, d, tag, leaks=False):
        inp = os.path.join(d, "in_%s.txt" % tag)
        with open(inp, "w") as f:
            f.write("\n".join(str(v) for v in values) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d" % (1 if leaks else 0) + ":abort_on_error=0:allocator_may_return_null=1",
                   UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")
        try:
            p = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env)
            return p.returncode, p.stdout.decode("utf8", "replace"), inp
        except subprocess.TimeoutExpired:
            return None, "timeout", inp

    @staticmethod
    def parse(outfile):
        props, traces, stats = {}, {}, {}
        cur = None
        rx_prop = re.compile(r"^\[(.+?)\] (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")
        rx_in = re.compile(r"^\s*VP_IN=(\d+)")
        infile = None
        with open(outfile, errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("Trace for "):
                    cur = line[len("Trace for "):].rstrip(":")
                    traces[cur] = {}
                    continue
                if cur is not None:
                    m = rx_in.match(line)
                    if m:
                        v = int(m.group(1)); traces[cur][v >> 32] = v & 0xffffffff
                        continue
                    if line.startswith("** "):
                        cur = None
                m = rx_prop.match(line)
                if m and not line.startswith(" "):
                    desc = m.group(2)
                    props[m.group(1)] = (desc, m.group(3), infile)
                    continue
                m = re.match(r"^(\S+) function (\S+)$", line)
                if m:
                    infile = line
                m = re.match(r"^(\d+) variables, (\d+) clauses", line)
                if m:
                    stats["variables"] = int(m.group(1)); stats["clauses"] = int(m.group(2))
                m = re.match(r"^size of program expression: (\d+) steps", line)
                if m:
                    stats["steps"] = int(m.group(1))
                m = re.match(r"^Generated (\d+) VCC\(s\), (\d+) remaining", line)
                if m:
                    stats["vccs"] = int(m.group(1)); stats["vccs_solver"] = int(m.group(2))
                m = re.match(r"^Runtime (Symex|Solver|decision procedure): ([0-9.e+-]+)s", line, re.I)
                if m:
                    k = "t_" + m.group(1).lower().replace(" ", "_")
                    stats[k] = stats.get(k, 0.0) + float(m.group(2))
                if line.startswith("VERIFICATION "):
                    stats["done"] = 1
                m = re.match(r"^\*\* (\d+) of (\d+) failed \((\d+) iteration", line)
                if m:
                    stats["iterations"] = int(m.group(3))
        traces = {k: [v.get(i, 0) for i in range(max(v) + 1)] if v else [] for k, v in traces.items()}
        return props, traces, stats

    def run_job(self, job):
        res = Result(job)
        d = os.path.join(self.work, re.sub(r"[^A-Za-z0-9_.-]", "_", job.name))
        os.makedirs(d, exist_ok=True)
        gb, err = self.compile_goto(job, d)
        if gb is None:
            res.note = err
            return res
        res.functions = self.reach(gb, d)
        unwind = job.unwind
        for attempt in range(3):
            left = self.deadline - time.time()
            if left < 5:
                res.note = "budget exhausted before this query"
                return res
            to = min(left, job.timeout) if job.timeout else left
            outf = os.path.join(d, "cbmc.txt")
            cmd = ["cbmc", gb, "--unwind", str(unwind), "--unwinding-assertions", "--no-standard-checks",
                   "--no-malloc-may-fail", "--max-field-sensitivity-array-size", str(job.fsarray), "--verbosity", "8"]
            uws = list(job.unwindset) + self.fn_loops(gb, d, job.unwind_fn, 4 ** attempt)
            if uws:
                cmd += ["--unwindset", ",".join(uws)]
            if job.safety:
                cmd += SAFETY
            if job.leaks:
                cmd += ["--memory-leak-check"]
            if job.solver:
                cmd += ["--sat-solver", job.solver]
            if job.trace and job.trace != "onfail":
                cmd += ["--trace"]
            if "--slice-formula" not in job.flags:
                cmd += ["--slice-formula"]
            cmd += list(job.flags)
            res.cmd = " ".join(cmd[2:])
            if job.safety:
                # forming (not using) an out-of-range pointer is not judged; left in, a failure of one of
                # these checks makes cbmc answer UNKNOWN for everything behind it
                out = subprocess.run(cmd + ["--show-properties"], capture_output=True, text=True, cwd=d).stdout
                names = re.findall(r"^Property (\S+):$", out, re.M)
                if any(".pointer_arithmetic." in n for n in names):
                    for n in names:
                        if ".pointer_arithmetic." not in n:
                            cmd += ["--property", n]
            t = time.time()
            rc, _ = run(cmd, to, job.mem_gb, cwd=d, outfile=outf)
            props, traces, stats = self.parse(outf)
            stats["wall"] = round(time.time() - t, 2)
            res.stats = stats
            if rc is None or "done" not in stats:
                tail = open(outf, errors="replace").read()[-300:].replace("\n", " | ")
                res.note = ("solver timeout after %.0fs" % (time.time() - t)) if rc is None else "cbmc gave no verdict (rc %s): %s" % (rc, tail)
                self.rm(outf)
                return res
            unw = [p for p, v in props.items() if ".unwind." in p and v[1] != "SUCCESS"]
            if unw and attempt < 2:
                unwind *= 4
                continue
            break
        res.props = props
        fails, wit, wit_missing, model = [], [], [], []
        for p, (desc, st, where) in props.items():
            if "WITNESS:" in desc:
                (wit if st == "FAILURE" else wit_missing).append(p)
            elif st != "SUCCESS":
                if ".unwind." in p or ".pointer_arithmetic." in p:
                    continue
                if "MODEL:" in desc or ".no-body." in p or ".recursion" in p:
                    model.append((p, desc))
                else:
                    fails.append((p, desc, where))
        if fails and job.trace == "onfail":
            # decided without traces; encode once more to get the counterexamples
            sel = [f[0] for f in sorted(fails, key=lambda f: 0 if "VP:" in f[1] else 1)][:3]
            c2 = [c for i, c in enumerate(cmd) if c != "--property" and (i == 0 or cmd[i - 1] != "--property")]
            rc, _ = run(c2 + ["--trace"] + sum([["--property", p] for p in sel], []), max(5, self.deadline - time.time()), job.mem_gb, cwd=d, outfile=outf)
            _, traces, _ = self.parse(outf)
        exe = None
        nat_err = ""
        if (job.native and (fails or (job.trace and wit))):
            exe, nat_err = self.compile_native(job, d)
        self.rm(outf) if not os.environ.get("VP_KEEP") else None
        if fails:
            if not job.native:
                # no native replay possible: every harness has one, see DESIGN.md
                res.note = "counterexample without a native replay: " + fails[0][1]
                return res
            if exe is None:
                res.note = "native replay does not build: " + nat_err[-500:]
                return res
            tried = []
            for p, desc, where in sorted(fails, key=lambda f: 0 if "VP:" in f[1] else 1):
                vals = traces.get(p)
                if vals is None:
                    continue
                nrc, nout, inp = self.native_run(exe, vals, d, "cex", job.leaks)
                if nrc in (0, 11, 12) or nrc is None:
                    tried.append("%s: native exit %s (%s)" % (desc, nrc, nout.strip().split("\n")[-1][:120]))
                    continue
                os.makedirs(self.outdir, exist_ok=True)
                base = os.path.join(self.outdir, re.sub(r"[^A-Za-z0-9_.-]", "_", job.name))
                shutil.copy(inp, base + ".values.txt")
                with open(base + ".replay.sh", "w") as f:
                    f.write(self.replay_script(job, base + ".values.txt"))
                os.chmod(base + ".replay.sh", 0o755)
                with open(base + ".log", "w") as f:
                    f.write("property %s\nfailed assertion: %s (%s)\nnative output:\n%s\n" % (self.pid, desc, where, nout[-4000:]))
                res.status = "violation"
                res.replay = base + ".replay.sh"
                res.detail = desc + " -- " + self.summary(nout)
                return res
            res.note = "counterexample not reproduced natively: " + "; ".join(tried)[:800]
            return res
        if unw:
            res.note = "loop bound %d too small: %s" % (unwind, ", ".join(unw)[:300])
            return res
        if model:
            res.note = "environment model does not cover this code: " + "; ".join(m[1] for m in model)[:300]
            return res
        if wit_missing:
            res.note = "vacuous: witness unreachable: " + ", ".join(props[p][0] for p in wit_missing)[:300]
            return res
        if not wit:
            res.note = "no witness in harness"
            return res
        if exe:
            for w in wit:
                if w in traces:
                    nrc, nout, inp = self.native_run(exe, traces[w], d, "wit", job.leaks)
                    if nrc == 0:
                        res.traces_validated += 1
                        if res.witness_sample is None:
                            res.witness_sample = traces[w][:48]
                    elif nrc not in (11, 12, None):
                        # the real code fails on a witness the encoding calls good: believe the real code
                        os.makedirs(self.outdir, exist_ok=True)
                        base = os.path.join(self.outdir, re.sub(r"[^A-Za-z0-9_.-]", "_", job.name))
                        shutil.copy(inp, base + ".values.txt")
                        with open(base + ".replay.sh", "w") as f:
                            f.write(self.replay_script(job, base + ".values.txt"))
                        os.chmod(base + ".replay.sh", 0o755)
                        res.status = "violation"
                        res.replay = base + ".replay.sh"
                        res.detail = "witness run fails on the real code -- " + self.summary(nout)
                        return res
                    else:
                        res.note = "witness trace not validated natively (%s)" % nrc
        elif nat_err:
            res.note = "native build failed: " + nat_err[-300:]
        res.status = "held"
        return res

    @staticmethod
    def summary(nout):
        for l in nout.split("\n"):
            if "VP-FAIL" in l or "ERROR: " in l or "runtime error" in l or "Assertion" in l:
                return l.strip()[:300]
        return nout.strip()[-200:]

    def replay_script(self, job, vals):
        srcs = ["%s/c/%s" % (VERIF, job.harness), "%s/c/vp_native.c" % VERIF]
        srcs += [s if s.startswith("/") else os.path.join("$REPO", s) for s in (job.native_srcs if job.native_srcs is not None else job.srcs)]
        incs = " ".join(i.replace(REPO, "$REPO") for i in self.incs(job))
        defs = " ".join("'%s'" % x for x in self.defs(job) + ["-D" + x for x in job.native_defs])
        s = "#!/bin/sh\n# rebuilds the harness natively against the real code and replays the counterexample\n"
        s += "REPO=${REPO:-%s}\nD=$(mktemp -d)\ncd $D || exit 2\ni=0; O=\n" % REPO
        s += "for f in %s; do gcc -w -g -O1 -fno-inline -fsanitize=address,undefined -fno-sanitize-recover=all %s %s %s -c $f -o o$i.o || exit 2\n" % (
            " ".join(srcs), " ".join(job.native_flags), defs, incs)
        if job.stub_out:
            s += "  [ $i -ge 2 ] && objcopy %s o$i.o\n" % " ".join("-W " + f for f in job.stub_out)
        s += "  O=\"$O o$i.o\"; i=$((i+1)); done\ngcc -fsanitize=address,undefined $O -o replay -lm || exit 2\n"
        s += "ASAN_OPTIONS=detect_leaks=%d ./replay %s; rc=$?; cd /; rm -rf \"$D\"; exit $rc\n" % (1 if job.leaks else 0, vals)
        return s

    @staticmethod
    def rm(p):
        try:
            os.unlink(p)
        except OSError:
            pass

    # ---- the whole check -----------------------------------------------------------------
    def main(self):
        only = os.environ.get("VP_ONLY")
        jobs = [j for j in self.jobs if not only or re.search(only, j.name)]
        results = []
        stop = threading.Event()

        def go(j):
            if stop.is_set() and self.tier != "thorough":
                r = Result(j); r.note = "skipped after a violation"
                return r
            try:
                r = self.run_job(j)
            except Exception as e:   # noqa
                r = Result(j); r.note = "internal error: %r" % (e,)
            if r.status == "violation" and not is_known(self.pid, r):
                stop.set()
                if self.tier != "thorough":     # reproduced on the real code: nothing more to decide
                    with _lock:
                        for p in list(_running):
                            try:
                                os.killpg(p.pid, 9)
                            except OSError:
                                pass
            print("  [%s] %-12s %s %s" % (self.pid, r.status, j.name, ("(%.1fs) " % r.stats["wall"] if "wall" in r.stats else "") + (r.detail or r.note)), flush=True)
            return r
        with ThreadPoolExecutor(self.par) as ex:
            results = list(ex.map(go, jobs))
        shutil.rmtree(self.work, ignore_errors=True)
        return finish(self.pid, self.tier, self.seed, self.level, results, self.t0, self.assumptions, self.outside)


def finish(pid, tier, seed, level, results, t0, assumptions, outside):
    held = [r for r in results if r.status == "held"]
    viol = [r for r in results if r.status == "violation"]
    inc = [r for r in results if r.status == "inconclusive"]
    funcs = sorted({f for r in results for f in r.functions})
    nprop = sum(1 for r in held for p, v in r.props.items() if "WITNESS" not in v[0])
    cov = {
        "states": sum(r.stats.get("steps", 0) for r in results),
        "transitions": sum(r.stats.get("vccs", 0) for r in results),
        "states_meaning": "states = SSA steps of the bounded encodings of the real code (every value of every input at once), transitions = verification conditions generated; not explicit states",
        "traces_validated_against_impl": sum(r.traces_validated for r in results),
        "samples": [{"query": r.job.name, "witness_inputs": r.witness_sample} for r in held if r.witness_sample][:4],
        "queries": len(results),
        "queries_discharged": len(held),
        "queries_violated": len(viol),
        "queries_inconclusive": [{"query": r.job.name, "why": r.note} for r in inc],
        "assertions_proved": nprop,
        "functions_encoded": funcs,
        "solver_seconds": round(sum(r.stats.get("t_solver", 0.0) + r.stats.get("t_decision_procedure", 0.0) for r in results), 2),
        "cpu_seconds_cbmc": round(sum(r.stats.get("wall", 0.0) for r in results), 2),
        "sat_variables": sum(r.stats.get("variables", 0) for r in results),
        "sat_clauses": sum(r.stats.get("clauses", 0) for r in results),
        "per_query": [{"query": r.job.name, "what": r.job.what, "bounds": r.job.bounds, "status": r.status, "note": r.note, **{k: v for k, v in r.stats.items()}} for r in results],
        "outside_the_bounds": outside,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    return conclude(pid, ev, viol, held, inc)


def conclude(pid, ev, viol, held, inc):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = load_known(pid)
    rc = 0
    for r in viol:
        k = is_known(pid, r, known)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("VIOLATION property=%s replay=%s" % (pid, r.replay))
            print("  " + (r.detail or ""))
            rc = 1
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in inc:
        print("INCONCLUSIVE property=%s query=%s: %s" % (pid, r.job.name, r.note))
    if rc == 0 and not held:
        print("no query of %s was decided" % pid)
        return 2
    if rc == 0:
        print("OK property=%s held=%d inconclusive=%d wall=%.1fs" % (pid, len(held), len(inc), ev["wall_s"]))
    return rc


def is_known(pid, r, known=None):
    for k in load_known(pid) if known is None else known:
        if k["match"] in (r.detail or "") and k.get("job", r.job.name) == r.job.name:
            return k
    return None


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("open", []) if k["property"] == pid]
