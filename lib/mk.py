"""debug: build the goto binary of one job and print the cbmc command"""
import sys, os, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import cb
class Stop(Exception): pass
got = {}
class FakeCheck(cb.CCheck):
    def main(self):
        got["c"] = self; return 0
cb.CCheck = FakeCheck
chk, job, out = sys.argv[1:4]
try:
    exec(compile(open(os.path.join(cb.VERIF, "checks", chk + ".py")).read(), chk, "exec"), {"__name__": "__main__"})
except SystemExit: pass
c = got["c"]
j = [x for x in c.jobs if x.name == job][0]
os.makedirs(out, exist_ok=True)
gb, err = c.compile_goto(j, out)
print(gb, err)
cmd = ["cbmc", gb, "--unwind", str(j.unwind), "--unwinding-assertions", "--no-standard-checks", "--no-malloc-may-fail", "--max-field-sensitivity-array-size", str(j.fsarray)] + (cb.SAFETY if j.safety else []) + (["--unwindset", ",".join(list(j.unwindset)+c.fn_loops(gb,out,j.unwind_fn,1))] if j.unwindset or j.unwind_fn else []) + (["--sat-solver", j.solver] if j.solver else []) + list(j.flags)
print(" ".join(map(str,cmd)))
