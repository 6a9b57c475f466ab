"""pymut.py CHECK FILE FUNC[,FUNC..] N [SEED]: run CHECK on N random syntactic mutants of the functions (on scratch copies); prints survivors"""
import ast, os, random, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
chk, fn, funcs, n = sys.argv[1], sys.argv[2], sys.argv[3].split(","), int(sys.argv[4])
random.seed(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
src = open("/repo/" + fn).read(); tree = ast.parse(src); lines = src.split("\n")
off = [0]
for l in lines: off.append(off[-1] + len(l.encode()) + 1)
raw = src.encode()
span = lambda nd: (off[nd.lineno - 1] + nd.col_offset, off[nd.end_lineno - 1] + nd.end_col_offset)
muts = []
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
OPT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.BitAnd: ("&", "|"), ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"), ast.Mod: ("%", "//"), ast.FloorDiv: ("//", "%")}
skip = set()
def walk(nd, quiet=False):
    if isinstance(nd, ast.Call):
        t = ast.unparse(nd.func)
        if t.startswith("logging.") or ".log_" in t or t == "print" or "add_argument" in t: return
    if isinstance(nd, ast.Raise): return
    if isinstance(nd, (ast.FunctionDef,)):
        if nd.body and isinstance(nd.body[0], ast.Expr) and isinstance(nd.body[0].value, ast.Constant): nd.body = nd.body[1:]
    def seg(a, b, new): muts.append((a, b, new))
    if isinstance(nd, ast.Compare) and len(nd.ops) == 1:
        a, b = span(nd.left)[1], span(nd.comparators[0])[0]
        t = raw[a:b].decode(); o = type(nd.ops[0])
        if OPT[o] in t: seg(a, b, t.replace(OPT[o], CMP[o], 1))
    if isinstance(nd, ast.BinOp) and type(nd.op) in BIN:
        a, b = span(nd.left)[1], span(nd.right)[0]; t = raw[a:b].decode(); o, p = BIN[type(nd.op)]
        if o in t: seg(a, b, t.replace(o, p, 1))
    if isinstance(nd, ast.BoolOp):
        for x, y in zip(nd.values, nd.values[1:]):
            a, b = span(x)[1], span(y)[0]; t = raw[a:b].decode()
            seg(a, b, t.replace("and", "or", 1) if isinstance(nd.op, ast.And) else t.replace("or", "and", 1))
    if isinstance(nd, ast.Constant) and not isinstance(nd.value, (str, bytes, type(None), type(Ellipsis))):
        a, b = span(nd); v = nd.value
        seg(a, b, {True: "False", False: "True"}[v] if isinstance(v, bool) else (str(v + 1) if isinstance(v, int) else str(v + 1.0)))
        if isinstance(v, int) and not isinstance(v, bool): seg(a, b, str(v - 1) if v else "(-1)")
    if isinstance(nd, ast.Constant) and isinstance(nd.value, str) and nd.value and not getattr(nd, "_fs", 0):
        a, b = span(nd); t = raw[a:b].decode()
        if t[-1] in "'\"" and t[0] in "'\"": seg(a, b, t[:-1] + "X" + t[-1])
    if isinstance(nd, (ast.If, ast.While)):
        a, b = span(nd.test); seg(a, b, "(not (" + raw[a:b].decode() + "))")
    if isinstance(nd, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Continue, ast.Break)) and not (isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Constant)):
        if not (isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Call) and (ast.unparse(nd.value.func).startswith("logging") or ".log_" in ast.unparse(nd.value.func))):
            a, b = span(nd); seg(a, b, "pass")
    if isinstance(nd, ast.JoinedStr): return
    for c in ast.iter_child_nodes(nd): walk(c)
for nd in ast.walk(tree):
    if isinstance(nd, ast.FunctionDef) and nd.name in funcs: walk(nd)
random.shuffle(muts); seen = set(); todo = []
for m in muts:
    if m not in seen:
        seen.add(m)
        try: ast.parse((raw[:m[0]] + m[2].encode() + raw[m[1]:]).decode()); todo.append(m)
        except SyntaxError: pass
todo = todo[:n]
def one(m):
    d = tempfile.mkdtemp(prefix="pymut.")
    try:
        subprocess.run("cd /repo && cp -r --parents horusdemodlib horusbinaryv3/*.asn1 src %s/ && cp *.json *.txt %s/; mkdir -p %s/_build; cp -r _build/py %s/_build/" % (d, d, d, d), shell=True, stderr=subprocess.DEVNULL)
        new = raw[:m[0]] + m[2].encode() + raw[m[1]:]
        open(d + "/" + fn, "wb").write(new)
        v = d + "/v"; os.mkdir(v)
        subprocess.run("cd /verif && cp -r checks lib py known_findings.json %s/" % v, shell=True)
        try:
            p = subprocess.run(["python3", "-B", v + "/checks/%s.py" % chk], capture_output=True, text=True, errors="replace", timeout=880, env=dict(os.environ, VP_REPO=d))
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired: rc, out = "timeout", ""
        ln = raw[:m[0]].count(b"\n") + 1
        inc = len(re.findall("^INCONCL", out, re.M))
        if rc != 1: print("SURVIVES rc=%s inc=%d %s:%d  %s  ->  %s | %s" % (rc, inc, fn, ln, raw[m[0]:m[1]].decode()[:60], m[2][:60], lines[ln - 1].strip()[:110]), flush=True)
        return rc == 1
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("PAR", "2"))) as ex: r = list(ex.map(one, todo))
print("%s %s: %d of %d killed (of %d possible)" % (chk, funcs, sum(r), len(r), len(seen)), flush=True)
