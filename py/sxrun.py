import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/horus-venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import faulthandler; faulthandler.dump_traceback_later(float(os.environ.get("SXDUMP", "100000")), exit=False)
import sxrt
path, func, params, budget, maxp, out = sys.argv[1:7]
r = sxrt.explore(path, func, json.loads(params), float(budget), int(maxp))
json.dump(r, open(out + ".tmp", "w"), default=str)
os.replace(out + ".tmp", out)
