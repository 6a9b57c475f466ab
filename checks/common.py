import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from cb import *      # noqa
L2 = ["src/horus_l2.c", "src/golay23.c"]
TIER = os.environ.get("VERIF_TIER", "quick")
