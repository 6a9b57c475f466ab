import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "py"))
from pcheck import PCheck, PJob
TIER = os.environ.get("VERIF_TIER", "quick")
