import sys
sys.path.insert(0, '/verif/dst')
from simcore import Choices
import scen, props_c
try:
    import props_fp
except ImportError: props_fp=None
scen.TRACE = 5000
seed = sys.argv[1]
fn = getattr(props_c, seed.split(":")[0].lower(), None) or getattr(props_fp, seed.split(":")[0].lower())
o = fn(Choices(seed))
for t in (o.trace[-int(sys.argv[2]):] if len(sys.argv) > 2 else o.trace): print(t)
for h in o.extra["history"]: print("H", h)
for f in o.extra["fault_log"]: print("F", f)
print(o.violations)
