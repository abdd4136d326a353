"""Development aid: try.py PROP SECONDS [FIRST]"""
import collections
import sys
import time
sys.path.insert(0, '/verif/dst')
from simcore import Choices
import registry
name = sys.argv[1].upper(); secs = float(sys.argv[2]); start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
fn = registry.scenario(name)
t0 = time.time(); n = 0; viol = collections.Counter(); ex = {}; nt = 0; ends = collections.Counter(); dig = set(); cases = collections.Counter(); fl = collections.Counter(); pr=collections.Counter(); outc=collections.Counter()
while time.time() - t0 < secs:
    seed = "{}:1:{}".format(name.upper(), start + n); n += 1
    c = Choices(seed)
    try:
        o = fn(c)
    except BaseException as e:
        print("HARNESS", seed, repr(e)[:3000]); break
    nt += o.nontrivial; dig.add(o.digest); cases[o.case] += 1
    for e in o.ends: ends[e] += 1
    fl.update(o.faults); pr.update(o.probes)
    for h in o.extra.get("history", []):
        if "-> " in h: outc[h.split("-> ")[1].split(" ")[0]] += 1
    for cls, msg in o.violations[:1]:
        viol[cls] += 1; ex.setdefault(cls, (seed, msg))
print(n, "runs", round(n / secs, 1), "/s nontrivial", nt, "distinct", len(dig), dict(ends), dict(outc)); print(cases.most_common(12)); print(fl.most_common(14), dict(pr))
for k, v in viol.most_common(): print("  VIOL", k, v, ex[k][0], ex[k][1][:400])
