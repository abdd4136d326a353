"""What one simulated run reports."""


class Outcome:
    __slots__ = ("violations", "digest", "nontrivial", "faults", "steps", "sim_time", "switches", "probes", "ends", "sample",
                 "trace", "log", "case", "inconclusive", "extra")

    def __init__(self):
        self.violations = []
        self.digest = ""
        self.nontrivial = False
        self.faults = {}
        self.steps = 0
        self.sim_time = 0.0
        self.switches = 0
        self.probes = {}
        self.ends = []
        self.sample = None
        self.trace = None
        self.log = None
        self.case = ""
        self.inconclusive = None
        self.extra = {}


def from_lab(lab, nontrivial, case="", violations=()):
    o = Outcome()
    o.violations = list(lab.violations) + list(violations)
    o.digest = lab.sim.digest()
    o.nontrivial = bool(nontrivial)
    o.faults = dict(lab.w.fault_counts)
    o.steps = lab.sim.steps
    o.sim_time = lab.sim.now - 1000.0
    o.switches = lab.sim.switches
    o.probes = dict(lab.probes)
    o.ends = list(lab.phase_ends)
    o.case = case
    if "step-cap" in lab.phase_ends:
        o.inconclusive = "step-cap"
    o.sample = {
        "case": case,
        "constructors": [r.brief() for r in lab.history[:12]],
        "faults": [list(f) for f in lab.w.fault_log[:12]],
    }
    o.trace = list(lab.sim.trace)
    o.extra = {"history": [r.brief() for r in lab.history], "fault_log": [list(f) for f in lab.w.fault_log], "notes": lab.notes}
    return o
