"""W01: the cache's guarantees on Windows, by the generators of C01-C14 on a simulated Windows machine."""

import props_c
import scen

# C07 (no directory can be synced), C11 (leftovers stay, as documented) and the parts of C06 and C10
# that rest on recovery of what was moved aside or on held directories are POSIX only.
PARTS = ("c01", "c02", "c03", "c04", "c05", "c06", "c08", "c09", "c10", "c12", "c13", "c14")


def w01(c):
    part = PARTS[c.pick("cfg:part", len(PARTS))]
    scen.WINDOWS = True
    try:
        o = getattr(props_c, part)(c)
    finally:
        scen.WINDOWS = False
    o.case = "{}: {}".format(part.upper(), o.case)
    o.violations = [("{}:{}".format(part, cls), msg) for cls, msg in o.violations]
    return o
