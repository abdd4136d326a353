"""Fills the tables of DESIGN.md sections 8 and 9 from seeded/ and evidence/."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bugs():
    by = {}
    for path in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        meta = json.load(open(path, encoding="utf-8"))
        by.setdefault(meta["property"], []).append(os.path.basename(os.path.dirname(path)))
    rows = ["| check that reports it | planted bugs |", "|---|---|"]
    rows += ["| {} | {} |".format(p, ", ".join(names)) for p, names in sorted(by.items())]
    return rows


def measured():
    rows = ["| id | runs | distinct | runs/hour | simulated | operations | faults injected (most frequent kinds) |",
            "|---|---|---|---|---|---|---|"]
    for path in sorted(glob.glob(os.path.join(V, "evidence", "*.json"))):
        d = json.load(open(path, encoding="utf-8"))
        c = d["coverage"]
        faults = sorted(c.get("faults_injected", {}).items(), key=lambda kv: -kv[1])
        t = c.get("simulated_seconds") or 0
        span = "{:.0f} d".format(t / 86400) if t > 2 * 86400 else "{:.1f} h".format(t / 3600) if t > 7200 else "{:.0f} s".format(t) if t else "-"
        rows.append("| {} | {} | {} | {} | {} | {:.3g} M | {} in {} kinds: {} |".format(
            d["property"], c["evaluations"], c["distinct_nontrivial"], c["runs_per_hour"], span,
            c.get("simulated_operations", 0) / 1e6, sum(n for _, n in faults), len(faults),
            ", ".join(k for k, _ in faults[:5])))
    return rows


def main():
    path = os.path.join(V, "DESIGN.md")
    text = open(path, encoding="utf-8").read()
    for name, rows in (("bugs", bugs()), ("measured", measured())):
        mark = re.compile("<!-- {0} -->.*?<!-- /{0} -->".format(name), re.S)
        assert mark.search(text), name
        text = mark.sub(lambda _: "<!-- {0} -->\n{1}\n<!-- /{0} -->".format(name, "\n".join(rows)), text)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


if __name__ == "__main__":
    main()
