"""Regenerates the generated part of DESIGN.md from the contracts, the table, the findings and the planted bugs:
python3 tools/design.py (run with the environment ./check sets up; by hand, never by a check)."""
import collections
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import reagent_compat  # noqa
from vf import runner

NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
MARK = "<!-- generated by tools/design.py: everything below -->"


def under(us):
    g = collections.OrderedDict()
    for u in us:
        f, _, n = u.partition(":")
        g.setdefault(f, []).append(n)
    return "; ".join(f"`{f.replace('reagent/', '')}` " + ", ".join(ns) for f, ns in g.items())


def main():
    props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
    man = json.load(open(f"{ROOT}/MANIFEST.json"))
    level = {c["property"]: c for c in man["checks"]}
    na = {c["property"]: c["reason"] for c in man["not_applicable"]}
    find = json.load(open(f"{ROOT}/known_findings.json"))["findings"]
    st = json.load(open(f"{ROOT}/tools/seeds/status.json"))
    meta = {d: json.load(open(f"{ROOT}/seeded/{d}/meta.json")) for d in sorted(os.listdir(f"{ROOT}/seeded"))}
    reg = runner.load(None)
    out = [MARK, "", "## Property by property", "",
           "*proved*: the obligations of the contract are discharged for all inputs of its domain; *bounded*: the contract is",
           "evaluated on the real code over the stated cases only and is never counted as proved. A configuration in brackets in",
           "the evidence (`[k=i]`) is one path of an enumerated option.", ""]
    for p in props:
        i = p["id"]
        out.append(f"### {i} {p['title']}")
        out.append("")
        if i in na:
            out += ["Not applicable: " + na[i], ""]
            continue
        out.append(f"Level claimed: {level[i]['level']}. Domain: {p['quantifier']['text']}.")
        out.append("")
        groups = collections.OrderedDict()
        for c in reg:
            if c.prop == i:
                n = re.sub(r" \[[^\]]*=\d+[^\]]*\]$", "", c.name)
                groups.setdefault(n, []).append(c)
        for n, cs in groups.items():
            c = cs[0]
            b = all(x.opts.get("bounded") for x in cs)
            kind = ("bounded: " + c.opts.get("bound", "seeded cases")) if b else "proved"
            if not b and len(cs) > 1:
                kind += f", {len(cs)} configurations"
            out.append(f"- *{n}* ({kind}): " + under(c.under))
            for a in c.opts.get("assumptions", []):
                out.append(f"  - assumed: {a}")
        for n in NOTES.get(i, []):
            out.append(f"- As is / not claimed: {n}")
        fs = [f for f in find if f["property"] == i]
        for f in fs:
            out.append("- " + ("Defect repaired: " if f["status"] == "fixed" else "KNOWN FINDING: ") + (f.get("line") or f.get("what") or json.dumps(f)).split(" ", 2 if "line" in f else 0)[-1])
        bugs = [d for d in meta if meta[d]["property"] == i]
        for d in bugs:
            s = st.get(d, {})
            how = "caught" if s.get("check") == 1 else "MISSED"
            nf = s.get("check_out") and all("no-failing" in x for x in s["check_out"] if "VIOLATION" in x)
            out.append(f"- Planted bug `{d}`: {how} by {i}" + (" (obligation only, no failing input)" if nf else "") + f" in {s.get('check_s', '?')} s. Needs: {meta[d]['needs']}")
        out.append("")
    n = len(reg)
    out += ["## Totals", "", f"{len(level)} properties claimed, {len(na)} not applicable, {n} contracts (configurations counted), "
            f"{len({u for c in reg for u in c.under})} repository functions named under contract, {len(meta)} planted bugs kept, "
            f"{sum(f['status'] == 'fixed' for f in find)} defects repaired, {sum(f['status'] != 'fixed' for f in find)} known findings.", ""]
    d = open(f"{ROOT}/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n"
    open(f"{ROOT}/DESIGN.md", "w").write(d + "\n".join(out))


main()
