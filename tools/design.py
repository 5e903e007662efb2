"""Regenerate DESIGN.md from tools/design_*.md, the per-property notes and the evidence of the last runs."""
import json
import os
import runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(*p):
    with open(os.path.join(HERE, *p)) as f:
        return f.read()


def seeds():
    caught = json.loads(rd("tools", "design_seeds.json"))
    rows = ["| change | needs | breaks | failed obligation (besides the concrete input) |", "|---|---|---|---|"]
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.loads(rd("seeded", s, "meta.json"))
        cell = [x.replace("|", "/") for x in (s, m["needs"], m["what_it_breaks"], caught.get(s, "?"))]
        rows.append("| " + " | ".join(cell) + " |")
    return "\n".join(rows)


def main():
    D = runpy.run_path(os.path.join(HERE, "tools", "design_props.py"))["D"]
    P = [json.loads(x) for x in rd("properties.jsonl").splitlines()]
    out = [rd("tools", "design_text.md")]
    total = [0, 0]
    for p in P:
        i = p["id"]
        e = json.loads(rd("evidence", i + ".json"))
        c = e["coverage"]
        total[0] += c["obligations"]
        total[1] += c["verification_conditions"]
        out.append("### %s %s\n" % (i, p["title"]))
        what, why = D[i]
        out.append("* **Specified:** " + what)
        out.append("* **Why this reaches what tests cannot:** " + why)
        hs = []
        for h in c["harnesses"]:
            hs.append("%s%s (%d)" % (h["name"], " **[bounded: %s]**" % h["bounded"] if h["bounded"] else "", h["obligations"]))
        if len(hs) > 14:
            hs = hs[:12] + ["... %d more" % (len(hs) - 12)]
        out.append("* **Harnesses (obligations):** " + "; ".join(hs) + ".")
        out.append("* **Functions of /repo verified:** %d. **Cost (quick):** %d obligations, %d verification conditions, "
                   "%d paths, about %d s." % (len(c["functions_under_contract"]), c["obligations"], c["verification_conditions"],
                                              c["paths"], max(1, round(e["wall_s"]))))
        extra = e["assumptions"][3:]
        if extra:
            out.append("* **Assumed besides section 4:** " + "; ".join(extra) + ".")
        out.append("")
    out.append("Sum over all properties: %d obligations, %d verification conditions.\n" % tuple(total))
    out.append(rd("tools", "design_tail.md").replace("@SEEDS@", seeds()))
    s = "\n".join(out)
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(s)


if __name__ == "__main__":
    main()
