"""DESIGN.md from tools/design/*.md, props.py, properties.jsonl, known_findings.jsonl and seeded/*/meta.json"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

HOW = json.load(open(os.path.join(HERE, "tools/design/how.json")))


def lines(f):
    return [json.loads(x) for x in open(os.path.join(HERE, f)) if x.strip()]


def main():
    out = [open(os.path.join(HERE, "tools/design/head.md")).read()]
    for t in sorted(lines("properties.jsonl"), key=lambda t: t["id"]):
        k, c = t["id"], PROPS.get(t["id"])
        out.append(f"### {k} {t['title']}\n\n{HOW[k]}\n")
        if c:
            out.append(f"*Level* {c['level']}. *Scope*: {c['note']}.\n\n*Assumed*: {'; '.join(c['assumptions'])}.\n")
    known = lines("known_findings.jsonl")
    tail = open(os.path.join(HERE, "tools/design/tail.md")).read()
    tail = tail.replace("@KNOWN@", "\n".join(f"* {k['property']} `{k['id']}`: {k['what']}" for k in known if k["status"] == "known"))
    tail = tail.replace("@FIXED@", "\n".join(f"* {k['property']} {k['commit']}: {k['what']}" for k in sorted(known, key=lambda k: k["property"]) if k["status"] == "fixed"))
    caught = json.load(open(os.path.join(HERE, "tools/design/caught.json")))
    rows = ["| change | property | what it breaks | needs | reported by |", "| --- | --- | --- | --- | --- |"]
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
        rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(s, 'not caught')} |")
    out.append(tail.replace("@SEEDS@", "\n".join(rows)))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()
