#!/usr/bin/env python3
"""Regenerates the generated part of DESIGN.md (between the markers) from the
check modules, properties.jsonl, known_findings.jsonl and seeded/*/meta.json.
Run by hand; no check uses it."""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/design.py -->"


def module(pid):
    names = {}
    workloads = []
    tree = ast.parse(open(f"{ROOT}/mon/checks/{pid.lower()}.py").read())
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "Workload":
            args = [a for a in node.args[2:]] + [k.value for k in node.keywords if k.arg in ("quick", "thorough")]
            numbers = []
            for a in args[:2]:
                try:
                    numbers.append(ast.literal_eval(a))
                except ValueError:
                    numbers.append("?")
            try:
                workloads.append((ast.literal_eval(node.args[0]), *numbers))
            except ValueError:
                pass
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                names[node.targets[0].id] = ast.literal_eval(node.value)
            except (ValueError, TypeError):
                pass
    return names, workloads


def main():
    props = [json.loads(line) for line in open(f"{ROOT}/properties.jsonl")]
    manifest = json.load(open(f"{ROOT}/MANIFEST.json"))
    technique = {c["property"]: c["technique"] for c in manifest["checks"]}
    seeds = {}
    for path in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
        meta = json.load(open(path))
        seeds.setdefault(meta["property"], []).append((os.path.basename(os.path.dirname(path)), meta))
    fixes = {}
    for line in open(f"{ROOT}/known_findings.jsonl"):
        m = re.match(r"fixed: property=(P\d+) (\w+) (.*)", line)
        if m:
            fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    out = ["## Property by property", ""]
    for p in props:
        pid = p["id"]
        names, workloads = module(pid)
        out.append(f"### {pid} {p['title']}")
        out.append("")
        out.append(f"*Decided by* {technique[pid]}.  *Workloads (cases quick/thorough):* " + ", ".join(f"{w[0]} {'/'.join(str(x) for x in w[1:])}" for w in workloads) + ("; under the schedule fuzzer's process where marked" if False else "") + f".  *Process:* {'patched primitives, virtual time' if names.get('SCHED') else 'plain interpreter'}, venv {names.get('VENV')}.")
        out.append("")
        if isinstance(names.get("RULE"), str):
            out.append(names["RULE"])
            out.append("")
        if isinstance(names.get("REQUIRED"), list):
            out.append("*Must have been observed, else the run is inconclusive:* " + ", ".join(names["REQUIRED"]) + ".")
            out.append("")
        if names.get("ASSUMPTIONS"):
            out.append("*Assumptions:* " + "; ".join(names["ASSUMPTIONS"]) + ".")
            out.append("")
        for commit, what in fixes.get(pid, []):
            out.append(f"* defect found and repaired ({commit}): {what}")
        if fixes.get(pid):
            out.append("")
    out.append("## Planted bugs and the checks that catch them")
    out.append("")
    out.append("Each passes the existing tests; each is caught by the quick check of its property.")
    out.append("")
    out.append("| id | caught by | needs |")
    out.append("|---|---|---|")
    for pid in sorted(seeds):
        for name, meta in seeds[pid]:
            out.append(f"| {name} | {pid} | {meta['needs']} |".replace("\n", " "))
    out.append("")
    path = f"{ROOT}/DESIGN.md"
    text = open(path).read()
    head = text.split(MARK)[0].rstrip() + "\n\n"
    open(path, "w").write(head + MARK + "\n\n" + "\n".join(out))


main()
