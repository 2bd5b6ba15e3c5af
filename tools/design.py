#!/usr/bin/env python3
"""Writes DESIGN.md: the texts below, with the list of facets taken from the checks.

Run by hand after a check or property changes:  python3 tools/design.py
"""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {}
QUICK_FACTOR = 3     # as in lib/vh.py


def d(pid, generated, oracle, bounds, beyond):
    D[pid] = (generated, oracle, bounds, beyond)


exec(open(os.path.join(ROOT, "tools", "design_src.py")).read())


def facets(pid):
    tree = ast.parse(open(os.path.join(ROOT, "checks", pid.lower() + ".py")).read())
    for node in ast.walk(tree):
        for dec in getattr(node, 'decorator_list', []):
            if isinstance(dec, ast.Call) and getattr(dec.func, 'id', '') == 'facet':
                kw = {k.arg: ast.literal_eval(k.value) for k in dec.keywords if k.arg in ('quick', 'thorough', 'rule')}
                quick = kw.get('quick')
                thorough = kw.get('thorough') or 10 * quick
                yield ast.literal_eval(dec.args[0]), min(QUICK_FACTOR * quick, max(quick, thorough)), thorough, kw.get('rule')


def main():
    out = [HEAD.strip(), ""]
    props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
    assert [p['id'] for p in props if p['id'] not in D] == []
    for p in props:
        generated, oracle, bounds, beyond = D[p['id']]
        out += [f"### {p['id']} {p['title']}", "", f"* Generated: {generated}.", f"* Oracle: {oracle}.", f"* Bounds: {bounds}.",
                f"* Beyond the tests: {beyond}.", "", "| facet | quick | thorough | non-trivial when |", "|---|---|---|---|"]
        out += [f"| {n} | {q} | {t} | {r} |" for n, q, t, r in facets(p['id'])] + [""]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n" + TAIL.strip() + "\n")


main()
