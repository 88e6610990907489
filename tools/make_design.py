"""Writes /verif/DESIGN.md: design_head.md + one section per property generated from the facets + findings + planted bugs + design_tail.md.
Run with /opt/venv/bin/python tools/make_design.py."""
import importlib, json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
T = os.path.join(HERE, "tools")
rd = lambda f: open(os.path.join(T, f)).read().rstrip() + "\n"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
orac = json.load(open(os.path.join(T, "oracles.json")))
why = json.load(open(os.path.join(T, "why.json"))) if os.path.exists(os.path.join(T, "why.json")) else {}
out = [rd("design_head.md"), "\n## Properties: generator, oracle, bounds\n\nFacet lines: name (quick / thorough number of generated cases): what is compared and, where stated, which cases count as non-trivial.\n"]
for p in props:
    i = p["id"]
    m = importlib.import_module("pbt.props." + i.lower())
    out.append(f"\n### {i} {p['title']}\n\n*Technique.* {orac[i][0]}. *Bounds.* {orac[i][1]}.\n\n*Beyond the tests.* {p['why_tests_cant']}\n")
    if m.prop.assumptions: out.append("\n*Assumptions.* " + "; ".join(m.prop.assumptions) + ".\n")
    out.append("\n")
    for f in m.prop.facets: out.append(f"* `{f.name}` ({f.quick} / {f.thorough}): " + " ".join(f.rule.split()) + "\n")
fs = json.load(open(os.path.join(HERE, "known", "findings.json")))
out.append("\n## Defects found in irtorch\n\n`known/findings.json` is the machine-readable list. Each repair is its own `fix:` commit in /repo.\n\n| property | commit | what failed |\n|---|---|---|\n")
for f in fs: out.append(f"| {f['property']} | {f.get('commit') or '**open**'} | {f['what']} |\n")
caught = json.load(open(os.path.join(T, "caught.json"))) if os.path.exists(os.path.join(T, "caught.json")) else {}
out.append("\n## Planted bugs\n\nEvery entry of `seeded/` builds, passes the stable tests, and has a demonstration. Unless noted, the quick check of its property reports it.\n\n| id | property | what it breaks | needs | result |\n|---|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, 'caught')} |\n")
out.append("\n" + rd("design_tail.md"))
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
