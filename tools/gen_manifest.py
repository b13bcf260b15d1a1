#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property in properties.jsonl that the simulator claims."""
import json, re
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
src = open('/verif/sim/src/props.rs').read()
m = re.search(r'pub const ALL: &\[&str\] = &\[(.*?)\];', src, re.S)
claimed = re.findall(r'"(\w+)"', m.group(1))
NOTE = ("Seeded random search over schedules, delivery orders and faults against an independent oracle, "
        "running the real library in one process; sampling, so a clean batch is evidence and not proof. Trusts the "
        "oracle and reference model in sim/src and the cryptographic primitives.")
checks = []
for p in props:
    if p['id'] not in claimed:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"./check.sh {p['id']} quick",
        'thorough_cmd': f"./check.sh {p['id']} thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': 'deterministic simulation with fault injection: seeded schedules and faults over the real library, judged by invariants and a reference model',
        'level': 'exploration',
        'level_note': NOTE,
    })
NA = {}
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'The simulated check for this property is not built yet.')} for p in props if p['id'] not in claimed]
json.dump({'version': 1,
           'setup_cmd': 'cd sim && cargo build --release --offline',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams used are the library\'s own (signer, listener, ciphertext store, csprng) plus a vendored futures-util mutex and getrandom interposition inside /verif/sim.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
