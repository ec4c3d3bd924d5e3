"""Writes MANIFEST.json from the property table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NOTE = {
 'default': 'Every obligation generated from the current source for the listed functions is discharged by Verus/z3 for all inputs. Trusted: macro expansion and the contract-inserting extraction, contracts of std in spec/x_std.rs and vstd, the transmutes new_unchecked_from_bytes. A function that a change takes out of reach falls back to the bounded replay harness and is reported as bounded.',
}
checks = []
for p in ids:
    if p not in props.PROPS: continue
    checks.append(dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p, thorough_cmd='python3 tools/check.py %s thorough' % p,
        technique='contract-based deductive verification (Verus contracts woven into the macro-expanded real source; z3)', level='proof',
        level_note=props.PROPS[p].get('note', NOTE['default']), theorems=props.PROPS[p].get('theorems', [])))
na = [dict(property=p, reason=props.NOT_APPLICABLE.get(p, 'contracts under construction')) for p in ids if p not in props.PROPS]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
    notes='Known findings and repaired defects: known-findings.txt. Design, assumptions, bug table: DESIGN.md.'), open('/verif/MANIFEST.json', 'w'), indent=1)
