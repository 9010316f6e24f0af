import json, sys
sys.path.insert(0, '/verif')
from ctv import registry
TECH = 'contracts on the instantiated C++ functions, verification conditions from their LLVM IR, discharged by z3'
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    s = registry.PROPS.get(i)
    if not s:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'no function under contract yet')})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3-vt -m ctv.check %s --tier quick' % i, 'thorough_cmd': 'python3-vt -m ctv.check %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': s.get('technique', TECH), 'level': s.get('level', 'proof'), 'level_note': s['note']})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, ctv.check" && clang++ --version && opt --version', 'checks': checks, 'not_applicable': na,
           'notes': 'ctv/ is the verifier, units/ the harness units that instantiate the real templates with opaque continuations, ref/ the reference semantics of the bounded stand-ins.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
