"""writes /verif/MANIFEST.json from the specifications at hand"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs_farming, specs_amm
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = ("Deductive: obligations generated from the MIR of /repo's current tree, discharged by z3 for all inputs and states; trusts rustc's MIR, z3, the assumed contracts of "
        "std/anchor/spl-token/decimal listed in engine/lib.py and DESIGN.md. ")
checks, na = [], []
for p in props:
    i = p['id']
    m = specs_farming if i[0] == 'F' else specs_amm
    if m.SPECS.get(i):
        lv = m.LEVEL.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3-vt engine/check.py ' + i, 'thorough_cmd': 'python3-vt engine/check.py ' + i,
                       'technique': lv.get('technique', 'contracts on the real functions, verification conditions from rustc MIR, discharged by z3'),
                       'level': lv.get('level', 'proof'), 'level_note': NOTE + lv.get('note', '')})
    else:
        na.append({'property': i, 'reason': 'no check yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && mkdir -p evidence', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read /repo as it is. engine/mkmanifest.py regenerates this file.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
