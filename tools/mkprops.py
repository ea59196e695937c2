#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import units as U
TECH = 'contract-based deductive verification: per-operation contracts on the real headers, obligations generated from their LLVM IR and discharged by bit-level rewriting and SMT'
NOTE = 'Every obligation is regenerated from /repo\'s current source and discharged for all lane values (and all lengths, where loops are involved); trusts the clang front end, the VC generator with its instruction models (validated against the CPU) and z3.'
X86 = ' on every x86 target compiled and on the two portable fallbacks (single-lane and emulated 128-bit)'
P = []
def prop(id, title, statement, text, why, files, mech, over=('inputs', 'configurations'), note='', tech=TECH, observe=''):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why, 'anchors': a}, tech, (NOTE + ' ' + note).strip()))
NA = []
def na(id, reason): NA.append({'property': id, 'reason': reason})
OPS = ['hwy/ops/x86_128-inl.h', 'hwy/ops/x86_256-inl.h', 'hwy/ops/x86_512-inl.h', 'hwy/ops/x86_avx3-inl.h', 'hwy/ops/emu128-inl.h', 'hwy/ops/scalar-inl.h', 'hwy/ops/generic_ops-inl.h']
exec(open(V + '/tools/props_data.py').read())
def main():
    claimed = [p for p in P if p[0]['id'] in U.PROPS]
    for p in P:
        if p[0]['id'] not in U.PROPS and not any(n['property'] == p[0]['id'] for n in NA): print('unclaimed without reason:', p[0]['id'])
    ids = {p[0]['id'] for p in P}
    for k in U.PROPS:
        if k not in ids: print('no property text for', k)
    for p in P:
        assert len(p[0]['title']) <= 80, p[0]['title']
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps(p[0]) + '\n')
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [{'property': p[0]['id'], 'quick_cmd': f"./check.py {p[0]['id']}", 'thorough_cmd': f"./check.py {p[0]['id']} --thorough", 'technique': p[1], 'level': U.PROPS[p[0]['id']].get('level', 'proof'), 'level_note': p[2]} for p in claimed],
         'not_applicable': [n for n in NA if n['property'] not in U.PROPS], 'notes': 'No hooks are needed in /repo. See DESIGN.md.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
main()
