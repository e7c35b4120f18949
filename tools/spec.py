#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json and rules.json (run: python3 tools/spec.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
DDP, DDPH, BOX, DPR = 'nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp', 'nmpc_ddp/include/nmpc_ddp/DDPSolver.h', 'nmpc_ddp/include/nmpc_ddp/BoxQP.h', 'nmpc_ddp/include/nmpc_ddp/DDPProblem.h'
FM, FMH, FPR, MU = 'nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp', 'nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h', 'nmpc_fmpc/include/nmpc_fmpc/FmpcProblem.h', 'nmpc_fmpc/include/nmpc_fmpc/MathUtils.h'
CG, CGH, CPR, GM, OD = 'nmpc_cgmres/src/CgmresSolver.cpp', 'nmpc_cgmres/include/nmpc_cgmres/CgmresSolver.h', 'nmpc_cgmres/include/nmpc_cgmres/CgmresProblem.h', 'nmpc_cgmres/include/nmpc_cgmres/Gmres.h', 'nmpc_cgmres/include/nmpc_cgmres/OdeSolver.h'
P = []

def prop(id, title, statement, over, text, why, files, mech, rule, technique, note, observe=None):
    assert len(title) <= 80, title
    for k in over:
        assert k in ('schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences')
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule,
                  technique=technique, note=note, observe=observe or []))

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                             observe_at=p['observe'], hook_needed=None))) + '\n')
man = dict(version=1, setup_cmd='python3 check.py --setup',
           checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                        thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                        technique=p['technique'], level='exploration', level_note=p['note']) for p in P if p['id'] in CHECKS],
           not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p['id'] not in CHECKS],
           notes='No hooks: every check uses the public API of the headers in /repo. Replay: python3 check.py <id> --replay <file>.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
json.dump({p['id']: p['rule'] for p in P}, open(os.path.join(HERE, 'rules.json'), 'w'), indent=1)
print(len(P), 'properties', len(man['checks']), 'checks')
