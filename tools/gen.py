#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a contract file are claimed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'multirotor_simulator/multirotor_dynamic_model/'
DY, MO, ST, UT = D + 'dynamics.hpp', D + 'model.hpp', D + 'common/state.hpp', D + 'common/utils.hpp'
PID, PID1 = 'pid_controller/include/pid_controller/pid.hpp', 'pid_controller/include/pid_controller/pid_1d.hpp'
CT = 'multirotor_simulator/multirotor_controllers/'
CO = CT + 'multirotor_controllers.hpp'
ACRO, INDI, POSC, VELC, TRJC = (CT + 'controllers/%s_controller.hpp' % x for x in ('acro', 'indi', 'position', 'velocity', 'trajectory'))
IMU, ODO = 'multirotor_simulator/imu_simulator/imu.hpp', 'multirotor_simulator/imu_simulator/inertial_odometry.hpp'
SIM = 'multirotor_simulator/multirotor_simulator.hpp'

P = []


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None), note=note))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
have = [p for p in P if os.path.exists(os.path.join(V, 'contracts', p['id'] + '.cpp'))]
m = dict(version=1, setup_cmd='python3-vt engine/setup.py',
         checks=[dict(property=p['id'], quick_cmd='python3-vt engine/check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3-vt engine/check.py %s --tier thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'],
                      technique='contracts on the real C++ headers, verification conditions from their LLVM IR, discharged by a polynomial normaliser, Z3 and cvc5',
                      level='proof',
                      level_note='Every obligation is discharged for all inputs over exact real arithmetic (floating point rounding is not modelled). ' + p['note'] +
                      ' Trusted: clang/opt lowering to IR, the verifier in engine/, Z3, cvc5; callee bodies are verified in place.')
                 for p in have],
         not_applicable=[dict(property=p['id'], reason='no contract written yet') for p in P if p not in have],
         notes='See DESIGN.md. No hooks are needed in /repo; the commits there are fix: commits.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
