#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, checks.py and the notes below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
    'C22': 'runtime monitoring: linearizability check of recorded concurrent histories, ThreadSanitizer, AddressSanitizer/UBSan',
    'C29': 'runtime monitoring: the launch files executed and every node they name started from its real main on a monitored stand-in bus, AddressSanitizer/UBSan',
    'C30': 'runtime monitoring: the launched systems driven through simulated worlds, maps, poses and odometry against the simulated truth',
    'C28': 'runtime monitoring: the real node callback under generated clouds with an independent decoder as oracle',
}
NODES = {'C01', 'C07', 'C16', 'C24', 'C25', 'C26', 'C27', 'C29', 'C30'}
checks = []
for p in props:
    i = p['id']
    if i not in CHECKS:
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 run.py %s' % i,
        'thorough_cmd': 'python3 run.py %s --thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH.get(i, 'runtime monitoring: generated and hostile workloads on the real code, independent reference as online oracle, AddressSanitizer/UBSan'),
        'level': 'exploration',
        'level_note': 'Holds on every execution observed (counts in the evidence file); no claim beyond them. ' + (
            'ROS 2 is not installed: the node runs against a stand-in bus, clock and tf that follow rclcpp/tf2 Humble. ' if i in NODES | {'C02', 'C03', 'C04', 'C09', 'C15'} else '') +
            ('Trusts the stand-ins for rclpy and sensor_msgs and the oracle in harness/.' if i == 'C28' else
             'Trusts g++, its sanitizers, Eigen, PCL and the oracle in harness/.'),
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 -m py_compile run.py checks.py',
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': 'No check is registered for it yet.'} for p in props if p['id'] not in CHECKS],
    'notes': 'No hooks were needed in /repo: every harness compiles the sources of the working tree, applications included.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(m['not_applicable']), 'not claimed')
