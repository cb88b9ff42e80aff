#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a checks/cNN.py is claimed."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TRACE = 'TLA+ specification %s; executions of the real code recorded at its boundaries and checked by TLC against the specification'
T = {
 'C01': ('TLA+ (TLC): results of scheduled runs validated against ProbeFlowTrace with exact TLA+ polynomial arithmetic', 'Every recorded result is compared exactly, in the specification, with the probed function. Sampled functions, options and schedules; trusted: the harness evaluator and TLC.'),
 'C02': ('TLA+ (TLC): exhaustive model of the job loop plus validation of runs of the real library under a deterministic scheduler', 'Design explored exhaustively for small constants; implementation explored over sampled schedules (random, PCT, starvation) with deadlock and livelock detection.'),
 'C03': ('TLA+ (TLC): exhaustive ProbeFlow model plus trace validation of scheduled runs', 'Every evaluation, delivery and interpolation of the sampled runs is checked to be a step of ProbeFlow.'),
 'C04': ('TLA+ (TLC): exhaustive ProbeFlow model plus trace validation of scheduled runs', 'Every field change and evaluation of the sampled runs is checked to be a step of ProbeFlow.'),
 'C05': ('TLA+ (TLC): trace validation of bunched runs against ProbeFlowTrace', 'Bunch sizes, lane contents and results of the sampled runs are checked by the specification.'),
}
try:
    import importlib.util
    s = importlib.util.spec_from_file_location('tm', os.path.join(V, 'tools', 'techniques.py'))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    T.update(m.T)
except FileNotFoundError: m = None
NA = getattr(m, 'NA', {})
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i in T:
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=T[i][0], level='model_checking', level_note=T[i][1]))
    else: na.append(dict(property=i, reason=NA.get(i, 'The specification and its binding to the code are not finished for this property.')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks: the code under test is observed at its boundaries (public API, file system, threads, linker wrapping).'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
