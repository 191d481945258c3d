#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'sim'))
sys.dont_write_bytecode = True
NA = "Needs no schedule, time, I/O, crash or second party: a pure function of its arguments within one call, so there is nothing for a simulator to decide; generating inputs for it would be property testing, another technique."
checks, na = [], []
with open(os.path.join(here, 'properties.jsonl')) as f:
    for l in f:
        d = json.loads(l)
        p = os.path.join(here, 'sim', 'props', d['id'].lower() + '.py')
        if os.path.exists(p):
            m = importlib.import_module('props.' + d['id'].lower())
            checks.append({'property': d['id'], 'quick_cmd': 'python3 check.py ' + d['id'] + ' --tier quick', 'thorough_cmd': 'python3 check.py ' + d['id'] + ' --tier thorough',
                           'evidence_file': 'evidence/%s.json' % d['id'],
                           'technique': getattr(m, 'TECHNIQUE', 'deterministic simulation with fault injection'), 'level': getattr(m, 'LEVEL', 'exploration'),
                           'level_note': m.RULE})
        elif d['id'] >= 'C30':
            na.append({'property': d['id'], 'reason': NA})
        else:
            na.append({'property': d['id'], 'reason': 'check not built yet'})
man = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
       'notes': "No hooks in /repo: every seam is outside it (system calls by LD_PRELOAD, worker pools, threads, clock, network and external commands by substitution in the simulated process, hash seed and heap layout by interpreter start). See DESIGN.md and known_findings.txt."}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
