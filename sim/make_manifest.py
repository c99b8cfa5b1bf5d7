"""Writes MANIFEST.json from the registered scenarios and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core, notes, scenario  # noqa: E402

PURE = 'pure function of its input: no schedule, clock, fault, crash or I/O takes part in whether it holds, so simulating those decides nothing about it'
NA = {'N05': 'which inputs raise is a pure function of the input text (failures injected from outside are decided under C04, C05 and C06)'}


def main():
    core.boot()
    scs = scenario.load()
    checks, na = [], []
    with open(os.path.join(core.VERIF, 'properties.jsonl')) as f:
        props = [json.loads(line) for line in f]
    for p in props:
        pid = p['id']
        if pid in scs:
            sc = scs[pid]
            checks.append({
                'property': pid,
                'quick_cmd': f'python3 check.py {pid}',
                'thorough_cmd': f'python3 check.py {pid} --tier thorough',
                'evidence_file': f'evidence/{pid}.json',
                'technique': 'deterministic simulation with fault injection: ' + notes.T[pid][0],
                'level': sc.level,
                'level_note': 'Seeded search, no proof: it covers the runs of the tier, with all plans drawn from VERIF_SEED. ' + notes.T[pid][1],
            })
        else:
            na.append({'property': pid, 'reason': NA.get(pid, PURE)})
    doc = {'version': 1, 'setup_cmd': 'python3 check.py --self-test',
           'hooks': {'guard': 'none', 'enable': 'no hooks: every seam is patched from outside at run time; /repo has only fix: commits', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. python3 replay.py <file> executes the replay file of a violation again.'}
    with open(os.path.join(core.VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
