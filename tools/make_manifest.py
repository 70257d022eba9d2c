#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has rules under spec/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NA = {
    'N01': 'numerical accuracy of transcendental formulas for every geometry: no sound static argument about floating-point error of exp/log/erfc/hankel chains is in reach',
    'N02': 'statistical convergence of random estimates is a limit statement over executions; nothing in the source text decides it',
    'N03': 'wall-clock behaviour depends on the machine, the scheduler and the handlers\' run time, which static analysis cannot bound',
}
PENDING = 'rules for this property are not written yet'

NOTE = ('Abstract interpretation of the current source without running it: each rule builds abstract inputs (unknown numbers, '
        'texts, objects, flags; both branches of every conditional are kept), follows the calls through the call graph and compares '
        'the resulting values, exceptions and effects with those the property demands for all values of the inputs. %s'
        'Unbounded loops are summarised or unrolled to a fixed bound given in the rule. Trusted: Python semantics as modelled in '
        'engine/, library models in engine/ext.py and lib/, real-number instead of floating-point arithmetic. Code the analysis '
        'cannot decide is reported as undecided in the evidence, not as a violation.')
SPECIAL = {
    'S07': 'Additionally a whole-package lint over the syntax tree (rules/S07.py) rejects writes to module, class and default-argument state. ',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif os.path.exists(os.path.join(HERE, 'spec', i + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': 'python3 run_check.py %s --tier quick' % i,
                'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'abstract interpretation of the syntax tree (gated value and effect summaries) compared with the '
                             'demanded summary' + (', plus a state-sharing lint over the syntax tree' if i == 'S07' else ''),
                'level': 'other',
                'level_note': NOTE % SPECIAL.get(i, ''),
            })
        else:
            na.append({'property': i, 'reason': PENDING})
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
