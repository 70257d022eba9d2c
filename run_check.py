#!/usr/bin/env python3
"""run_check.py <ID> [--tier quick|thorough] [--case SUBSTRING] [--verbose]

Decides property <ID> on the current source tree.  Exit 0: holds on everything
that could be decided (what could not is printed and in the evidence file);
1: violation (printed)."""
import argparse
import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)
sys.dont_write_bytecode = True


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split('|')[0].split() if '=' in x)
                out.append((d.get('property'), d.get('key'), l.split('|', 1)[1].strip() if '|' in l else ''))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    from engine.cases import Runner, AnchorError
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = {}

    def work():
        try:
            r = Runner()
            r.tier = a.tier
            r.deadline = t0 + (600 if a.tier == 'quick' else 800)
            box['r'] = r
            r.run(a.id, a.case)
            extra = os.path.join(HERE, 'rules', a.id + '.py')
            if os.path.exists(extra):
                import importlib
                mod = importlib.import_module('rules.' + a.id)
                mod.check(r)
        except AnchorError as e:
            box['anchor'] = str(e)
        except BaseException as e:       # noqa
            import traceback
            box['crash'] = traceback.format_exc()
    th = threading.Thread(target=work)
    th.start()
    th.join()
    if 'crash' in box:
        print(box['crash'], file=sys.stderr)
    if 'r' not in box:
        print('ANALYSIS-FAILED property=%s' % a.id)
        sys.exit(3)
    r = box['r']
    if 'anchor' in box:
        r.undecided.append(('load', 'anchor lost: ' + box['anchor']))
    if 'crash' in box:
        r.undecided.append(('run', 'the analysis failed: ' + box['crash'].strip().splitlines()[-1]))
    wall = time.time() - t0
    known = [(p, k, d) for p, k, d in known_findings() if p == a.id]
    viol = []
    for f in r.findings:
        hit = [k for k in known if k[1] == f.key().replace(' ', '_')]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (a.id, hit[0][2]))
        else:
            viol.append(f)
    for n, why in r.undecided:
        print('undecided: %s: %s' % (n, why))
    if a.verbose:
        for n, k in r.cases:
            print('case %s: %d comparisons' % (n, k))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    fns = sorted('%s.%s' % k for k in r.m.visited_fns if k[0].startswith('pysim'))
    ev = {
        'property': a.id, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Abstract interpretation of the current source (gated-value analysis of both branches of every '
                           'conditional, calls followed through the call graph, loops unrolled or summarised); every rule '
                           'compares the value, exceptions and effects the code yields with those the property demands, '
                           'for all values of the abstract inputs.',
            'rules': [n for n, k in r.cases],
            'rules_evaluated': len(r.cases),
            'comparisons': r.obligations,
            'path_leaves_compared': r.leafpairs,
            'undecided': ['%s: %s' % u for u in r.undecided],
            'functions_analysed': fns,
            'functions_analysed_count': len(fns),
            'modules_read': sorted(n for n in r.m.prog.modules if n.startswith('pysim')),
            'violations': len(viol),
        },
        'wall_s': round(wall, 3),
    }
    ev['coverage'].update(getattr(r, 'extra_coverage', {}))
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.id + '.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s: %d rules, %d comparisons, %d functions analysed, %d undecided, %.1f s' % (
        a.id, len(r.cases), r.obligations, len(fns), len(r.undecided), wall))
    if viol:
        lines = []
        for f in viol:
            lines.append('rule %s: %s differs' % (f.case, f.what))
            lines.append('  when     %s' % f.path[:1500])
            lines.append('  code     %s' % f.got[:1500])
            lines.append('  demanded %s' % f.want[:1500])
            for l in f.locs:
                lines.append('  at %s' % l)
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.txt' % a.id)
        open(path, 'w', encoding='utf-8').write('\n'.join(lines) + '\n')
        print('\n'.join(l[:300] for l in lines[:30]))
        if len(lines) > 30:
            print('... %d differences in all, see the replay file' % len(viol))
        print('VIOLATION property=%s replay=%s' % (a.id, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
