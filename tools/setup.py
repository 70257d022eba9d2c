#!/usr/bin/env python3
"""Nothing is compiled: checks that the framework's own files parse and are complete."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    n = 0
    for sub in ('engine', 'lib', 'spec', 'rules', 'tools', '.'):
        d = os.path.join(HERE, sub)
        for root, dirs, files in os.walk(d) if sub != '.' else [(HERE, [], os.listdir(HERE))]:
            for f in files:
                if f.endswith('.py'):
                    ast.parse(open(os.path.join(root, f), encoding='utf-8').read(), f)
                    n += 1
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json'), encoding='utf-8'))
    for c in man['checks']:
        if not os.path.exists(os.path.join(HERE, 'spec', c['property'] + '.py')):
            sys.exit('no rules for ' + c['property'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    print('%d files, %d checks: nothing to build' % (n, len(man['checks'])))


if __name__ == '__main__':
    main()
