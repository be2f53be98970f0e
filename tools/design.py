"""Write DESIGN.md from design/*.md, meta.py, the cases and seeded/."""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta
from engine import registry


def fold(s, pre='', w=79):
    import textwrap
    return '\n'.join(textwrap.wrap(s, w, initial_indent=pre,
                                   subsequent_indent=' ' * len(pre)))


def main():
    rd = lambda n: open(os.path.join(HERE, 'design', n)).read()
    out = [rd('intro.md'), '## The properties\n']
    oracle = {}
    key = None
    for line in rd('oracles.md').splitlines():
        if line.startswith('C') and line[1:3].isdigit():
            key, line = line.split(' ', 1)
            oracle[key] = ''
        if key:
            oracle[key] += ' ' + line.strip()
    nas = dict(meta.NA)
    for i in sorted(meta.M):
        if i in nas:
            continue
        try:
            p = registry.load(i)
        except ModuleNotFoundError:
            continue
        m = meta.M[i]
        q = len(p.cases_for('quick'))
        out.append('### %s %s\n' % (i, m['title']))
        out.append(fold('Oracle: ' + oracle.get(i, '').strip(), '* '))
        out.append(fold('Bounds: %s. Outside: %s.' % (
            p.bounds, p.outside or '-'), '* '))
        if p.assumptions:
            out.append(fold('Assumptions: ' + '; '.join(p.assumptions) + '.',
                            '* '))
        out.append(fold('Encoded: ' + ', '.join(p.functions) + '.', '* '))
        out.append(fold('Cases: %d quick, %d thorough. Why tests cannot '
                        'settle it: %s' % (q, len(p.cases),
                                           m['why_tests_cant']), '* '))
        out.append('')
    if meta.NA:
        out.append('## Not applicable\n')
        for i, r in meta.NA:
            out.append(fold('%s %s: %s' % (i, meta.M[i]['title'], r), '* '))
        out.append('')
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    fx = '\n'.join(fold(f, '* ') for f in kf['fixed'])
    fx += '\n' + '\n'.join(fold('known: property=%s %s: %s' % (
        f['property'], f['case'], f['what']), '* ') for f in kf['findings'])
    out.append(rd('outro.md').replace('%FIXED%', fx))
    out.append('## Planted bugs\n\nEach was planted from the text of a '
               'property, builds, passes the tests, and has a\ndemonstration;'
               ' the last column is the check that reports it.\n')
    out.append('| bug | property | what it needs | caught by |')
    out.append('|---|---|---|---|')
    caught = json.load(open(os.path.join(HERE, 'design', 'caught.json')))
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        out.append('| %s | %s | %s | %s |' % (
            n, d['property'], d['needs'].replace('|', '/'),
            caught.get(n, '')))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
