"""Write properties.jsonl and MANIFEST.json from meta.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta

ids = sorted(i for i in meta.M
             if i in {n for n, _ in meta.NA}
             or os.path.exists(os.path.join(HERE, 'props',
                                            i.lower() + '.py')))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i in ids:
        f.write(json.dumps(meta.M[i]) + "\n")
na = [{'property': p, 'reason': r} for p, r in meta.NA]
nas = {p for p, _ in meta.NA}
man = {'version': 1,
       'setup_cmd': './setup.sh',
       'checks': [{
           'property': i,
           'quick_cmd': './check.sh %s quick' % i,
           'thorough_cmd': './check.sh %s thorough' % i,
           'technique': 'bounded symbolic execution of the Python source '
           'with z3; counterexamples replayed on the real code',
           'level': 'other',
           'level_note': 'Within the bounds stated in the evidence, every '
           'feasible path of the encoded functions is explored and every '
           'obligation is discharged by the solver over all input values; '
           'exact reals stand for floats, library routines are modelled as '
           'described in DESIGN.md.',
       } for i in ids if i not in nas],
       'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(man['checks']), 'checks')
