"""Prints, for DESIGN.md, the bounds and last measured cost of every check (run from /verif after the checks)."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for i in range(1, 60):
    c = 'C%02d' % i
    try:
        m = importlib.import_module('mc.checks.' + c.lower())
    except ImportError:
        continue
    e = json.load(open('evidence/{}.json'.format(c)))
    v = e['coverage']
    print('* **{}** ({}): {}. *Thorough:* {}. Last quick run: {}, {} s.'.format(
        c, m.LEVEL.replace('_', ' '), m.BOUNDS['quick'], m.BOUNDS['thorough'],
        ', '.join('{} {}'.format(v[k], k.replace('_', ' ')) for k in ('states', 'transitions', 'traces_validated_against_impl', 'evaluations') if k in v), e['wall_s']))
