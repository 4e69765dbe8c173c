"""Writes properties.jsonl and MANIFEST.json from catalog.py (python3-vt engine/gen.py)."""
import json
import os
from catalog import N
from specs import PROPS
try:
    from catalog import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = {x['property'] for x in NOT_APPLICABLE}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in N:
        f.write(json.dumps({k: v for k, v in p.items() if k != 'bounds'}) + '\n')
checks = [dict(property=p['id'], quick_cmd='python3-vt engine/check.py ' + p['id'],
               thorough_cmd='python3-vt engine/check.py %s --tier thorough' % p['id'],
               technique='symbolic execution of the compiled library with the scalar type replaced by SMT terms; equality with an independent reference decided by Z3 per path',
               level='model_checking',
               level_note='Every explored path is decided for all real values of the inputs. Bounds: %s. Trusts: exact real arithmetic instead of floating point, the reference formulas in harness/, Z3, and the scalar-type substitution.' % p['bounds'])
          for p in N if p['id'] not in na and p['id'] in PROPS]
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && g++ --version',
         hooks=dict(guard='COOLDIFF_SYMBOLIC', enable='-DCOOLDIFF_SYMBOLIC=\'"symx_hook.hpp"\' on the compiler command line (engine/build.py)',
                    source_commits=['08a4c220d3aa9ae0479b1c6ccdd5cfec26a31066']),
         checks=checks, not_applicable=NOT_APPLICABLE,
         notes='Generated by engine/gen.py from engine/catalog.py. See DESIGN.md.')
missing = [p['id'] for p in N if p['id'] not in PROPS and p['id'] not in na]
assert not missing, missing
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
