import json, sys
sys.path[:0] = ['/verif/vc', '/verif/vc/specs']
import props
props.load_specs()
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.PROPS and i not in props.NOT_CLAIMED:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='contract-based deductive verification of the real C source (own VC generator over the clang AST, z3)',
                           level=p.get('level', 'proof'), level_note=p.get('note', props.NOTE)))
    else:
        na.append(dict(property=i, reason=props.NOT_CLAIMED.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: contracts are attached to the real functions by name and the source is parsed from /repo on every run.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
