#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below and props.PROPS"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

T = 'app/tenncor/'
P = []


def prop(i, title, statement, over, qtext, why, files, mech, level_note='', na=None):
    P.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=level_note, _na=na))


exec(open(os.path.join(HERE, 'meta_props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in props.PROPS and not props.PROPS[p['id']].get('off'):
            checks.append(dict(property=p['id'], quick_cmd='./check.py %s quick' % p['id'], thorough_cmd='./check.py %s thorough' % p['id'],
                               technique='contract-based deductive verification of the current source (VCs from clang AST, z3/cvc5); failing obligations replayed on the real code',
                               level='proof', level_note=p['_note']))
        else:
            na.append(dict(property=p['id'], reason=p['_na'] or 'check not built'))
    m = dict(version=1, setup_cmd='python3-vt -c "import z3" && command -v cvc5 g++ protoc >/dev/null', checks=checks, not_applicable=na,
             notes='See DESIGN.md. VERIF_REPO overrides /repo for development only.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import subprocess
    v = '''
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('%s/properties.jsonl'): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('%s/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid')''' % (HERE, HERE)
    subprocess.run(['python3-vt', '-c', v])


main()
