"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'tensorflow_model_optimization/python/core/'
P, NA = [], []
TECH = ('contract-based deductive verification: pre/postconditions on the real Python functions, '
        'verification conditions generated from their execution on symbolic tensors, discharged by z3/cvc5')
TECHB = ('contracts on the real functions checked by bounded evaluation (seeded inputs) - '
         'bounded stand-in, no obligation counted as proved')
TECHM = TECH + '; functions outside the verifier\'s reach carry a bounded contract check'
TECHF = (TECH + ': per-layer contracts for all inputs, a complete case split by the same generator over an enumerated family '
         'of model graphs (labelled enumerated, not counted as proved), and bounded checks of whole Keras models')
TECHE = (TECH + ' - for every value and size, by a complete case split over a listed set of structural parameters '
         '(labelled enumerated, not counted as proved)')
NOTEE = (' These parameters are listed, not symbolic, so the obligations are reported apart (enumerated_obligations).')
NOTE = ('Every path obligation is discharged for all inputs and sizes within the stated preconditions. '
        'Trusts: the TF operation contracts in dv/ops.py, floats as reals, the dv engine, z3/cvc5.')
NOTEB = 'Bounded: the contract is evaluated on the seeded inputs described in the evidence; nothing is counted as proved.'
NOTEF = ('The obligations on enumerated graphs hold for those graphs only and are reported apart (enumerated_obligations); '
         'Keras building a model from its configuration is assumed there and exercised by the bounded whole-model checks.')


def prop(id, title, statement, over, text, why, files, mech, level='proof', tech=None, note=None, state=None):
  d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
           why_tests_cant=why, anchors=dict(files=[B + f for f in files], mechanism=[
               dict(name=n, where=B + w) for n, w in mech]))
  if state:
    d['anchors']['state'] = [dict(name=n, meaning=m, where=B + w) for n, m, w in state]
  P.append((d, level, tech or (TECH if level == 'proof' else TECHB), note or (NOTE if level == 'proof' else NOTEB)))


def na(reason_, *a, **k):
  prop(*a, **k)
  d = P.pop()[0]
  NA.append((d, reason_))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

if __name__ == '__main__':
  with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, _, _, _ in P:
      f.write(json.dumps(d) + '\n')
    for d, _ in NA:
      f.write(json.dumps(d) + '\n')
  m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[
      dict(property=d['id'], reason=r) for d, r in NA],
      notes='Contract verifier in dv/, contracts in contracts/*.py; see DESIGN.md. Exit codes: 0 held, '
            '1 violation (VIOLATION line), anything else: the check itself could not decide.')
  for d, level, tech, note in P:
    i = d['id']
    m['checks'].append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i,
                            thorough_cmd='./check.sh %s --tier thorough' % i,
                            evidence_file='evidence/%s.json' % i, technique=tech, level=level,
                            level_note=note))
  with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
  print(len(P), 'claimed', len(NA), 'not applicable')
  try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
      jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schemas ok')
  except ImportError:
    print('no jsonschema')
