"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from one table:  python3 tools/meta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'Unit tests evaluate a handful of inputs; the property quantifies over all of them.'
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, level='proof', technique=None):
    a = dict(files=['Merlin++/' + f for f in files.split()], mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why, anchors=a),
                  note=note, level=level, technique=technique))


def na(id, *a, reason=''):
    n = len(P)
    prop(id, *a, note='')
    NA.append((P[n]['rec'], reason))
    del P[n]


exec(open(os.path.join(V, 'tools', 'table.py')).read())
TECH = ('contract-based deductive verification: contracts in contracts/*.cpp over the real functions compiled to LLVM IR; weakest-precondition style '
        'symbolic execution; obligations discharged by a polynomial-ring normal form, z3 and cvc5')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p['rec']) + '\n')
    for r, _ in NA:
        f.write(json.dumps(r) + '\n')
m = dict(version=1, setup_cmd='python3-vt -m compileall -q engine && python3-vt -c "import z3, engine.run"',
         checks=[dict(property=p['rec']['id'], quick_cmd='python3-vt -m engine.run %s --tier quick' % p['rec']['id'],
                      thorough_cmd='python3-vt -m engine.run %s --tier thorough' % p['rec']['id'],
                      evidence_file='evidence/%s.json' % p['rec']['id'], technique=p['technique'] or TECH, level=p['level'], level_note=p['note']) for p in P],
         not_applicable=[dict(property=r['id'], reason=why) for r, why in NA])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for p in P:
    assert len(p['rec']['title']) <= 80, p['rec']['title']
print(len(P), 'claimed', len(NA), 'not applicable')
