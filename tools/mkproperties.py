"""Writes /verif/properties.jsonl (kept as a script so that ids, anchors and
statements can be reviewed together)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))
S = 'src/hwp5/'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties_src.py')).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
