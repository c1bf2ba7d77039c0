exec(open('/verif/tools/seed.py').read())
X = 'src/hwp5/xmlmodel.py'
DEMO = '''
from hwp5.binmodel import Paragraph, TableControl, GShapeObjectControl, ShapeComponent
from hwp5.treeop import STARTEVENT, ENDEVENT
from hwp5 import xmlmodel
def run(kinds):
    """names, ')' closes"""
    def events():
        st = []
        for k in kinds:
            if k == ')':
                yield ENDEVENT, st.pop()
            else:
                st.append((dict(P=Paragraph, T=TableControl, G=GShapeObjectControl, S=ShapeComponent)[k], {}, {}))
                yield STARTEVENT, st[-1]
    out = []
    for e, (m, a, c) in xmlmodel.give_elements_unique_id(events()):
        if e is STARTEVENT:
            out.append([(k, v) for k, v in a.items() if k.endswith('_id')])
    return out
'''
seed('c16-nested-drawing', 'C16', [(X, """                attributes['gshape_id'] = gshape_id
                gshape_id += 1
            elif""", """                attributes['gshape_id'] = gshape_id
            elif"""), (X, """                shape_id += 1
        yield event, item
""", """                shape_id += 1
        elif model == GShapeObjectControl:
            # the next one
            gshape_id += 1
        yield event, item
""")], DEMO + '''
got = run('PGSPGS)))))G))')
print(got)
ids = [v for l in got for k, v in l if k == 'gshape_id']
sys.exit(ids != [0, 1, 2])
''', 'a drawing object inside of another one', 'the inner drawing gets the id of the outer one')
seed('c16-shape-per-drawing', 'C16', [(X, """                attributes['gshape_id'] = gshape_id
                gshape_id += 1
            elif""", """                attributes['gshape_id'] = gshape_id
                # shapes are known by those of the drawing
                shape_id = gshape_id
                gshape_id += 1
            elif""")], DEMO + '''
got = run('PGS)S)S))G)GS)S))')
print(got)
ids = [v for l in got for k, v in l if k == 'shape_id']
sys.exit(ids != [0, 1, 2, 3, 4])
''', 'a drawing of several shapes followed by another', 'shapes of two drawings have the same id')
