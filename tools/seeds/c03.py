exec(open('/verif/tools/seed.py').read())
T = 'src/hwp5/treeop.py'
seed('c03-jump', 'C03', [(T, """        while len(stack) < level + 1:
            raise Exception('invalid level: %d, %d, %s' %
                            (level, len(stack) - 1, item))
        assert(len(stack) == level + 1)

        yield stack, item
""", """        if level - len(stack) > 1:
            raise Exception('invalid level: %d, %d, %s' %
                            (level, len(stack) - 1, item))

        yield stack, item
""")], '''
from hwp5.treeop import *
try:
    got = [(list(a), i) for a, i in prefix_ancestors_from_level([(0, 'a'), (2, 'b'), (1, 'c')])]
    print(got)
    sys.exit(1)
except Exception as e:
    print(repr(e))
''', 'a record two levels below its predecessor', 'the record is attached to a wrong parent instead of being refused')
seed('c03-subevents', 'C03', [(T, """            if level > 0:
                level -= 1
            else:
                return
""", """            if level > 0:
                level = (level - 1) % 4
            else:
                return
""")], '''
from hwp5.treeop import *
lv = [0, 1, 2, 3, 4, 5, 5, 1, 0]
evs = prefix_event([(l, i) for i, l in enumerate(lv)])
next(evs)
got = [(e.__name__, i) for e, i in iter_subevents(evs)]
print(got)
sys.exit(got[-1] != ('ENDEVENT', 0))
''', 'a sub-tree nested five levels deep', 'the sub-tree ends before its last event')
