exec(open('/verif/tools/seeds/c11.py').read().split("seed('c11-reserved")[0])
seed('c12-reopen-order', 'C12', [(X, """        # fields temporarily closed; open them again
        for field_item in stack:
""", """        # fields temporarily closed; open them again
        for field_item in reversed(stack):
""")], DEMO + '''
ev = events(para(0, x(3) + x(3) + [0x41, 0x42] + x(4) + x(4) + [13], (0, 17)) + field(1, 1) + field(1, 2))
t = [(e, a['id']) for e, m, a in ev if m == 'FieldHyperLink']
print(t)
st = []
for e, i in t:
    if e == '<':
        st.append(i)
    elif st.pop() != i:
        sys.exit(1)
''', 'two fields, one in the other, over a line break', 'they are opened again in the wrong order, so that the inner ends first by the name of the outer')
seed('c12-field-end-text', 'C12', [(X, """        # fields still not closed; temporarily close them
        for field_item in reversed(stack):
            yield ENDEVENT, field_item
        yield event, item
""", """        # fields still not closed; temporarily close them
        for field_item in reversed(stack[:8]):
            yield ENDEVENT, field_item
        yield event, item
        del stack[8:]
""")], DEMO + '''
ev = events(para(0, x(3) * 10 + [0x41] + x(4) * 10 + [13], (0, 81)) + b''.join(field(1, k) for k in range(10)))
print(names(ev))
sys.exit(not balanced(ev))
''', 'more than eight fields open at the end of a line', 'the document is not balanced')
