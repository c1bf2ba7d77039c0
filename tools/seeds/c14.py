exec(open('/verif/tools/seeds/c11.py').read().split("seed('c11-reserved")[0])
seed('c14-caption-owner', 'C14', [(X, """                                and stack[-1][0] == level
                                and model is not childmodel) or""", """                                and stack[-1][0] == level
                                and issubclass(model, (parentmodel, TableBody))) or""")], DEMO + '''
d = para(0, x(11) + [13]) + rec(71, 1, b' osg' + b'\\0' * 44) + plist(2) + para(2, [0x41, 13])
d += rec(76, 2, b'cer$cer$' + b'\\0' * 240) + plist(3) + para(3, [0x42, 13])
ev = events(d)
print(names(ev))
st = []
for e, m, a in ev:
    if e == '<':
        if m == 'ShapeComponent':
            sys.exit(st[-1] != 'GShapeObjectControl')
        st.append(m)
    else:
        st.pop()
''', 'a drawing object with a caption', 'the shape of the object and its text lie in the caption')
seed('c14-columns-inner', 'C14', [(X, """                if split.new_columnsdef:
                    if stack[-1][0] is ColumnSet:
                        yield ENDEVENT, stack.pop()
""", """                if split.new_columnsdef:
                    if stack[-1][0] is ColumnSet and not split.new_page:
                        yield ENDEVENT, stack.pop()
""")], DEMO + '''
ev = events(para(0, [0x41, 13], split=2) + para(0, [0x42, 13], split=6) + para(0, [0x42, 13]))
print(names(ev))
depth = most = 0
for e, m, a in ev:
    if m == 'ColumnSet':
        depth += 1 if e == '<' else -1
        most = max(most, depth)
sys.exit(most != 1 or depth != 0)
''', 'a paragraph that starts columns and a page at once, after an earlier column set', 'the column set lies in the earlier one')
seed('c14-empty-list', 'C14', [(X, """        if issubclass(model, parentmodel):
            if event is STARTEVENT:
                stack.append((level, item))
                yield event, item
            else:
                pass
""", """        if issubclass(model, parentmodel):
            if event is STARTEVENT:
                if attributes.get('paragraphs', 1) or parentmodel is TableBody:
                    stack.append((level, item))
                yield event, item
            elif not (stack and stack[-1][1] is item):
                # no paragraphs
                yield event, item
""")], DEMO + '''
d = para(0, x(11) + [13]) + rec(71, 1, b'  nf' + b'\\0' * 20) + rec(72, 2, struct.pack('<HHI', 0, 0, 0)) + para(2, [0x41, 13])
ev = events(d)
print(names(ev))
st = []
for e, m, a in ev:
    if e == '<':
        if m == 'Paragraph' and len(st) > 1:
            sys.exit(st[-1] != 'ListHeader')
        st.append(m)
    else:
        st.pop()
''', 'a list header whose stored count of paragraphs is 0', 'its paragraphs lie outside of the list')
