exec(open('/verif/tools/seeds/c11.py').read().split("seed('c11-reserved")[0])
TBL='''
def table(l, rc, cells, body=b''):
    d = rec(71, l, b' lbt' + b'\\0' * 44)
    d += rec(77, l + 1, struct.pack('<IHHH', 0, len(rc), 2, 0) + b'\\0' * 8 + struct.pack('<%dH' % len(rc), *rc) + b'\\0' * 4)
    for col, row, cs, rs in cells:
        d += plist(l + 1, struct.pack('<4H', col, row, cs, rs) + b'\\0' * 50) + para(l + 1, [0x41, 13])
    return d
def rows(ev):
    out, st = [], []
    for e, m, a in ev:
        if m == 'TableRow':
            if e == '<':
                out.append(0)
                st.append(len(out) - 1)
            else:
                st.pop()
        elif m == 'TableCell' and e == '<':
            out[st[-1] if st else -1] += 1
    return out
'''
seed('c13-covered-cells', 'C13', [(X, """        elif model is TableCell:
            for x in rstbody_tablecell(event, stack, item):
                yield x
""", """        elif model is TableCell and attributes['colspan'] > 0:
            # covered cells make no row
            for x in rstbody_tablecell(event, stack, item):
                yield x
""")], DEMO + TBL + '''
ev = events(para(0, x(11) + [13]) + table(1, [1, 1, 2], [(0, 0, 1, 1), (0, 1, 0, 1), (0, 2, 1, 1), (1, 2, 1, 1)]))
print(names(ev))
i = [k for k, (e, m, a) in enumerate(ev) if m == 'TableCell' and e == '<']
sys.exit(len(i) != 4 or rows(ev) != [1, 1, 2])
''', 'a cell whose stored column span is 0', 'the cell lies outside of its row, and the later rows shift')
seed('c13-nested-body', 'C13', [(X, """        if len(stack) > 0 and ((event is STARTEVENT
                                and stack[-1][0] == level
                                and model is not childmodel) or""", """        if len(stack) > 0 and ((event is STARTEVENT
                                and stack[-1][0] == level
                                and len(stack) < 4
                                and model is not childmodel) or""")], DEMO + TBL + '''
def nest(l, n):
    if n == 0:
        return para(l, [0x41, 13])
    d = para(l, x(11) + [13]) + rec(71, l + 1, b' lbt' + b'\\0' * 44)
    d += rec(77, l + 2, struct.pack('<IHHH', 0, 1, 2, 0) + b'\\0' * 8 + struct.pack('<H', 2) + b'\\0' * 4)
    return d + plist(l + 2) + nest(l + 2, n - 1) + plist(l + 2) + para(l + 2, [0x42, 13])
ev = events(nest(0, 5))
print(names(ev))
sys.exit(rows(ev) != [2] * 5)
''', 'tables nested five deep', 'cells lie in other cells')
