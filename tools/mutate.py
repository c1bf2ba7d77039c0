"""mutate.py OUT N JOBS SEED FILE=CHECK,CHECK... : random small changes of files, which of the checks see them.
Works on copies of /repo in /tmp/mut.  Results: one JSON line each in OUT."""
import ast, json, os, random, shutil, subprocess, sys, threading, time
OUT, N, JOBS, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
MAP = [a.split('=') for a in sys.argv[5:]]
W = '/tmp/mut'
rng = random.Random(SEED)


def mutants(path):
    s = open(path, encoding='utf-8').read()
    lines = s.split('\n')
    b = [l.encode() for l in lines]
    tree = ast.parse(s)
    starts = [0]
    for l in b:
        starts.append(starts[-1] + len(l) + 1)
    pos = lambda line, col: starts[line - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    src = s.encode()
    out = []

    def add(a, e, new, what):
        if src[a:e] != new.encode():
            out.append((a, e, new, what))
    text = lambda n: src[slice(*span(n))].decode()
    docstrings = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docstrings.add(id(n.body[0]))
    SW = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    OP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.Mod: '*', ast.FloorDiv: '*'}

    def walk(n, infunc):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(*span(n), '%s %s %s' % (text(n.left), SW[type(n.ops[0])], text(n.comparators[0])), 'compare')
        if isinstance(n, ast.BoolOp) and infunc:
            add(*span(n), (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % text(v) for v in n.values), 'bool')
            add(*span(n), text(n.values[0]), 'bool first')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(*span(n), text(n.operand), 'not')
        if isinstance(n, ast.BinOp) and type(n.op) in OP and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in OP and isinstance(n.left, ast.Constant) and isinstance(n.left.value, int):
            add(*span(n), '(%s) %s (%s)' % (text(n.left), OP[type(n.op)], text(n.right)), 'op')
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(*span(n), str(n.value + 1), 'const+1')
            if n.value > 0:
                add(*span(n), str(n.value - 1), 'const-1')
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(*span(n), str(not n.value), 'bool const')
        if isinstance(n, ast.If) and infunc:
            add(*span(n.test), 'True', 'if true')
            add(*span(n.test), 'False', 'if false')
        if isinstance(n, ast.IfExp):
            add(*span(n), text(n.body), 'ifexp')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Break, ast.Continue, ast.Delete)) and infunc and id(n) not in docstrings and 'logger' not in text(n) and 'print' not in text(n)[:5]:
            add(*span(n), 'pass', 'drop')
        if isinstance(n, ast.Return) and n.value is not None and infunc:
            add(*span(n), 'return None', 'return None')
        if isinstance(n, ast.Call) and infunc and 'logger' not in text(n.func):
            if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                add(*span(n), '%s(%s, %s)' % (text(n.func), text(n.args[1]), text(n.args[0])), 'swap')
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'dict', 'reversed', 'tuple') and len(n.args) == 1 and not n.keywords:
                add(*span(n), text(n.args[0]), 'uncall')
        if isinstance(n, ast.Try):
            for h in n.handlers:
                pass
            if n.finalbody:
                add(*span(n.finalbody[0]), 'pass', 'no finally')
        if isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                add(*span(n), text(n.lower) + ':', 'slice')
        inn = infunc or isinstance(n, (ast.FunctionDef, ast.Lambda))
        for c in ast.iter_child_nodes(n):
            if id(c) in docstrings:
                continue
            walk(c, inn)
    walk(tree, False)
    res = []
    for a, e, new, what in out:
        t = src[:a] + new.encode() + src[e:]
        try:
            compile(t, path, 'exec')
        except (SyntaxError, ValueError):
            continue
        line = src[:a].count(b'\n') + 1
        res.append((t, line, what, src[a:e].decode()[:80], new[:80]))
    return res


todo = []
for f, checks in MAP:
    ms = mutants(os.path.join('/repo/src/hwp5', f))
    # not the same place and what all over
    rng.shuffle(ms)
    n = max(1, round(N * len(ms) / 100)) if N < 0 else min(N, len(ms))
    print(f, len(ms), 'mutants,', n, 'taken', flush=True)
    todo += [(f, checks.split(',')) + m for m in ms[:n]]
rng.shuffle(todo)
lock = threading.Lock()
outf = open(OUT, 'a')


def run(cmd, env, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=os.environ.get('MVERIF', '/verif'), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ''


def worker(k):
    d = os.path.join(W, 'w%s-%d' % (SEED, k))
    if not os.path.exists(d):
        os.makedirs(W, exist_ok=True)
        shutil.copytree('/repo', d, symlinks=True)
    while True:
        with lock:
            if not todo:
                return
            f, checks, t, line, what, old, new = todo.pop()
        p = os.path.join(d, 'src/hwp5', f)
        orig = open(os.path.join('/repo/src/hwp5', f), 'rb').read()
        open(p, 'wb').write(t)
        res, by = {}, None
        t0 = time.time()
        try:
            for c in checks:
                env = dict(os.environ, VERIF_REPO=d, VERIF_FAILFAST='1', VERIF_OUT=os.path.join(d, 'out'), PYTHONDONTWRITEBYTECODE='1')
                rc, o = run(['nice', '-n', '15', '/opt/venv/bin/python', 'check.py', c], env, 600)
                res[c] = rc
                if rc == 1:
                    by = c
                    break
                if rc not in (0, 1):
                    res[c + ' error'] = o[-300:]
        finally:
            open(p, 'wb').write(orig)
        with lock:
            json.dump(dict(file=f, line=line, what=what, old=old, new=new, by=by, res=res, s=round(time.time() - t0)), outf)
            outf.write('\n')
            outf.flush()


ts = [threading.Thread(target=worker, args=(k,)) for k in range(JOBS)]
for t in ts:
    t.start()
for t in ts:
    t.join()
print('done')
