# -*- coding: utf-8 -*-
"""Shared machinery of the checks.

A check is a module checks/<id>.py with a function run(ctx).  It

  * runs TLC on the modules under spec/ (ctx.tlc),
  * replays the behaviours TLC printed into the code of /repo/src, and
  * records runs of that code and gives them back to TLC for validation.

Verdicts: ctx.violation(key, text, detail) -> exit 1 with a VIOLATION line unless
`key` is listed in known_findings.txt.  Every other abnormal ending is an error of
the check (exit 2).
"""
import collections
import json
import os
import random
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
FIXTURES = os.path.join(REPO, 'tests', 'hwp5_tests', 'fixtures')
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')
MEMLIMIT = 6 << 30


def use_repo():
    """import hwp5 from the working tree of /repo, leaving no bytecode there"""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    if sys.path[0] != src:
        sys.path.insert(0, src)
    for name in [n for n in sys.modules if n == 'hwp5' or n.startswith('hwp5.')]:
        if not getattr(sys.modules[name], '__file__', '').startswith(src):
            del sys.modules[name]
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


class Hang(BaseException):
    pass


class CheckError(Exception):
    """the machinery itself failed (not a verdict about the code)"""


def _alarm(signum, frame):
    raise Hang()


class FailFast(BaseException):
    pass


class Hanging(FailFast):
    """the code under test hangs again and again: there is no time to see the rest"""


HUNG = []


def guarded(fn, seconds=20):
    """Run code under test.  -> ('ok', value) | ('raise', type name, text) | ('hang',)"""
    if len(HUNG) >= 3 or len(HUNG) == 2 and sum(HUNG) >= 100:
        raise Hanging
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        try:
            v = fn()
            return ('ok', v)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        HUNG.append(seconds)
        return ('hang',)
    except MemoryError:
        return ('hang',)
    except SystemExit as e:
        return ('raise', 'SystemExit', repr(e.code))
    except RecursionError as e:
        return ('raise', 'RecursionError', str(e)[:200])
    except Exception as e:
        return ('raise', type(e).__name__, str(e)[:300])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def abbrev(x, limit=600):
    """repr with long byte strings shortened"""
    def go(v):
        if isinstance(v, (bytes, bytearray)) and len(v) > 24:
            import hashlib
            return '<%d bytes %s>' % (len(v), hashlib.md5(bytes(v)).hexdigest()[:6])
        if isinstance(v, (list, tuple)):
            t = [go(i) for i in list(v)[:40]]
            return t if isinstance(v, list) else tuple(t)
        if isinstance(v, dict):
            return dict((k, go(i)) for k, i in list(v.items())[:40])
        return v
    s = repr(go(x))
    return s if len(s) <= limit else s[:limit] + '...'


TlcResult = collections.namedtuple(
    'TlcResult', 'ok violated generated distinct depth prints output actions')


class Context(object):

    def __init__(self, pid, module):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.validated = 0
        self.samples = []
        self.extra = collections.OrderedDict()
        self.assumptions = []
        self.violations = []
        self.known_hit = collections.OrderedDict()
        self.known = load_known(pid)
        self.level = 'model_checking'
        self.exhaustive = None
        self.replaydir = os.path.join(os.environ.get('VERIF_OUT', VERIF), 'replays')

    # ---------------------------------------------------------------- misc
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print('[%s %5.1fs]' % (self.pid, time.time() - self.t0), *a)
        sys.stdout.flush()

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def path(self, name):
        return os.path.join(self.scratch, name)

    def mkdir(self, prefix='d'):
        return tempfile.mkdtemp(prefix=prefix, dir=self.scratch)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, consts=None, invariants=(), properties=(), init='Init',
            next='Next', spec=None, constraint=None, data=None, workers=8,
            timeout=800, simulate=None, depth=100, postcondition=None, heap='6g',
            deadlock=False, view=None, coverage=False):
        """Run TLC on spec/<module>.tla; `data` is written as JSON and its path is
        IOEnv.DATA.  Lines printed with PrintT("@@" \\o json) come back in .prints"""
        d = self.mkdir('tlc-')
        cfg = []
        if spec:
            cfg.append('SPECIFICATION %s' % spec)
        else:
            cfg.append('INIT %s\nNEXT %s' % (init, next))
        for k, v in (consts or {}).items():
            if isinstance(v, str) and v.startswith('<-'):
                cfg.append('CONSTANT %s <- %s' % (k, v[2:].strip()))
            else:
                cfg.append('CONSTANT %s = %s' % (k, tla(v)))
        for i in invariants:
            cfg.append('INVARIANT %s' % i)
        for i in properties:
            cfg.append('PROPERTY %s' % i)
        if constraint:
            cfg.append('CONSTRAINT %s' % constraint)
        if postcondition:
            cfg.append('POSTCONDITION %s' % postcondition)
        if view:
            cfg.append('VIEW %s' % view)
        cfg.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
        cfgpath = os.path.join(d, module + '.cfg')
        with open(cfgpath, 'w') as f:
            f.write('\n'.join(cfg) + '\n')
        env = dict(os.environ)
        env.pop('JAVA_TOOL_OPTIONS', None)
        if data is not None:
            p = os.path.join(d, 'data.json')
            with open(p, 'w') as f:
                json.dump(data, f)
            env['DATA'] = p
        tmp = os.path.join(d, 'tmp')
        os.mkdir(tmp)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + tmp, '-cp', TLA_CP, 'tlc2.TLC',
               '-workers', str(workers), '-noGenerateSpecTE',
               '-metadir', os.path.join(d, 'meta'), '-config', cfgpath]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth),
                    '-seed', str(self.seed)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd.append(os.path.join(SPEC, module + '.tla'))
        outp = os.path.join(d, 'out')
        with open(outp, 'wb') as out:
            p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env,
                                 cwd=d, start_new_session=True, preexec_fn=_unlimit)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise CheckError('TLC timed out on %s' % module)
        prints = []
        rest = []
        with open(outp, encoding='utf-8', errors='replace') as f:
            for line in f:
                if line.startswith('"@@'):
                    prints.append(json.loads(json.loads(line)[2:]))
                else:
                    rest.append(line)
        text = ''.join(rest)
        violated = None
        m = re.search(r'Invariant (\S+) is violated', text)
        if m:
            violated = m.group(1)
        m = re.search(r'(Action property|Temporal propert)\S* ?(\S*)', text)
        if m and 'violated' in text and not violated:
            violated = m.group(2) or 'property'
        ok = rc == 0
        if not ok and violated is None:
            i = text.find('Error:')
            raise CheckError('TLC failed on %s (rc %s):\n%s'
                             % (module, rc, text[i if i >= 0 else -3000:][:6000]))
        gen = dist = depth_ = 0
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
        m = re.search(r'depth of the complete state graph search is (\d+)', text)
        if m:
            depth_ = int(m.group(1))
        self.states += dist
        self.transitions += gen
        actions = {}
        for m in re.finditer(r'<(\w+) line \d+.*?>: (\d+):(\d+)', text):
            actions[m.group(1)] = (int(m.group(2)), int(m.group(3)))
        shutil.rmtree(d)
        if violated:
            raise CheckError('the specification %s itself violates %s:\n%s'
                             % (module, violated, text[-4000:]))
        return TlcResult(ok, violated, gen, dist, depth_, prints, text, actions)

    # ---------------------------------------------------------------- verdicts
    def violation(self, key, text, detail=None):
        key = str(key)
        for k in self.known:
            if k == key:
                if k not in self.known_hit:
                    self.known_hit[k] = text
                return
        self.violations.append((key, text, detail))
        if os.environ.get('VERIF_FAILFAST'):
            raise FailFast

    def finish(self):
        cov = collections.OrderedDict()
        if self.level == 'model_checking':
            cov['states'] = self.states
            cov['transitions'] = self.transitions
            cov['traces_validated_against_impl'] = self.replayed + self.validated
        cov['behaviours_replayed_into_code'] = self.replayed
        cov['recorded_runs_validated_by_tlc'] = self.validated
        cov['samples'] = self.samples or ['(none)']
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        cov.update(self.extra)
        ev = collections.OrderedDict(
            property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
            coverage=cov, assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        d = os.path.join(os.environ.get('VERIF_OUT', VERIF), 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, text in self.known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        if not self.violations:
            self.log('held: %d states, %d behaviours replayed, %d runs validated'
                     % (self.states, self.replayed, self.validated))
            return 0
        os.makedirs(self.replaydir, exist_ok=True)
        seen = set()
        for n, (key, text, detail) in enumerate(self.violations):
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            rp = os.path.join(self.replaydir, '%s-%d.json' % (self.pid, len(seen)))
            with open(rp, 'w') as f:
                json.dump(dict(property=self.pid, key=key, what=text, detail=detail,
                               seed=self.seed, tier=self.tier,
                               rerun='VERIF_SEED=%d VERIF_TIER=%s python check.py %s'
                               % (self.seed, self.tier, self.pid)),
                          f, indent=1, default=repr)
            print('  %s: %s' % (key, str(text)[:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        self.log('%d violations' % len(self.violations))
        return 1


def _unlimit():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    raise TypeError(v)


def load_known(pid):
    """known_findings.txt:
         known: property=<id> key=<key> <text>
         fixed: property=<id> <commit> <text>      (suppresses nothing)"""
    known = collections.OrderedDict()
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == pid:
                    known[m.group(2)] = m.group(3).strip()
    return known


def watch(ctx, after=780):
    """Before the time of a quick check runs out: give the answer there is, or say that
    a single call of the code under test does not end."""
    import threading
    main_id = threading.main_thread().ident
    src = os.path.join(REPO, 'src') + os.sep

    def outermost():
        f = sys._current_frames().get(main_id)
        found = None
        while f is not None:
            if f.f_code.co_filename.startswith(src):
                found = f
            f = f.f_back
        return found

    def go():
        time.sleep(after)
        at = outermost()
        for i in range(40):
            if ctx.violations:
                break
            time.sleep(1)
            now = outermost()
            if at is None or now is not at:
                at = now
                if i > 20:
                    return
        if not ctx.violations:
            if at is None:
                return
            os.environ.pop('VERIF_FAILFAST', None)
            ctx.violation('hangs', 'a call of %s does not end' % at.f_code.co_name)
        try:
            os.chdir('/')
            ctx.finish()
            sys.stdout.flush()
            shutil.rmtree(ctx.scratch, ignore_errors=True)
        finally:
            os._exit(1)
    if not ctx.thorough:
        threading.Thread(target=go, daemon=True).start()


def main(pid):
    import importlib
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (MEMLIMIT, hard))
    sys.setrecursionlimit(5000)
    os.environ['PYTHONHASHSEED'] = '0'
    use_repo()
    ctx = Context(pid, None)
    old = os.getcwd()
    try:
        os.chdir(ctx.scratch)
        os.environ['TMPDIR'] = ctx.scratch
        tempfile.tempdir = ctx.scratch
        mod = importlib.import_module('checks.' + pid.lower())
        watch(ctx, int(os.environ.get('VERIF_WATCH', '780')))
        mod.run(ctx)
        rc = ctx.finish()
    except Hanging:
        os.environ.pop('VERIF_FAILFAST', None)
        ctx.violation('hangs', 'the code hangs: %s seconds and more' % HUNG, None)
        rc = ctx.finish()
    except FailFast:
        rc = ctx.finish()
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        rc = 2
    except (Exception, Hang) as e:
        traceback.print_exc()
        last = traceback.extract_tb(e.__traceback__)[-1:]
        if last and last[0].filename.startswith(os.path.join(REPO, 'src')):
            # the code under test failed where no failure is allowed
            os.environ.pop('VERIF_FAILFAST', None)
            ctx.violation('exception-%s' % type(e).__name__, '%s in %s: %s' % (type(e).__name__, last[0].name, str(e)[:200]),
                          traceback.format_exc())
            rc = ctx.finish()
        elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError, AssertionError, struct.error, AttributeError)) and 'module' not in str(e):
            # what the code gave cannot even be interpreted
            os.environ.pop('VERIF_FAILFAST', None)
            ctx.violation('shape-%s' % type(e).__name__, 'what the code gives is of a shape that cannot be: %s in %s: %s' % (type(e).__name__, last[0].name if last else '', str(e)[:200]),
                          traceback.format_exc())
            rc = ctx.finish()
        else:
            rc = 2
    finally:
        os.chdir(old)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return rc
