"""setup_cmd: nothing to build; parse every specification once so that a broken
installation shows here rather than in a check."""
import os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = os.path.join(here, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
d = tempfile.mkdtemp()
try:
    mods = sorted(f for f in os.listdir(spec) if f.endswith('.tla'))
    bad = 0
    from concurrent.futures import ThreadPoolExecutor
    def sany(f):
        p = subprocess.run(['java', '-Djava.io.tmpdir=' + d, '-cp', CP, 'tla2sany.SANY', os.path.join(spec, f)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=spec)
        return f, p.returncode, p.stdout.decode()
    with ThreadPoolExecutor(6) as ex:
        for f, rc, out in ex.map(sany, mods):
            if rc or '*** Errors' in out or 'Parse Error' in out or 'Fatal' in out:
                bad += 1
                print(f, out[-2000:])
    print('%d specifications parsed, %d bad' % (len(mods), bad))
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
