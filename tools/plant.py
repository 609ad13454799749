"""plant.py SPEC.py...: turn bug specifications into seeded/<id>/ after confirming them in scratch copies of /repo.

A spec defines ID, PROP, FILE, EDITS [(old, new)...] (or FILES {file: edits}), DEMO (python source), NEEDS, BREAKS."""
import json, os, re, shutil, subprocess, sys, tempfile
BASE = 'b8e2776'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           SDL_VIDEODRIVER='dummy', SDL_AUDIODRIVER='dummy', PYGAME_HIDE_SUPPORT_PROMPT='1', MPLBACKEND='Agg', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
SH = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken.  Run with cwd = the repository.
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
'''


def sh(cmd, cwd, t=150):
    r = subprocess.run('timeout %d %s' % (t, cmd), cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def main():
    for path in sys.argv[1:]:
        s = {}
        exec(open(path).read(), s)
        files = s.get('FILES') or {s['FILE']: s['EDITS']}
        w = tempfile.mkdtemp(prefix='plant_')
        try:
            sh('cp -a /repo/. %s' % w, '/')
            for f, edits in files.items():
                p = os.path.join(w, f)
                t = open(p).read()
                for old, new in edits:
                    assert t.count(old) == 1, (path, f, t.count(old), old)
                    t = t.replace(old, new)
                open(p, 'w').write(t)
            patch = sh('git diff', w)[1]
            # changed lines must be lines of the original repository
            orig = True
            for f in files:
                bl = sh('git blame -s HEAD -- %s' % f, w)[1].splitlines()
                base = {int(re.search(r'(\d+)\)', l).group(1)) for l in bl if l.startswith('^') or
                        sh('git merge-base --is-ancestor %s %s' % (l.split()[0], BASE), w)[0] == 0} if len(bl) < 700 else set()
                for h in re.finditer(r'^@@ -(\d+)', sh('git diff -U0 -- %s' % f, w)[1], re.M):
                    pass
                n = None
                for l in sh('git diff -U0 -- %s' % f, w)[1].splitlines():
                    m = re.match(r'@@ -(\d+)', l)
                    if m:
                        n = int(m.group(1))
                    elif l.startswith('-') and not l.startswith('---'):
                        if n not in base:
                            orig = False
                            print('   not an original line:', l)
                        n += 1
            d = os.path.join(OUT, s['ID'])
            os.makedirs(d, exist_ok=True)
            open(d + '/demo.py', 'w').write(HEAD + s['DEMO'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(SH)
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/patch.diff', 'w').write(patch)
            json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
            a, oa = sh('bash %s/demo.sh' % d, '/repo')
            b, ob = sh('bash %s/demo.sh' % d, w)
            t, ot = sh('/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -x', w)
            ok = a == 0 and b != 0 and b != 124 and t == 0 and orig
            print('%s %s clean=%d patched=%d tests=%d orig=%s' % ('OK ' if ok else 'BAD', s['ID'], a, b, t, orig))
            print('     ', ob.strip().splitlines()[-1][:200] if ob.strip() else '')
            if not ok:
                print(oa[-1500:], ob[-800:], ot[-800:] if t else '')
        finally:
            shutil.rmtree(w)


main()
