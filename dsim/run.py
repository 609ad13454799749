import importlib
import os
import subprocess
import sys

from . import env
from . import core


def main():
    if sys.argv[1] == 'selftest':
        return selftest(sys.argv[2:])
    if sys.argv[1] == 'setup':
        # nothing to build: report whether runs repeat exactly, but leave judging the tree to the checks
        try:
            selftest(['2'])
        except Exception as e:
            print('selftest: %r' % e)
        return 0
    mod = importlib.import_module('dsim.checks.' + sys.argv[1].lower())
    return core.main(mod, sys.argv[2:])


def checks():
    d = os.path.join(env.VERIF, 'dsim', 'checks')
    return sorted(f[:-3] for f in os.listdir(d) if f.startswith('c') and f.endswith('.py') and f[1:-3].isdigit())


def digests(n, workers):
    env.load()
    out = []
    for c in checks():
        mod = importlib.import_module('dsim.checks.' + c)
        if hasattr(mod, 'preload'):
            mod.preload()
        pool = core.Pool(mod, workers)
        got = dict(pool.map((i, core.make_plan(mod, 99, i, 'quick')) for i in range(n)))
        out += ['%s %d %s' % (c, i, got[i].get('digest') or got[i].get('error')) for i in range(n)]
    return out


def selftest(args):
    """One seed is one execution: the same runs in this process, and in processes with another hash seed and another
    degree of parallelism, must produce the same event logs."""
    if args[:1] == ['digests']:
        print('\n'.join(digests(int(args[1]), int(args[2]))))
        return 0
    n = args[0] if args else '4'
    res = []
    for hs, w in (('0', '8'), ('12345', '3')):
        e = dict(os.environ, PYTHONHASHSEED=hs)
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'dsim.run', 'selftest', 'digests', n, w], cwd=env.VERIF, env=e,
                           stdout=subprocess.PIPE, text=True)
        if r.returncode:
            print('selftest failed to run')
            return 2
        res.append(r.stdout.splitlines())
    bad = [(a, b) for a, b in zip(*res) if a != b]
    print('selftest: %d runs of %d checks repeated, %d differ' % (len(res[0]), len(checks()), len(bad)))
    for a, b in bad[:5]:
        print('  %s\n  %s' % (a, b))
    return 1 if bad or not res[0] else 0


if __name__ == '__main__':
    sys.exit(main())
