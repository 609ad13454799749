"""The simulator's kernel: seeds, plans, isolated execution, search, minimisation, replay, evidence.

One run = one *plan* (plain JSON).  `generate(rng)` turns a seed into a plan; `execute(plan, ctx)` is a
pure function of the plan and the code under test.  Every run executes in a freshly forked process, so
nothing leaks from one run to the next, and a plan replays in a fresh interpreter.
"""
import collections
import hashlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time as _time          # wall clock, only ever read by the driver, never inside a run
import traceback

from . import env
from .env import REPO, VERIF

_real_time = _time.time
MAX_WALL_RUN = 400.0          # a run that takes longer is an error of the harness, never a pass


class Violation(Exception):
    def __init__(self, kind, msg, **detail):
        super().__init__('%s: %s' % (kind, msg))
        self.kind, self.msg, self.detail = kind, msg, detail


class Truncated(Exception):
    """The run stopped early for a legitimate reason (counted, nothing after it was checked)."""


class BudgetExceeded(BaseException):
    pass


class InjectedFault(Exception):
    """The exception type used by faults injected from a seam."""


class InjectedInterrupt(BaseException):
    """A simulated asynchronous interrupt (what Ctrl-C is to a real program)."""


# --------------------------------------------------------------------------- loop budget
class Budget:
    """Deterministic liveness bound: counts loop jumps executed inside the code under test (sys.monitoring),
    and aborts an operation that exceeds its budget."""
    TOOL = 3

    def __init__(self):
        self.count = 0
        self.total = 0
        self.limit = None
        self.on = False
        self.prefix = os.path.realpath(REPO) + os.sep
        self._files = {}

    def inside(self, code):
        f = code.co_filename
        r = self._files.get(f)
        if r is None:
            r = self._files[f] = os.path.realpath(f).startswith(self.prefix)
        return r

    def start(self):
        m = sys.monitoring
        if self.on:
            return
        self.on = True
        m.use_tool_id(self.TOOL, 'dsim-budget')
        m.register_callback(self.TOOL, m.events.JUMP, self._jump)
        m.set_events(self.TOOL, m.events.JUMP)

    def _jump(self, code, off, dest):
        if not self.inside(code):
            return sys.monitoring.DISABLE
        self.count += 1
        self.total += 1
        if self.limit is not None and self.count > self.limit:
            raise BudgetExceeded('more than %d loop iterations in one operation' % self.limit)

    def op(self, limit):
        self.count, self.limit = 0, limit


BUDGET = Budget()


# --------------------------------------------------------------------------- run context
class Ctx:
    def __init__(self, plan):
        self.plan = plan
        self.h = hashlib.sha256()
        self.nlog = 0
        self.tail = collections.deque(maxlen=12)
        self.faults = collections.Counter()     # fault kinds that actually fired
        self.probes = collections.Counter()     # rare conditions reached
        self.states = set()                     # abstract states / interleavings visited
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self.trunc = None

    def log(self, *items):
        s = ' '.join(_fmt(i) for i in items)
        self.h.update(s.encode() + b'\n')
        self.nlog += 1
        self.tail.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *items):
        self.states.add(hashlib.sha1(repr(items).encode()).hexdigest()[:12])

    def op(self, limit=400000):
        """Start a new bounded operation."""
        BUDGET.op(limit)


def _fmt(x):
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(_fmt(i) for i in x) + ']'
    return str(x)


def run_rng(prop, base, idx):
    return random.Random('%s:%s:%s' % (prop, base, idx))


def seed_process(n):
    import numpy as np
    import torch
    random.seed(n)
    np.random.seed(n % (2 ** 32))
    torch.manual_seed(n)


def from_repo(tb):
    while tb is not None:
        if BUDGET.inside(tb.tb_frame.f_code):
            return True
        tb = tb.tb_next
    return False


def execute_plan(mod, plan):
    """Runs one plan in this process; returns a JSON-able result."""
    ctx = Ctx(plan)
    res = {'violation': None, 'error': None}
    BUDGET.start()
    BUDGET.op(None)
    seed_process(plan.get('rs', 0))
    devnull = None
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        res['violation'] = {'kind': v.kind, 'msg': str(v.msg)[:2000], 'detail': v.detail}
    except Truncated as e:
        ctx.trunc = str(e) or 'truncated'
    except BudgetExceeded as e:
        res['violation'] = {'kind': 'no-progress', 'msg': str(e), 'detail': {}}
    except (Exception, InjectedInterrupt) as e:
        tb = traceback.format_exc()[-3000:]
        if from_repo(e.__traceback__):
            res['violation'] = {'kind': 'exception:' + type(e).__name__, 'msg': str(e)[:500], 'detail': {'tb': tb}}
        else:
            res['error'] = tb
    finally:
        BUDGET.op(None)
    res.update(digest=ctx.h.hexdigest(), nlog=ctx.nlog, faults=dict(ctx.faults), probes=dict(ctx.probes),
               states=sorted(ctx.states), sim_time=ctx.sim_time, steps=ctx.steps, nontrivial=ctx.nontrivial,
               trunc=ctx.trunc, tail=list(ctx.tail), loops=BUDGET.total)
    return res


# --------------------------------------------------------------------------- isolated execution
def _child(mod, plan, wfd):
    try:
        out = os.open(os.devnull, os.O_WRONLY)
        os.dup2(out, 1)
        if not os.environ.get('DSIM_STDERR'):
            os.dup2(out, 2)
        res = execute_plan(mod, plan)
    except BaseException:
        res = {'violation': None, 'error': traceback.format_exc()[-3000:]}
    try:
        data = json.dumps(res).encode()
    except Exception:
        data = json.dumps({'violation': None, 'error': 'unserialisable result: ' + traceback.format_exc()}).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


class Pool:
    """Runs plans in forked children, `workers` at a time.  Results come back with their key; the order of
    completion never influences anything that is reported."""

    def __init__(self, mod, workers):
        self.mod, self.workers = mod, workers
        self.live = {}

    def start(self, key, plan):
        plan = json.loads(json.dumps(plan))
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for other in self.live:
                os.close(other)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            _child(self.mod, plan, w)
        os.close(w)
        self.live[r] = [key, pid, [], _real_time()]

    def collect(self):
        """Blocks until at least one child finished; returns [(key, result)]."""
        out = []
        while not out:
            ready, _, _ = select.select(list(self.live), [], [], 1.0)
            for r in ready:
                d = os.read(r, 1 << 16)
                if d:
                    self.live[r][2].append(d)
                    continue
                key, pid, chunks, _ = self.live.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                try:
                    res = json.loads(b''.join(chunks))
                except ValueError:
                    res = {'violation': None, 'error': 'run process died, wait status %d' % st}
                out.append((key, res))
            now = _real_time()
            for r in list(self.live):
                if now - self.live[r][3] > MAX_WALL_RUN:
                    key, pid, _, _ = self.live.pop(r)
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    out.append((key, {'violation': None, 'error': 'run exceeded %ds of wall clock' % MAX_WALL_RUN}))
        return out

    def map(self, items, stop=None):
        """items: iterable of (key, plan).  Yields (key, result) as they complete."""
        it = iter(items)
        done = False
        while True:
            while not done and len(self.live) < self.workers:
                nxt = next(it, None)
                if nxt is None or (stop is not None and stop()):
                    done = True
                    break
                self.start(*nxt)
            if not self.live:
                return
            for kr in self.collect():
                yield kr


def run_one(mod, plan):
    p = Pool(mod, 1)
    for _, res in p.map([(0, plan)]):
        return res


# --------------------------------------------------------------------------- minimisation
def minimise(mod, plan, kind, workers, max_exec=400, max_wall=150.0):
    """Greedy reduction: keep any smaller plan that still violates with the same class."""
    t0 = _real_time()
    n = 0
    pool = Pool(mod, workers)
    changed = True
    while changed and n < max_exec and _real_time() - t0 < max_wall:
        changed = False
        cand = []
        seen = set()
        for c in mod.reduce(plan):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cand.append(c)
            if len(cand) >= 300:
                break
        i = 0
        while i < len(cand) and n < max_exec and _real_time() - t0 < max_wall:
            batch = cand[i:i + workers]
            got = {}
            for key, res in pool.map(list(enumerate(batch))):
                got[key] = res
                n += 1
            hit = [k for k in sorted(got) if got[k].get('violation') and got[k]['violation']['kind'] == kind]
            if hit:
                plan = json.loads(json.dumps(batch[hit[0]]))
                changed = True
                break
            i += workers
    return plan, n


def drop_each(lst):
    """Sub-lists of lst: halves first, then without each single element."""
    n = len(lst)
    if n > 3:
        for size in (n // 2, n // 4):
            if size >= 2:
                for i in range(0, n, size):
                    yield lst[:i] + lst[i + size:]
    for i in range(n - 1, -1, -1):
        yield lst[:i] + lst[i + 1:]


# --------------------------------------------------------------------------- findings
def load_jsonl(path):
    if not os.path.exists(path):
        return []
    return [json.loads(l) for l in open(path) if l.strip()]


# --------------------------------------------------------------------------- driver
def main(mod, argv):
    prop = mod.PROP
    if argv[:1] == ['--replay']:
        return replay(mod, argv[1])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    workers = int(os.environ.get('DSIM_WORKERS') or max(1, min(8, os.cpu_count() or 1)))
    nruns = int(os.environ.get('DSIM_RUNS') or mod.RUNS[tier])
    t0 = _real_time()
    print('%s tier=%s VERIF_SEED=%d runs=%d workers=%d' % (prop, tier, seed, nruns, workers), flush=True)
    env.load()
    if hasattr(mod, 'preload'):
        mod.preload()

    findings = [f for f in load_jsonl(os.path.join(VERIF, 'known_findings.jsonl'))
                if f.get('property') == prop and f.get('status') == 'known']
    pins = sorted(p for p in os.listdir(os.path.join(VERIF, 'pinned')) if p.startswith(prop + '-')) \
        if os.path.isdir(os.path.join(VERIF, 'pinned')) else []
    known_pins = {f['replay']: f for f in findings}

    def plans():
        for p in pins:
            yield ('pin', p), json.load(open(os.path.join(VERIF, 'pinned', p)))['plan']
        for i in range(nruns):
            yield ('run', i), make_plan(mod, seed, i, tier)

    tot = collections.Counter()
    faults, probes, states = collections.Counter(), collections.Counter(), set()
    digests, sample_digests = set(), {}
    viol, errors, truncs = [], [], collections.Counter()
    sim_time = 0.0
    bad = {'n': 0}
    pool = Pool(mod, workers)
    for key, res in pool.map(plans(), stop=lambda: bad['n'] >= 3):
        if res.get('error'):
            errors.append((key, res['error']))
            bad['n'] += 1
            continue
        v = res['violation']
        if v:
            f = known_pins.get(key[1]) if key[0] == 'pin' else None
            if f and v['kind'] == f['kind']:
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']), flush=True)
            elif any(match_finding(mod, f, key, res) for f in findings):
                tot['known_finding_runs'] += 1
            else:
                viol.append((key, v, res))
                bad['n'] += 1
        tot['evaluations'] += 1
        tot['steps'] += res['steps']
        tot['loops'] += res['loops']
        sim_time += res['sim_time']
        faults.update(res['faults'])
        probes.update(res['probes'])
        states.update(res['states'])
        if res['trunc']:
            truncs[res['trunc']] += 1
        if res['nontrivial']:
            tot['nontrivial'] += 1
            digests.add(res['digest'])
        if key[0] == 'run' and key[1] < 5:
            sample_digests[key[1]] = res['digest']
    wall = _real_time() - t0
    viol.sort(key=lambda x: (0 if x[0][0] == 'pin' else 1, x[0][1]))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['evaluations'], 'distinct_nontrivial': len(digests),
            'rule': mod.RULE,
            'samples': [{'run': i, 'seed': '%s:%d:%d' % (prop, seed, i), 'event_log_sha256': sample_digests.get(i),
                         'plan': brief(make_plan(mod, seed, i, tier))} for i in range(min(3, nruns))],
            'simulated_steps': tot['steps'], 'simulated_seconds': round(sim_time, 3),
            'seeds_per_hour': int(tot['evaluations'] / max(wall, 1e-9) * 3600),
            'faults_injected': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'distinct_states': len(states), 'state_measure': mod.STATE_MEASURE,
            'runs_truncated': dict(truncs),
            'pinned_replays': len(pins),
            'loop_iterations_in_code_under_test': tot['loops'],
            'real_components': mod.REAL, 'stubbed_components': mod.STUB,
            'workers': workers,
        },
        'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(viol),
    }
    rc = 0
    if viol:
        key, v, res = viol[0]
        plan = json.load(open(os.path.join(VERIF, 'pinned', key[1])))['plan'] if key[0] == 'pin' \
            else make_plan(mod, seed, key[1], tier)
        print('violation in %s %s: %s: %s' % (key[0], key[1], v['kind'], v['msg']), flush=True)
        small, n = minimise(mod, plan, v['kind'], workers)
        res = run_one(mod, small)
        if not (res.get('violation') and res['violation']['kind'] == v['kind']):
            small, res = plan, run_one(mod, plan)      # never report a plan that does not reproduce
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%d-%s.json' % (prop, seed, str(key[1]).replace('.json', '')))
        json.dump({'property': prop, 'seed': '%s:%d:%s' % (prop, seed, key[1]), 'violation': res.get('violation') or v,
                   'digest': res.get('digest'), 'plan': small, 'trace_tail': res.get('tail'),
                   'minimised_with_executions': n}, open(path, 'w'), indent=1)
        rp = subprocess.run([sys.executable, '-m', 'dsim.run', prop, '--replay', path], cwd=VERIF,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=MAX_WALL_RUN + 100)
        same = rp.returncode == 1
        print('replayed in a fresh process: %s' % ('same violation, same event log' if same else 'DID NOT REPRODUCE'))
        print('  %s' % (res.get('violation') or v)['msg'])
        ev['coverage']['violation'] = {'kind': v['kind'], 'msg': v['msg'], 'replay': path, 'reproduced': same}
        if same:
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            rc = 1
        else:
            print(rp.stdout[-2000:])
            rc = 3
    elif errors:
        for k, e in errors[:3]:
            print('HARNESS ERROR in %s:\n%s' % (k, e))
        rc = 2
    if not viol and not errors and tot['evaluations'] != nruns + len(pins):
        print('HARNESS ERROR: %d of %d runs completed' % (tot['evaluations'], nruns + len(pins)))
        rc = 2
    if rc == 0 and hasattr(mod, 'gate'):
        msg = mod.gate(tier, nruns, faults, probes)
        if msg:                       # the campaign did not reach what it is meant to reach
            print('note: ' + msg)
            ev['coverage']['reach_note'] = msg
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, sort_keys=True)
    print('%s: %d runs, %d steps, %.1f simulated s, %d distinct states, faults %s, probes %s, truncated %s, %.1fs wall -> exit %d'
          % (prop, tot['evaluations'], tot['steps'], sim_time, len(states), dict(sorted(faults.items())),
             dict(sorted(probes.items())), dict(truncs), wall, rc), flush=True)
    return rc


def make_plan(mod, seed, i, tier):
    plan = mod.generate(run_rng(mod.PROP, seed, i), tier)
    plan.setdefault('rs', run_rng(mod.PROP, seed, 'rs%d' % i).randrange(2 ** 31))
    return plan


def match_finding(mod, f, key, res):
    m = getattr(mod, 'matches_finding', None)
    return bool(m and m(f, res))


def brief(plan):
    s = json.dumps(plan)
    return plan if len(s) < 4000 else s[:4000] + '...'


def replay(mod, path):
    env.load()
    if hasattr(mod, 'preload'):
        mod.preload()
    rec = json.load(open(path))
    res = run_one(mod, rec['plan'])
    if res.get('error'):
        print('HARNESS ERROR\n' + res['error'])
        return 2
    v = res['violation']
    print(json.dumps({'violation': v, 'digest': res['digest'], 'faults': res['faults'], 'probes': res['probes'],
                      'trunc': res['trunc'], 'tail': res['tail']}, indent=1))
    if v:
        want = rec.get('violation')
        if want and (want['kind'] != v['kind'] or (rec.get('digest') and rec['digest'] != res['digest'])):
            print('replay differs from the record')
            return 3
        print('VIOLATION property=%s replay=%s' % (mod.PROP, path))
        return 1
    print('no violation')
    return 0
