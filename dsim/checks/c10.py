"""C10: worlds are independent of each other; the same description and seed give the same motion."""
import json
import math
import os
import random
import threading

import torch

from .. import scene as S
from ..core import Violation, InjectedInterrupt, drop_each, BUDGET
from ..sim import SpaceProxy
from ..threads import Sched

PROP = 'C10'
TECH = 'two to three worlds in real threads under a line-level deterministic scheduler, each compared bit for bit with itself run alone'
RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('2-3 worlds (random scenes, sometimes sharing parameter tensors, force functions and bodies\' materials), each a program of build / step / '
        'differentiate operations, run interleaved: at line granularity in threads, or operation by operation; one may be interrupted at a random '
        'line; non-trivial: at least one switch happened inside a world\'s operation or between two operations')
STATE_MEASURE = 'distinct (function preempted, function resumed) pairs, hashed'
REAL = ['World', 'bodies', 'constraints', 'forces', 'DiffContactHandler', 'PdipmEngine', 'LCP solver and its backward pass', 'threads', 'torch autograd']
STUB = ['thread scheduling (one thread at a time, switches chosen by the plan)', 'random.choice (one seeded stream per world)',
        'broadphase delivery order (canonical)']
ASSUMPTIONS = ['switches happen between lines of the package, not inside torch or ODE calls',
               'each world draws its random choices from its own stream']

LOCAL = threading.local()


def choice(seq):
    r = getattr(LOCAL, 'rng', None)
    return (r or random).choice(seq) if r is None else seq[r.randrange(len(seq))]


class Shared:
    """Objects a user may hand to several worlds."""

    def __init__(self, spec):
        self.mass = torch.tensor(spec.get('mass', 1.5), dtype=torch.double, requires_grad=True)
        self.vec = torch.tensor(spec.get('vec', [0.0, 3.0, 5.0]), dtype=torch.double)
        self.vel = torch.tensor(spec.get('vel', [0.1, 1.0, -2.0]), dtype=torch.double)
        self.verts = [torch.tensor(v, dtype=torch.double) for v in spec.get('verts', [[-3.0, -2.0], [5.0, -1.0], [2.0, 4.0]])]
        self.dims = torch.tensor(spec.get('dims', [8.0, 5.0]), dtype=torch.double)
        self.pos = torch.tensor(spec.get('pos', [0.2, 400.0, 100.0]), dtype=torch.double)
        self.rest = torch.tensor(0.4, dtype=torch.double)
        self.mu = torch.tensor(0.3, dtype=torch.double)
        self.sim_time = 0.0
        from lcp_physics.physics.forces import ExternalForce as EF
        self.watch = {'mass': self.mass, 'force vector': self.vec, 'velocity': self.vel, 'DOWN': EF.DOWN, 'RIGHT': EF.RIGHT, 'ROT': EF.ROT, 'ZEROS': EF.ZEROS}
        self.watch.update({'vertex %d' % k: v for k, v in enumerate(self.verts)}, dimensions=self.dims, position=self.pos, restitution=self.rest)
        self.watch['friction coefficient'] = self.mu
        self.before = {k: v.detach().clone() for k, v in self.watch.items()}

    def check(self):
        for k, v in self.watch.items():
            if not torch.equal(v.detach(), self.before[k]):
                raise Violation('parameter-changed', 'the %s given to the worlds changed from %s to %s' % (k, self.before[k].tolist(), v.tolist()))


def hexs(ts):
    return ' '.join(float(x).hex() for t in ts for x in t.detach().reshape(-1))


def task(spec, shared, tick=lambda: None):
    """Runs one world program; returns its observable history."""
    from lcp_physics.physics.forces import ExternalForce
    LOCAL.rng = random.Random(spec['rs'])
    out = []
    w = None
    for op in spec['ops']:
        k = op['op']
        if k == 'build':
            def kw(i, b):
                d = {}
                if spec.get('share_mass') == i:
                    d['mass'] = shared.mass
                if spec.get('share_vel') == i and b['v'] != [0, 0, 0]:
                    d['vel'] = shared.vel
                if spec.get('share_pos') == i:
                    d['pos'] = shared.pos
                if spec.get('share_shape') is not None:
                    d['restitution'], d['fric_coeff'] = shared.rest, shared.mu
                if spec.get('share_shape') == i and b['k'] == 'hull':
                    d['verts'] = shared.verts
                if spec.get('share_shape') == i and b['k'] == 'rect':
                    d['dims'] = shared.dims
                return d
            sc = spec['scene']
            bodies = S.build_bodies(sc, kw)
            if spec.get('share_force') is not None:
                bodies[spec['share_force'] % len(bodies)].add_force(ExternalForce(lambda t: shared.vec, multiplier=2.0))
            joints = S.build_joints(sc, bodies)
            from lcp_physics.physics.world import World
            args = dict(dt=sc['dt'], eps=sc['eps'], tol=sc['tol'], post_stab=sc['post_stab'], strict_no_penetration=False)
            w = World(bodies, joints, **args) if joints else World(bodies, **args)
        elif k == 'step':
            t0 = float(w.t)
            w.step()
            shared.sim_time += float(w.t) - t0
        elif k == 'grad':
            if spec.get('share_mass') is not None:
                tot = sum((b.p * b.p).sum() for b in w.bodies)
                if tot.requires_grad:
                    g = torch.autograd.grad(tot, shared.mass, retain_graph=True)
                    out.append('grad ' + hexs(g))
            tick()
            continue
        out.append('%s %s %s' % (k, hexs([b.p for b in w.bodies]), hexs([b.v for b in w.bodies])))
        out.append('contacts ' + ' '.join('%d-%d %s' % (c[1], c[2], hexs(c[0])) for c in w.contacts))
        tick()
    return out


def alone(spec, plan):
    """The same program in a process of its own."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            BUDGET.op(None)
            res = run_guarded(spec, Shared(plan['shared']))
        except BaseException as e:
            res = ['crash ' + repr(e)]
        with os.fdopen(wr, 'w') as f:
            json.dump(res, f)
        os._exit(0)
    os.close(wr)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s)


def run_guarded(spec, shared, tick=lambda: None, out=None):
    """A program may legitimately end with an error (its own), which is then part of its history."""
    try:
        return task(spec, shared, tick)
    except InjectedInterrupt:
        raise
    except Exception as e:
        return ['error ' + type(e).__name__]


def execute(plan, ctx):
    import ode
    ode.HashSpace = SpaceProxy
    random.choice = choice
    BUDGET.op(None)
    tasks = plan['tasks']
    want = [alone(t, plan) for t in tasks]
    if plan.get('again'):
        for t, w in zip(tasks, want):
            if alone(t, plan) != w:
                raise Violation('not-repeatable', 'two runs of the same program from the same seed differ')
    shared = Shared(plan['shared'])
    n = len(tasks)
    crash = plan.get('crash') or {}
    if plan['mode'] == 'threads':
        s = Sched(ctx, plan['sched']['seed'], plan['sched']['mean'], plan['sched']['lim'], crash, plan['sched'].get('focus'))
        fns = [lambda t=t, k=k: run_guarded(t, shared, lambda: s.yield_point(k)) for k, t in enumerate(tasks)]
        got = s.run(fns)
        for k, e in s.errors.items():
            if not isinstance(e, InjectedInterrupt):
                raise e
    else:
        got, s = interleave_ops(plan, ctx, shared)
    sw = s.switches
    ctx.steps += sum(1 for t in tasks for o in t['ops'] if o['op'] == 'step')
    ctx.nontrivial = sw > 0
    ctx.probe('switches', sw)
    for k in range(n):
        if got[k] is None or k in s.interrupted:        # (whether the interrupt surfaces is C11's business)
            ctx.probe('abandoned_worlds')
            continue
        if any(x.startswith('grad') for x in got[k]):
            ctx.probe('gradients_compared')
        if any(x.startswith('error') for x in got[k]):
            ctx.probe('programs_ending_in_error')
        if got[k] != want[k]:
            i = [a == b for a, b in zip(got[k], want[k])] + [False]
            i = i.index(False)
            a, b = (got[k][i:i + 1] or ['nothing'])[0], (want[k][i:i + 1] or ['nothing'])[0]
            raise Violation('interference', 'world %d of %d differs from itself run alone at record %d: "%s..." instead of "%s..."'
                            % (k, n, i, a[:60], b[:60]))
        ctx.log('world', k, got[k][-1] if got[k] else '')
    ctx.sim_time = shared.sim_time
    shared.check()


def interleave_ops(plan, ctx, shared):
    """Operation-level interleaving in one thread, by running each world as a coroutine-like thread that only switches between operations."""
    s = Sched(ctx, plan['sched']['seed'], 10 ** 9, 10 ** 6, plan.get('crash'))

    def tick(k):
        if s.rng.random() < 0.7:
            s.switch(k)
    got = s.run([lambda t=t, k=k: run_guarded(t, shared, lambda: tick(k)) for k, t in enumerate(plan['tasks'])])
    for e in s.errors.values():
        if not isinstance(e, InjectedInterrupt):
            raise e
    return got, s


def generate(rng, tier):
    n = rng.choice([2, 2, 2, 3])
    tasks = []
    for k in range(n):
        sc = S.gen_busy(rng, eps=0.1, tol=1e-6, post_stab=rng.random() < 0.2, strict=False, dt=rng.choice([1 / 30, 0.1]),
                        n=rng.choice([1, 2, 2, 3]), g=rng.choice([0, 100]), joints=0.2, ground=0.7)
        for b in sc['bodies']:
            if rng.random() < 0.2:
                b['f'] = b['f'] + [{'t': 'ext', 'fn': rng.choice(['down', 'vert', 'hor', 'rot']), 'mult': 50.0}]
        t = {'scene': sc, 'rs': rng.randrange(10 ** 6), 'ops': [{'op': 'build'}]}
        nb = len(sc['bodies'])
        if rng.random() < 0.6:
            t['share_mass'] = rng.randrange(nb)
        if rng.random() < 0.3:
            t['share_vel'] = rng.randrange(nb)
        if rng.random() < 0.4:
            t['share_force'] = rng.randrange(nb)
        if rng.random() < 0.3:
            t['share_shape'] = rng.randrange(nb)
        if rng.random() < 0.2:
            t['share_pos'] = rng.randrange(nb)
        for _ in range(rng.choice([1, 2, 3]) if tier == 'quick' else rng.choice([2, 4, 8])):
            t['ops'].append({'op': 'step'})
            if rng.random() < 0.35:
                t['ops'] += [{'op': 'grad'}] * rng.choice([1, 1, 2])
        if rng.random() < 0.15:
            t['ops'].append({'op': 'build'})
            t['ops'].append({'op': 'step'})
        tasks.append(t)
    if rng.random() < 0.25:
        tasks[1] = json.loads(json.dumps(tasks[0]))
    plan = {'tasks': tasks, 'mode': rng.choice(['threads', 'threads', 'threads', 'ops']), 'again': rng.random() < 0.15,
            'shared': {'pos': [rng.uniform(-3, 3), rng.uniform(-60, 60), rng.uniform(0, 120)], 'mass': rng.uniform(0.5, 3), 'vec': [0.0, rng.uniform(-20, 20), rng.uniform(-20, 20)],
                       'vel': [0.0, rng.uniform(-20, 20), rng.uniform(-20, 20)]},
            'sched': {'seed': rng.randrange(10 ** 9), 'mean': rng.choice([5, 30, 200, 1500]), 'lim': rng.choice([20, 200, 2000])}}
    if rng.random() < 0.6:
        plan['sched']['focus'] = rng.choice(['pdipm.py', 'pdipm.py', 'lcp.py', 'engines.py', 'world.py', 'bodies.py', 'contacts.py', 'constraints.py', 'forces.py', 'utils.py'])
        plan['sched']['mean'] = rng.choice([2, 5, 30, 200])
    if rng.random() < 0.35:
        plan['crash'] = {str(rng.randrange(n)): int(math.exp(rng.uniform(0, 9)))}
    return plan


def reduce(plan):
    for o in drop_each(plan['tasks']):
        if len(o) >= 2:
            yield {k: v for k, v in dict(plan, tasks=o).items() if k != 'crash'}
    if plan.get('crash'):
        yield {k: v for k, v in plan.items() if k != 'crash'}
    if plan.get('again'):
        yield dict(plan, again=False)
    lim = plan['sched']['lim']
    for l in (1, 2, 3, lim // 4, lim // 2, lim - 1):
        if 0 < l < lim:
            yield dict(plan, sched=dict(plan['sched'], lim=l))
    for k, t in enumerate(plan['tasks']):
        def rep(**kw):
            return dict(plan, tasks=plan['tasks'][:k] + [dict(t, **kw)] + plan['tasks'][k + 1:])
        for o in drop_each(t['ops'][1:]):
            yield rep(ops=t['ops'][:1] + o)
        for s in ('share_mass', 'share_vel', 'share_force', 'share_shape', 'share_pos'):
            if t.get(s) is not None:
                yield rep(**{s: None})
        for s in S.reductions(t['scene']):
            yield rep(scene=s)
