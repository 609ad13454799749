"""C11: a step that fails (or is interrupted) while velocities are computed leaves the world as it was; it can be tried again."""
import math
import random

import torch

from .. import scene as S
from ..core import Violation, Truncated, InjectedFault, InjectedInterrupt
from ..sim import Sim, gen_ops, reduce_plan, fl
from ..threads import LineTrap, forked
from .c01 import STATE_MEASURE, REAL, STUB

PROP = 'C11'
TECH = 'failures and interrupts injected at every kind of point of a velocity computation, world compared with its snapshot and with a fault-free twin'
RUNS = {'quick': 1200, 'thorough': 20000}
RULE = ('random scene driven through random operations; in some of them a force callback raises, a factorisation breaks down, an allocation fails or the '
        'program is interrupted at a random line of the velocity computation (of the first or of a later attempt), up to three times, before the '
        'operation is tried again; non-trivial: at least one step failed with an error and was tried again')
STUB = STUB + ['random numbers are reseeded per operation']
ASSUMPTIONS = ['failures inside the velocity computation only: contact search and drawing are outside the property',
               'a mid-solve breakdown that the solver absorbs is not a failed step (C12)',
               'after a failure in a later attempt the outline and the joints are restored by moving back: compared to 1e-9, bit for bit otherwise']


def _err(base):
    return type('Injected' + base.__name__, (InjectedFault, base), {})


# what a user's force function may raise: the error that reaches the caller has to be the same object's class
FORCE_ERRORS = [InjectedFault] + [_err(c) for c in (ZeroDivisionError, ValueError, RuntimeError, KeyError, AssertionError, torch.linalg.LinAlgError,
                                                    NotImplementedError, OSError)]


class Trap:
    """Arms one fault per execution of an operation."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.lines = LineTrap()
        self.fault = None
        self.forces = 0
        self.attempt = 0
        self.fired = None

    def arm(self, f):
        self.fault = f
        self.forces = self.attempt = 0
        self.lines.fired = None
        self.fired = None

    def force(self):
        self.forces += 1
        f = self.fault
        if f and f['k'] == 'force' and self.forces == f['n']:
            self.fired = 'force'
            self.ctx.fault('force_callback_raises')
            raise FORCE_ERRORS[f.get('err', 0)]('injected')


def snapshot(sim):
    w = sim.world
    js = []
    for j in w.joints:
        J1, J2 = j[0].J()
        js.append([fl(x) for x in J1.reshape(-1)] + ([fl(x) for x in J2.reshape(-1)] if J2 is not None else [])
                  + [fl(x) for x in j[0].pos.reshape(-1)])
    return {'t': sim.t, 'poses': sim.poses(), 'vels': sim.vels(), 'world velocity': [fl(x) for x in w.get_v()],
            'joints': js, 'outlines': [[c for p in S.real_shape(b)[1] for c in p] for b in sim.bodies if hasattr(b, 'verts')],
            'collision volumes': [list(b.geom.getPosition()) + list(b.geom.getQuaternion()) for b in sim.bodies],
            'contacts': [[x for y in c for x in (y if isinstance(y, list) else [y])] for c in sim.contacts()]}


def differs(a, b, tol):
    for k in a:
        x, y = flat(a[k]), flat(b[k])
        if len(x) != len(y):
            return k, len(x), len(y)
        for u, v in zip(x, y):
            if u != v and not (math.isnan(u) and math.isnan(v)) and abs(u - v) > tol * (1 + abs(u) + abs(v)):
                return k, u, v
    return None


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


class FSim(Sim):
    trap = None
    sub = None

    def on_solve(self, r):
        super().on_solve(r)
        if self.trap is None:
            return
        if len(self.solves) == 1 or r.t != self.solves[-2].t:
            self.sub = snapshot(self)          # the start of a sub-step
            self.sub_first = len(self.solves) == 1
            self.sub_n = 0
        self.sub_n += 1
        self.trap.attempt += 1
        f = self.trap.fault
        if f and self.trap.attempt == f.get('at', 1):
            if f['k'] in ('interrupt', 'memory'):
                self.trap.lines.arm(f['n'], InjectedInterrupt if f['k'] == 'interrupt' else MemoryError)
                self.trap.lines.on()
            elif f['k'] == 'lu':
                self.seams.lu_fail = [self.seams.lu_calls + f['n']]
            elif f['k'] == 'inv':
                self.seams.inv_fail = 1


def make(plan, ctx, trap):
    sim = FSim(plan, ctx, build_kw={})
    eng = sim.world.engine
    orig = eng.solve_dynamics

    def solve(world, dt):
        try:
            return orig(world, dt)
        finally:
            if trap is not None:
                trap.lines.off()
                sim.seams.inv_fail, sim.seams.lu_fail = 0, None        # what did not strike here does not strike later
    eng.solve_dynamics = solve
    sim.trap = trap
    if trap is not None:
        for b, spec in zip(sim.bodies, plan['scene']['bodies']):
            for f in b.forces:
                wrap(f, trap)
    return sim


def wrap(f, trap):
    g = f.force

    def force(t):
        trap.force()
        return g(t)
    f.force = force


def digest(sim):
    return ' '.join(x.hex() for x in [sim.t] + flat(sim.poses()) + flat(sim.vels()) + flat([c[:4] for c in sim.contacts()]))


def twin(plan, ctx):
    """The fault-free history, one record per operation."""
    sim = make(plan, ctx, None)
    out = []
    for i, op in enumerate(plan['ops']):
        random.seed(plan['rs'] + i)
        sim.do({k: v for k, v in op.items() if k != 'fail'})
        out.append(digest(sim))
    return out


def execute(plan, ctx):
    from ..core import Ctx
    r = forked(lambda: twin(plan, Ctx(plan)))
    if r[0] != 'ok':
        if r[1] == 'Truncated':
            raise Truncated('fault-free run is truncated')
        raise Violation('exception:' + r[1], 'the fault-free run failed: ' + r[2])
    want = r[1]
    trap = Trap(ctx)
    sim = make(plan, ctx, trap)
    exact = True
    for i, op in enumerate(plan['ops']):
        clean = {k: v for k, v in op.items() if k != 'fail'}
        random.seed(plan['rs'] + i)
        for f in op.get('fail', []):
            trap.arm(f)
            rng = random.getstate()
            before = snapshot(sim)
            err = None
            try:
                sim.do(clean)
            except (Violation, Truncated) as e:
                if not isinstance(e, Truncated) or not sim.seams.broke:
                    raise
                err = e
            except (Exception, InjectedInterrupt) as e:
                err = e
            finally:
                trap.lines.disarm()
            kind = f['k']
            fired = trap.fired or trap.lines.fired or (sim.seams.broke and kind in ('lu', 'inv'))
            if kind in ('interrupt', 'memory') and trap.lines.fired:
                ctx.fault('interrupted' if kind == 'interrupt' else 'allocation_fails')
            if err is None:
                if kind in ('interrupt', 'force') and fired:
                    raise Violation('swallowed', 'a step whose velocity computation was %s ended as if nothing had happened'
                                    % ('interrupted in ' + trap.lines.fired if kind == 'interrupt' else 'stopped by an error in a force function'))
                if fired:
                    ctx.probe('breakdowns_absorbed')
                    raise Truncated('breakdown absorbed by the solver')
                exact = False           # the fault had no point to strike: the operation simply succeeded
                break
            if not fired:
                raise err
            if kind == 'interrupt' and not isinstance(err, InjectedInterrupt) or kind == 'force' and not isinstance(err, InjectedFault):
                raise Violation('replaced', 'a step that was %s raised %s instead of what stopped it'
                                % ('interrupted' if kind == 'interrupt' else 'stopped by an error in a force function', type(err).__name__))
            ctx.nontrivial = True
            ctx.state(kind, trap.lines.fired, sim.sub_n > 1, bool(sim.world.joints), bool(sim.world.contacts))
            first = sim.sub_first and sim.sub_n == 1
            ctx.probe('failed_steps_first_attempt' if sim.sub_n == 1 else 'failed_steps_later_attempt')
            d = differs(sim.sub, snapshot(sim), 0.0 if sim.sub_n == 1 else 1e-9)
            if d:
                raise Violation('changed', 'after a step that failed (%s) in its attempt %d the %s of the world differ: %r became %r' % ((kind, sim.sub_n) + d))
            if clean['op'] == 'step':
                d = differs(before, snapshot(sim), 0.0 if sim.sub_n == 1 else 1e-9)
                if d:
                    raise Violation('changed', 'after a step that failed (%s) the %s of the world differ: %r became %r' % ((kind,) + d))
            if not first:
                if clean['op'] != 'step' or sim.sub_n > 1:
                    exact = False
                random.setstate(rng)
        else:
            trap.arm(None)
            trap.lines.disarm()
            sim.do(clean)
            if op.get('fail'):
                ctx.probe('retries')
        got = digest(sim)
        ctx.log(got)
        if exact and got != want[i]:
            raise Violation('retry', 'operation %d, tried again after %s, ends differently than without the failure'
                            % (i, [f['k'] for f in op.get('fail', [])]) if op.get('fail') else
                            'operation %d after an earlier failed one ends differently than without the failure' % i)
        if exact:
            ctx.probe('operations_equal_to_fault_free')
        if not exact:
            break


def generate(rng, tier):
    strict = rng.random() < 0.7
    sc = S.gen_mixed(rng, eps=0.1, tol=1e-6, post_stab=rng.random() < 0.2, strict=strict, dt=rng.choice([1 / 30, 1 / 60, 0.1]),
                     vmax=rng.choice([20, 60]), joints=0.6, n=rng.choice([1, 2, 3, 4]))
    for b in sc['bodies']:
        if rng.random() < 0.5:
            b['f'] = b['f'] + [{'t': 'ext', 'fn': rng.choice(['down', 'vert', 'hor', 'rot']), 'mult': 50.0}]
    ops = gen_ops(rng, rng.choice([2, 4, 8]) if tier == 'quick' else rng.choice([4, 10, 30]), len(sc['bodies']), fixed=0.2, rej=0.3, kick=0.2, strict=strict)
    for op in ops:
        if op['op'] != 'kick' and rng.random() < 0.5:
            op['fail'] = [fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {'scene': sc, 'ops': ops}


def fault(rng):
    k = rng.choice(['force', 'lu', 'lu', 'inv', 'interrupt', 'interrupt', 'memory'])
    f = {'k': k}
    if k == 'force':
        f['n'] = rng.choice([1, 1, 2, 3, 5])
        f['err'] = rng.randrange(len(FORCE_ERRORS))
    elif k == 'lu':
        f['n'] = rng.choice([1, 1, 2, 3, 4, 5])
    elif k != 'inv':
        f['n'] = int(math.exp(rng.uniform(0, rng.choice([4, 7, 9]))))
    if rng.random() < 0.35:
        f['at'] = rng.choice([2, 2, 3, 4])
    return f


def reduce(plan):
    for i, op in enumerate(plan['ops']):
        if op.get('fail'):
            for j in range(len(op['fail'])):
                rest = op['fail'][:j] + op['fail'][j + 1:]
                new = {k: v for k, v in op.items() if k != 'fail'}
                if rest:
                    new['fail'] = rest
                yield dict(plan, ops=plan['ops'][:i] + [new] + plan['ops'][i + 1:])
    yield from reduce_plan(plan)
