"""C03: simulated time."""
from fractions import Fraction

from .. import geom, scene as S
from ..core import Violation
from ..sim import Sim, Monitor, gen_ops, gen_pre, reduce_plan
from .c01 import STATE_MEASURE, REAL, STUB, RULE

PROP = 'C03'
TECH = 'clock and refusals judged against an independent geometry oracle'
RUNS = {'quick': 480, 'thorough': 12000}
STUB = STUB + ['some attempted sub-steps are reported as penetrating by the simulator']
ASSUMPTIONS = ['fixed-dt steps that need more than %d attempts (bodies resting exactly at the tolerance) are cut off and '
               'counted as truncated' % 300]


def moved_shape(spec, p, v, dt):
    return S.spec_shape(spec, [p[c] + v[c] * dt for c in range(3)])


def min_sep(sim, r, dt):
    """Smallest separation at the pose an attempt moves to (independent geometry)."""
    n = len(sim.bodies)
    sh = [moved_shape(sim.sc['bodies'][i], r.poses[i], r.v1[3 * i:3 * i + 3], dt) for i in range(n)]
    m = 1e9
    for j in range(n):
        for i in range(j):
            if frozenset((i, j)) not in sim.nc:
                m = min(m, geom.shape_dist(sh[i], sh[j])[0])
    return m


def dyadic(x):
    return abs(x) < 2 ** 16 and (x * 2 ** 20) == int(x * 2 ** 20)


def exact_depth(sim, r, dt):
    """Largest overlap at the pose an attempt moves to, exactly, or None where floating point could round."""
    F, B, worst = Fraction, sim.sc['bodies'], None
    P = []
    for i, b in enumerate(B):
        v = r.v1[3 * i:3 * i + 3]
        if v[0] or r.poses[i][0] or not all(dyadic(x) for x in r.poses[i][1:] + v[1:] + [dt, v[1] * dt, v[2] * dt]):
            return None
        P.append([F(r.poses[i][c]) + F(v[c]) * F(dt) for c in (1, 2)])
    for i in range(len(B)):
        for j in range(i):
            dx, dy = abs(P[i][0] - P[j][0]), abs(P[i][1] - P[j][1])
            a, b = B[i], B[j]
            if a['k'] == b['k'] == 'rect':
                d = min((F(a['dims'][0]) + F(b['dims'][0])) / 2 - dx, (F(a['dims'][1]) + F(b['dims'][1])) / 2 - dy)
            elif a['k'] == b['k'] == 'circle':
                if dx and dy:
                    return None
                d = F(a['r']) + F(b['r']) - max(dx, dy)
            else:
                q, c = (a, b) if a['k'] == 'rect' else (b, a)
                w, h = F(q['dims'][0]) / 2, F(q['dims'][1]) / 2
                if (dx and dy) or not (dx > w or dy > h):
                    return None
                d = F(c['r']) - max(dx - w, dy - h)
            worst = d if worst is None else max(worst, d)
    return worst


class Clock(Monitor):
    def after(self, sim, op):
        h = sim.t - sim.t0
        dt = sim.sc['dt']
        if op['op'] == 'kick':
            if h:
                raise Violation('clock', 'time passed without a step')
            return
        sim.ctx.nontrivial = True
        if op['op'] == 'fixed':
            if abs(h - dt) > 1e-9 * (1 + sim.t) or sim.t < sim.t0 + dt - 1e-12:
                raise Violation('fixed-dt', 'a fixed-dt step of %.6g advanced the clock by %.12g' % (dt, h))
        else:
            if not 0 < h <= dt * (1 + 1e-9):
                raise Violation('step-length', 'a step with dt=%.6g advanced the clock by %.12g' % (dt, h))
            if not sim.sc['strict'] and h < dt / 8 * (1 - 1e-9):
                raise Violation('step-length', 'a non-strict step with dt=%.6g was shortened to %.12g' % (dt, h))
        # every refused attempt must have been going to penetrate
        rej = op.get('rej', 0)
        acc = {id(r) for r, _ in sim.accepted()}
        bad = [r for r in sim.solves if id(r) not in acc]
        tol = sim.sc['tol']
        for k, r in enumerate(bad):
            if k < rej:
                continue
            if sim.plan.get('exact'):
                d = exact_depth(sim, r, r.dt)
                if d is not None and d <= Fraction(tol):
                    raise Violation('needless-refusal', 'an attempt of %.6g s was refused though the deepest overlap would be exactly %r, the '
                                    'tolerance is %r' % (r.dt, float(d), tol))
            m = min_sep(sim, r, r.dt)
            sim.ctx.probe('refusals_justified')
            if m > -tol * (1 - 1e-6) + 1e-10:
                raise Violation('needless-refusal', 'an attempt of %.6g s was refused though the closest pair would be %.3g '
                                'apart (tolerance %.3g)' % (r.dt, m, tol))
        # a non-strict step lets an overlap pass only when it has been shortened enough
        if not sim.sc['strict']:
            for r, h in sim.accepted():
                if r.dt >= dt / 4 * (1 + (1e-9 if op['op'] == 'fixed' else -1e-9)):
                    m = min_sep(sim, r, r.dt)
                    if m < -tol * (1 + 1e-6) - 1e-9:
                        raise Violation('careless', 'a non-strict step of %.6g s (world step %.6g) was accepted though bodies overlap by %.3g '
                                        '(tolerance %.3g)' % (r.dt, dt, -m, tol))
                    sim.ctx.probe('accepted_without_overlap')
        # and a plain step without refusals lasts dt
        if op['op'] == 'step' and not bad and abs(h - dt) > 1e-9 * (1 + sim.t):
            raise Violation('step-length', 'an unhindered step with dt=%.6g advanced the clock by %.12g' % (dt, h))


def gen_exact(rng):
    """Bodies on a grid whose motion floating point represents exactly, so that they come to touch by exactly the tolerance."""
    tol = rng.choice([0.0, 0.0, 2.0 ** -4, 2.0 ** -10])
    sc = {'eps': 0.125, 'tol': tol, 'dt': 1 / 32, 'strict': rng.random() < 0.5, 'post_stab': False, 'bodies': [], 'joints': [], 'nc': []}
    kinds = rng.choice([('circle', 'circle'), ('rect', 'rect'), ('rect', 'circle'), ('rect', 'rect', 'rect')])
    ax = rng.choice([1, 2])
    at, steps = 0.0, rng.choice([1, 2, 3, 5])
    for n, k in enumerate(kinds):
        s = float(rng.choice([1, 2, 8]))
        b = {'k': k, 'p': [0.0, 0.0, 0.0], 'v': [0.0, 0.0, 0.0], 'm': rng.choice([1.0, 2.0]), 'e': 0.5, 'mu': 0.0, 'f': []}
        if k == 'circle':
            b['r'] = s
        else:
            b['dims'] = [2 * s, 2 * s]
            b['verts'] = S.rect_verts(2 * s, 2 * s)
        if n:
            v = float(rng.choice([8, 32, 64]))
            extra = rng.choice([0, 0, 1, -1, 0.5])                # fractions of a step: exactly, early, late
            at += s + v * sc['dt'] * max(steps + extra, 0.5) - tol
            b['v'][ax] = -v if n == 1 else 0.0
            if n == 2:
                at += 64.0
        b['p'][ax] = at
        if k == 'rect' and all(q == 'rect' for q in kinds):
            b['p'][3 - ax] = rng.choice([0.0, 0.25 * s])
        at += s
        sc['bodies'].append(b)
    return {'scene': sc, 'exact': 1, 'ops': [{'op': rng.choice(['step', 'step', 'fixed'])} for _ in range(steps + 2)]}


def generate(rng, tier):
    if rng.random() < 0.12:
        return gen_exact(rng)
    strict = rng.random() < 0.6
    ps = rng.random() < 0.4
    sc = S.gen_mixed(rng, eps=rng.choice([0.1, 0.1, 0.5]), tol=rng.choice([1e-6, 1e-4]), bump=0.3, post_stab=ps, strict=strict,
                     dt=rng.choice([1 / 30, 1 / 60, 0.1, 0.3, 1 / 30, 1 / 60, 0.1, 0.3, 1e-7, 1e-4, 2.0]), vmax=rng.choice([20, 60, 200]), joints=0.4,
                     n=rng.choice([1, 2, 3, 4]))
    n = rng.choice([6, 12, 20]) if tier == 'quick' else rng.choice([10, 30, 80])
    return gen_pre(rng, {'scene': sc, 'ops': gen_ops(rng, n, len(sc['bodies']), fixed=0.4, rej=0.2, lu=0.05, strict=strict, noise=0.2)}, ["dt", "force"], p=0.1)


def execute(plan, ctx):
    sim = Sim(plan, ctx, [Clock()])
    if not plan.get('exact'):
        return sim.run()
    for op in plan['ops']:
        if sim.world.contacts:
            break                 # from here on the motion is rounded
        sim.do(op)
        ctx.probe('exact_steps')


reduce = reduce_plan
