"""C01: strict worlds never let bodies interpenetrate."""
from .. import geom, scene as S
from ..core import Violation
from ..sim import Sim, Monitor, gen_ops, gen_pre, reduce_plan

PROP = 'C01'
TECH = 'penetration judged by an independent geometry oracle after every step'
RUNS = {'quick': 480, 'thorough': 12000}
RULE = ('random scene (1-6 circles/rectangles/convex hulls, joints, forces, exclusions, eps/tol/dt knobs) driven through a '
        'random operation sequence with faults attached to operations; non-trivial: at least one step was solved with contacts')
STATE_MEASURE = 'distinct (operation, attempts, set of touching pairs, set of moving bodies) per step, hashed'
REAL = ['World', 'bodies', 'constraints', 'forces', 'DiffContactHandler', 'PdipmEngine', 'LCP solver', 'ODE broadphase']
STUB = ['broadphase delivery order (permuted by the simulator)', 'random.choice (seeded / adversarial)']
ASSUMPTIONS = ['bodies moving so fast that they pass through each other between two poses are not covered by the property',
               'convex hulls with vertices in the documented order; CPU, double precision']


def pen_check(sim, slack=1e-9):
    sh = [S.real_shape(b) for b in sim.bodies]
    worst = None
    for j in range(len(sh)):
        for i in range(j):
            if frozenset((i, j)) in sim.nc:
                continue
            sep, _ = geom.shape_dist(sh[i], sh[j])
            if sep < -(sim.sc['tol'] + slack) and (worst is None or sep < worst[0]):
                worst = (sep, i, j)
    return worst


class Pen(Monitor):
    def after(self, sim, op):
        if op['op'] == 'kick':
            return
        if sim.contacts():
            sim.ctx.nontrivial = True
        w = pen_check(sim)
        if w:
            raise Violation('penetration', 'bodies %d and %d overlap by %.3g after a completed step (tolerance %.3g)'
                            % (w[1], w[2], -w[0], sim.sc['tol']), t=sim.t)


def generate(rng, tier):
    if rng.random() < 0.08:
        return gen_illegal(rng)
    uni = rng.random()
    kw = dict(eps=rng.choice([0.1, 0.1, 0.01, 0.5, 1.0]), tol=rng.choice([1e-6, 1e-6, 1e-4, 1e-2]),
                     post_stab=rng.random() < 0.35, dt=rng.choice([1 / 30, 1 / 60, 0.05, 0.1, 0.25]),
                     vmax=rng.choice([20, 60, 150]), joints=0.4, n=rng.choice([2, 2, 3, 3, 4, 5, 6]) if uni < .9 else 8, bump=0.5)
    pile = rng.random() < 0.08
    sc = S.gen_pile(rng, **kw) if pile else S.gen_mixed(rng, **kw)
    n = rng.choice([5, 10]) if pile else rng.choice([10, 20, 30, 50])
    if tier == 'thorough':
        n = rng.choice([10, 20, 40, 80, 150])
    return gen_pre(rng, {'scene': sc, 'ops': gen_ops(rng, n, len(sc['bodies']), fixed=0.15 if sc['post_stab'] else 0.05, lu=0.05, noise=0.2, graze=0.4)}, ['force', 'dt', 'exclude', 'material'], p=0.1)


def gen_illegal(rng):
    sc = S.gen_scene(rng, n=rng.choice([2, 3]), joints=0.0, nc=0.0, ground=0.3)
    while len(sc['bodies']) < 2:
        sc = S.gen_scene(rng, n=3, joints=0.0, nc=0.0, ground=0.3)
    # push one body into another
    i, j = rng.sample(range(len(sc['bodies'])), 2)
    a, b = sc['bodies'][i], sc['bodies'][j]
    depth = rng.choice([1e-3, 0.1, 1.0])
    lo, hi = 0.0, 1.0
    p0 = list(a['p'])
    at = lambda f: [p0[0], p0[1] + f * (b['p'][1] - p0[1]), p0[2] + f * (b['p'][2] - p0[2])]
    for _ in range(60):
        mid = (lo + hi) / 2
        if geom.shape_dist(S.spec_shape(dict(a, p=at(mid))), S.spec_shape(b))[0] > -depth:
            lo = mid
        else:
            hi = mid
    a['p'] = at(hi)
    return {'scene': sc, 'ops': [{'op': 'step'}], 'illegal': True, 'build': {'shuf': rng.choice([0, 1, 2, 3])}}


def execute(plan, ctx):
    sc = plan['scene']
    if plan.get('illegal'):
        sh = [S.spec_shape(b) for b in sc['bodies']]
        nc = S.excluded(sc)
        worst = min([geom.shape_dist(sh[i], sh[j])[0] for j in range(len(sh)) for i in range(j)
                     if frozenset((i, j)) not in nc] or [1.0])
        if worst > -2 * sc['tol'] - 1e-7:
            return
        ctx.probe('illegal_start')
        ctx.nontrivial = True
        try:
            Sim(plan, ctx)
        except Exception as e:
            ctx.log('refused', type(e).__name__)
            return
        raise Violation('illegal-start', 'a strict world accepted bodies overlapping by %.3g' % -worst)
    Sim(plan, ctx, [Pen()]).run()


reduce = reduce_plan
