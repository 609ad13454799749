"""C04: external forces."""
from .. import scene as S
from ..core import Violation
from ..sim import Sim, Monitor, gen_ops, gen_pre, reduce_plan
from .c01 import STATE_MEASURE, REAL, STUB, RULE

PROP = 'C04'
TECH = 'velocities predicted from the force log'
RUNS = {'quick': 480, 'thorough': 12000}
STUB = STUB + ['some attempted sub-steps are reported as penetrating by the simulator']
ASSUMPTIONS = ['the per-body equality is checked for bodies that are in no contact and no joint during the sub-step; '
               'bodies in contact are covered by the momentum balance of C09']


def busy_bodies(sim, r):
    b = {c[4] for c in r.contacts} | {c[5] for c in r.contacts}
    for j in sim.sc.get('joints', []):
        b.add(j['a'])
        if j.get('b') is not None:
            b.add(j['b'])
    return b


class Forces(Monitor):
    def before(self, sim, op):
        del S.FORCE_LOG[:]
        self.v0 = sim.vels()

    def after(self, sim, op):
        if op['op'] == 'kick':
            return
        log = list(S.FORCE_LOG)
        acc = sim.accepted()
        starts = [r.t for r, _ in acc]
        ids = {f['id'] for b in sim.sc['bodies'] for f in b.get('f', []) if f['t'] == 'user'}
        for i, t in log:
            if not any(abs(t - s) < 1e-9 for s in starts):
                raise Violation('force-time', 'a force callback was asked for t=%.9g, the sub-steps of this step start at %s'
                                % (t, ['%.9g' % s for s in starts]))
        for s in starts:
            miss = ids - {i for i, t in log if abs(t - s) < 1e-9}
            if miss and s != getattr(sim, 'asked', None):
                raise Violation('force-time', 'force %s was not evaluated for the sub-step starting at %.9g' % (sorted(miss), s))
        prev = None
        for r, h in acc:
            busy = busy_bodies(sim, r)
            for i, b in enumerate(sim.sc['bodies']):
                v0 = self.v0[i] if prev is None else prev[3 * i:3 * i + 3]
                v1 = r.v1[3 * i:3 * i + 3]
                if i in busy:
                    continue
                F = S.total_force(b, r.t)
                M = [S.inertia(b), b['m'], b['m']]
                if any(F):
                    sim.ctx.probe('forced_free_body_substeps')
                    sim.ctx.nontrivial = True
                    if len(sim.solves) > len(acc):
                        sim.ctx.probe('forced_free_body_in_refused_step')
                for c in range(3):
                    want = v0[c] + h * F[c] / M[c]
                    if abs(v1[c] - want) > 1e-8 * (1 + abs(want) + abs(v0[c])):
                        raise Violation('impulse', 'body %d (free) goes from velocity %.9g to %.9g (component %d) in a sub-step '
                                        'of %.6g s at t=%.6g, its forces give %.9g' % (i, v0[c], v1[c], c, h, r.t, want))
            prev = r.v1


def add_user(rng, sc):
    n = 0
    for b in sc['bodies']:
        k = rng.choice([0, 0, 1, 1, 2])
        for _ in range(k):
            n += 1
            b['f'].append({'t': 'user', 'id': n, 'mult': rng.choice([1.0, 2.5, -40.0]),
                           'c': [[rng.choice([0, rng.uniform(-50, 50)]), rng.choice([0, rng.uniform(0, 60)]), rng.uniform(0, 6)]
                                 for _ in range(3)]})


def generate(rng, tier):
    strict = rng.random() < 0.7
    sc = S.gen_mixed(rng, eps=rng.choice([0.1, 0.1, 0.5]), tol=rng.choice([1e-6, 1e-4]), post_stab=rng.random() < 0.2,
                     strict=strict, dt=rng.choice([1 / 30, 1 / 60, 0.1]), vmax=rng.choice([20, 60]), joints=0.3,
                     n=rng.choice([1, 2, 3, 4]), forces=0.9)
    if rng.random() < 0.7:
        add_user(rng, sc)
    if rng.random() < 0.3:
        b = rng.choice(sc['bodies'])
        b['f'].insert(rng.randrange(len(b['f']) + 1), rng.choice([{'t': 'gravity', 'g': rng.choice([0, -20, 0.25])},
                                                                  {'t': 'ext', 'fn': rng.choice(['down', 'hor', 'rot']), 'mult': rng.choice([0.0, 0.5, -1.0])}]))
    n = rng.choice([6, 12, 20]) if tier == 'quick' else rng.choice([10, 30, 80])
    return gen_pre(rng, {'scene': sc, 'ops': gen_ops(rng, n, len(sc['bodies']), fixed=0.3, rej=0.3, strict=strict)}, ['force', 'force', 'dt', 'mult', 'mult', 'ask'])


def execute(plan, ctx):
    Sim(plan, ctx, [Forces()]).run()


reduce = reduce_plan
