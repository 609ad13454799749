"""C09: conservation of momentum and energy."""
import numpy as np

from .. import scene as S
from ..core import Violation
from ..sim import Sim, Monitor, gen_ops, reduce_plan
from .c01 import STATE_MEASURE, REAL, STUB
from .c08 import Response, force, joint_rows, mass, rows

PROP = 'C09'
TECH = 'momentum and energy balanced over every sub-step'
RUNS = {'quick': 480, 'thorough': 12000}
RULE = ('contact-rich random scene (elastic / uniform / inelastic / arbitrary materials, forces, joints) driven through random operations with '
        'faults; non-trivial: momentum was balanced over a group of bodies that touched or pulled each other')
STUB = STUB + ['some attempted sub-steps are reported as penetrating by the simulator']
ASSUMPTIONS = ['bodies held by the world (pins, fixed coordinates) and everything touching them exchange momentum with it and are not balanced',
               'energy is judged where theory bounds it: no forces, and either no friction with one restitution for all, or no restitution',
               'joints between bodies only occur in frictionless scenes']


def groups(sim, contacts):
    n = len(sim.bodies)
    par = list(range(n))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    held = set()
    for c in contacts:
        par[find(c[4])] = find(c[5])
    for j in sim.sc.get('joints', []):
        if j.get('b') is not None:
            par[find(j['a'])] = find(j['b'])
        else:
            held.add(j['a'])
    out = {}
    for i in range(n):
        out.setdefault(find(i), []).append(i)
    return [g for g in out.values() if not held & set(g)]


class Balance(Response):
    def before(self, sim, op):
        self.v0 = np.array([x for v in sim.vels() for x in v])

    def after(self, sim, op):
        if op['op'] == 'kick':
            return
        M = mass(sim)
        prev = self.v0
        for r, h in sim.accepted():
            v1 = np.array(r.v1)
            F = force(sim, r.t)
            self.step(sim, r, h, M, prev, v1, F, bool(op.get('lu')))
            prev = v1
        now = np.array([x for v in sim.vels() for x in v])
        if np.abs(now - prev).max() > 1e-12 * (1 + np.abs(now).max()):
            raise Violation('velocity', 'a step left other velocities behind than it computed')

    def step(self, sim, r, h, M, v0, v1, F, broken):
        ctx = sim.ctx
        n = len(sim.bodies)
        dp = (M * (v1 - v0)).reshape(n, 3)
        fi = (h * F).reshape(n, 3)
        x = np.array([p[1:] for p in r.poses])
        sc = np.abs(M * v0).max() + np.abs(M * v1).max() + np.abs(h * F).max() + M.max() * 1e-3
        far = 1 + np.abs(x).max()
        for g in groups(sim, r.contacts):
            if len(g) > 1:
                ctx.nontrivial = True
                ctx.probe('groups_balanced')
            d = (dp - fi)[g]
            lin = np.abs(d[:, 1:].sum(0)).max()
            ang = abs((d[:, 0] + x[g, 0] * d[:, 2] - x[g, 1] * d[:, 1]).sum())
            if lin > 1e-8 * sc or ang > 1e-8 * sc * far:
                if self.excuse(sim, r, broken):
                    return
                raise Violation('momentum', 'bodies %s (free of the world) change their %s momentum by %.6g beyond what their forces give in a '
                                'sub-step of %.6g s at t=%.6g' % (g, 'linear' if lin > 1e-8 * sc else 'angular', lin if lin > 1e-8 * sc else ang, h, r.t))
        law = sim.plan['law']
        if law == 'any' or np.abs(F).max() > 0:
            return
        Je = joint_rows(sim, r)
        if len(Je) and np.abs(Je @ v0).max() > 1e-9 * (1 + np.abs(v0).max()):
            return
        e0, e1 = 0.5 * (M * v0 * v0).sum(), 0.5 * (M * v1 * v1).sum()
        ctx.probe('energy_judged')
        tol = 1e-7 * (e0 + 1e-6 * M.max())
        if e1 > e0 + tol or (law == 'elastic' and e1 < e0 - tol):
            if self.excuse(sim, r, broken):
                return
            raise Violation('energy', 'kinetic energy goes from %.9g to %.9g in a sub-step at t=%.6g with %s materials and no forces'
                            % (e0, e1, r.t, law))
        if e1 < e0 - tol:
            ctx.probe('energy_lost')

    def excuse(self, sim, r, broken):
        if not r.contacts:
            return False
        Jc, Jt, e, mu = rows(sim, r)
        return self.excused(sim, r, broken, Jc, joint_rows(sim, r), e * (Jc @ np.array(r.v0)))


def generate(rng, tier):
    strict = rng.random() < 0.7
    law = rng.choice(['elastic', 'uniform', 'inelastic', 'any', 'any'])
    uni = {'elastic': {'mu': 0.0, 'e': 1.0}, 'uniform': {'mu': 0.0, 'e': rng.choice([0.0, 0.3, 0.5, 0.9])}, 'inelastic': {'e': 0.0}}.get(law)
    smooth = law == 'any' and rng.random() < 0.5
    if smooth:
        uni = {'mu': 0.0}
    sc = S.gen_busy(rng, eps=rng.choice([0.1, 0.1, 0.5]), tol=1e-6, post_stab=rng.random() < 0.15, strict=strict,
                    dt=rng.choice([1 / 30, 1 / 60, 0.1]), joints=0.7 if smooth else 0.0, n=rng.choice([2, 2, 3, 4, 5]),
                    ground=0.25, uniform=uni, g=None if law == 'any' else 0)
    if law == 'any':
        for i, b in enumerate(sc['bodies']):
            if rng.random() < 0.3:
                b['f'] = b['f'] + [{'t': 'user', 'id': i, 'c': [[rng.uniform(-300, 300), rng.uniform(0, 9), rng.uniform(0, 6)] for _ in range(3)]}]
    n = rng.choice([4, 8, 16]) if tier == 'quick' else rng.choice([10, 30, 80])
    return {'scene': sc, 'law': law, 'ops': gen_ops(rng, n, len(sc['bodies']), fixed=0.15, rej=0.25, kick=0.15, strict=strict)}


def execute(plan, ctx):
    Sim(plan, ctx, [Balance()]).run()


reduce = reduce_plan
