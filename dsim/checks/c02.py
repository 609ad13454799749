"""C02: poses advance by exactly the velocity of the step; rejected attempts leave no trace."""
import math

from .. import geom, scene as S
from ..core import Violation
from ..sim import Sim, Monitor, gen_ops, gen_pre, reduce_plan, fl
from .c01 import STATE_MEASURE, REAL, STUB, RULE

PROP = 'C02'
TECH = 'poses replayed from the recorded velocities of the accepted sub-steps'
RUNS = {'quick': 480, 'thorough': 12000}
STUB = STUB + ['some attempted sub-steps are reported as penetrating by the simulator']
ASSUMPTIONS = ['post-stabilisation off (C16 covers the correction it adds)']


def close(a, b, tol):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


class Kin(Monitor):
    def before(self, sim, op):
        self.p0 = sim.poses()

    def after(self, sim, op):
        if op['op'] == 'kick':
            if sim.poses() != self.p0:
                raise Violation('pose-changed', 'setting velocities moved a body')
            return
        acc = sim.accepted()
        if len(acc) < len(sim.solves):
            sim.ctx.nontrivial = True
        p1, v = sim.poses(), sim.vels()
        for i in range(len(sim.bodies)):
            for c in range(3):
                want = self.p0[i][c] + sum(r.v1[3 * i + c] * h for r, h in acc)
                if not close(p1[i][c], want, 1e-9):
                    raise Violation('pose', 'body %d coordinate %d is %.12g after the step, start + velocity*time is %.12g '
                                    '(%d attempts, %d accepted)' % (i, c, p1[i][c], want, len(sim.solves), len(acc)))
                if not close(v[i][c], acc[-1][0].v1[3 * i + c], 1e-12):
                    raise Violation('velocity', 'body %d does not carry the velocity it was moved with' % i)
        if op['op'] == 'step':
            h = sim.t - sim.t0
            for i in range(len(sim.bodies)):
                for c in range(3):
                    want = self.p0[i][c] + v[i][c] * h
                    if not close(p1[i][c], want, 1e-9):
                        raise Violation('pose', 'body %d coordinate %d moved by %.12g in %.6g s with velocity %.12g'
                                        % (i, c, p1[i][c] - self.p0[i][c], h, v[i][c]))
        shapes(sim)
        anchors(sim)


def shapes(sim, tol=1e-9):
    """Every polygon is its initial shape rotated by the body's angle."""
    for i, b in enumerate(sim.bodies):
        spec = sim.sc['bodies'][i]
        if spec['k'] == 'circle':
            continue
        ang = fl(b.p[0])
        size = max(math.hypot(*v) for v in spec['verts'])
        for k, v0 in enumerate(spec['verts']):
            w = geom.rot(v0, ang)
            x, y = fl(b.verts[k][0]), fl(b.verts[k][1])
            if math.hypot(x - w[0], y - w[1]) > tol * (1 + size) * (10 + sim.ctx.steps):
                raise Violation('shape', 'vertex %d of body %d is at (%.9g, %.9g) from its centre, its angle puts it at '
                                '(%.9g, %.9g)' % (k, i, x, y, w[0], w[1]))


class Anchor:
    """Where each joint sits on its first body, in that body's frame, at the start."""

    def __init__(self, sim):
        self.loc = []
        for j, spec in zip(sim.world.joints, sim.sc.get('joints', [])):
            if spec['k'] != 'joint':
                self.loc.append(None)
                continue
            b = sim.sc['bodies'][spec['a']]
            self.loc.append(geom.rot((spec['pos'][0] - b['p'][1], spec['pos'][1] - b['p'][2]), -b['p'][0]))


def anchors(sim, tol=1e-9):
    a = sim.__dict__.setdefault('_anchor', None) or Anchor(sim)
    sim._anchor = a
    for n, (loc, spec) in enumerate(zip(a.loc, sim.sc.get('joints', []))):
        joint = sim.world.joints[n][0]
        body = sim.bodies[spec['a']]
        x, y = fl(joint.pos[0]), fl(joint.pos[1])
        if loc is None:
            wx, wy = fl(body.pos[0]), fl(body.pos[1])
        else:
            r = geom.rot(loc, fl(body.p[0]))
            wx, wy = fl(body.pos[0]) + r[0], fl(body.pos[1]) + r[1]
        if math.hypot(x - wx, y - wy) > tol * (1 + abs(wx) + abs(wy)) * (10 + sim.ctx.steps):
            raise Violation('anchor', 'joint %d is at (%.9g, %.9g), its place on body %d is (%.9g, %.9g)'
                            % (n, x, y, spec['a'], wx, wy))


def generate(rng, tier):
    strict = rng.random() < 0.7
    sc = S.gen_mixed(rng, eps=rng.choice([0.1, 0.1, 0.5]), tol=rng.choice([1e-6, 1e-4]), post_stab=False, strict=strict,
                     dt=rng.choice([1 / 30, 1 / 60, 0.1]), vmax=rng.choice([20, 60]), wmax=rng.choice([2, 2, 10, 40]), joints=0.7, n=rng.choice([1, 2, 3, 4]))
    n = rng.choice([6, 12, 20]) if tier == 'quick' else rng.choice([10, 30, 80])
    return gen_pre(rng, {'scene': sc, 'ops': gen_ops(rng, n, len(sc['bodies']), fixed=0.2, rej=0.4, lu=0.05, strict=strict, noise=0.2)}, ["force", "dt", "exclude"], p=0.1)


def execute(plan, ctx):
    Sim(plan, ctx, [Kin()]).run()


reduce = reduce_plan
