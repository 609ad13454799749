"""C06: bodies are rigid, and their collision volumes follow them."""
import math

from .. import geom, scene as S
from ..core import Violation
from ..sim import Sim, Monitor, gen_ops, reduce_plan, fl
from .c01 import STATE_MEASURE, REAL, STUB, RULE
from .c02 import shapes

PROP = 'C06'
TECH = 'shapes and collision volumes rebuilt independently after every operation'
RUNS = {'quick': 480, 'thorough': 12000}
STUB = STUB + ['some attempted sub-steps are reported as penetrating by the simulator']
ASSUMPTIONS = []


class Rigid(Monitor):
    def start(self, sim):
        self.check(sim)

    def after(self, sim, op):
        self.check(sim)

    def check(self, sim):
        shapes(sim)
        for i, b in enumerate(sim.bodies):
            spec = sim.sc['bodies'][i]
            if fl(b.rot[0]) != fl(b.p[0]) or [fl(x) for x in b.pos] != [fl(x) for x in b.p[1:]]:
                raise Violation('pose-views', 'rot/pos of body %d disagree with its pose' % i)
            if abs(fl(b.p[0])) > 1e-6:
                sim.ctx.nontrivial = True
            g = b.geom.getPosition()
            if abs(g[0] - fl(b.pos[0])) + abs(g[1] - fl(b.pos[1])) > 1e-9 * (1 + abs(g[0]) + abs(g[1])):
                raise Violation('geom', 'collision volume of body %d is at (%.9g, %.9g), the body at (%.9g, %.9g)'
                                % (i, g[0], g[1], fl(b.pos[0]), fl(b.pos[1])))
            x0, x1, y0, y1, _, _ = b.geom.getAABB()
            sh = S.spec_shape(spec, S.pose(b))
            m = sim.sc['eps'] / 2
            pts = [(sh[1][0] + sx * sh[2], sh[1][1] + sy * sh[2]) for sx, sy in ((1, 0), (-1, 0), (0, 1), (0, -1))] \
                if sh[0] == 'c' else sh[1]
            for x, y in pts:
                if x - m < x0 - 1e-9 or x + m > x1 + 1e-9 or y - m < y0 - 1e-9 or y + m > y1 + 1e-9:
                    raise Violation('broadphase', 'collision volume of body %d does not enclose its point (%.6g, %.6g)' % (i, x, y))
            M = [[fl(x) for x in row] for row in b.M]
            want = [S.inertia(spec), spec['m'], spec['m']]
            for r in range(3):
                for c in range(3):
                    if abs(M[r][c] - (want[r] if r == c else 0.0)) > 1e-9 * (1 + want[r]):
                        raise Violation('mass', 'mass matrix of body %d is wrong or changed: [%d][%d] = %.9g' % (i, r, c, M[r][c]))


class TeleSim(Sim):
    def do(self, op):
        if op['op'] != 'setp':
            return super().do(op)
        self.op = op
        self.solves = []
        self.seams.begin(op)
        self.ctx.op()
        self.t0 = self.t
        b = self.bodies[op['b'] % len(self.bodies)]
        for dp in op['seq']:
            b.set_p(b.p + b.p.new_tensor(dp))
            self.ctx.fault('pose_set_by_user')
            for m in self.monitors:
                m.after(self, op)
        self.world.find_contacts()
        self.ctx.log('setp', self.poses())


def generate(rng, tier):
    strict = rng.random() < 0.5
    sc = S.gen_mixed(rng, eps=rng.choice([0.1, 0.5, 1.0]), tol=1e-6, post_stab=rng.random() < 0.3, strict=strict,
                     dt=rng.choice([1 / 30, 1 / 60, 0.1]), vmax=rng.choice([20, 60]), wmax=rng.choice([2, 10, 40]), joints=0.3,
                     n=rng.choice([1, 2, 3, 4]))
    n = rng.choice([6, 12, 20]) if tier == 'quick' else rng.choice([10, 30, 120])
    ops = gen_ops(rng, n, len(sc['bodies']), fixed=0.1, rej=0.4, strict=strict)
    if not strict and rng.random() < 0.8:
        for _ in range(rng.choice([1, 3, 6])):
            big = rng.choice([0.0, 1.0, 30.0])
            ops.insert(rng.randrange(len(ops) + 1),
                       {'op': 'setp', 'b': rng.randrange(len(sc['bodies'])),
                        'seq': [[rng.choice([0.0, rng.uniform(-7, 7), math.pi, -math.pi / 2]), rng.uniform(-big, big), rng.uniform(-big, big)]
                                for _ in range(rng.choice([1, 2, 5]))]})
    return {'scene': sc, 'ops': ops}


def execute(plan, ctx):
    TeleSim(plan, ctx, [Rigid()]).run()


reduce = reduce_plan
