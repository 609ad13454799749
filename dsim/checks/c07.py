"""C07: joints and constraints hold."""
import math

from .. import geom, scene as S
from ..core import Truncated, Violation
from ..sim import Sim, Monitor, gen_ops, gen_pre, reduce_plan, fl
from .c01 import STATE_MEASURE, REAL, STUB
from .c02 import Anchor, anchors
from .c08 import Response, infeasible, joint_rows, rows

PROP = 'C07'
TECH = 'constraint invariants checked after every step'
RUNS = {'quick': 480, 'thorough': 12000}
RULE = ('random scene with at least one joint/constraint, driven through random operations with faults; non-trivial: a step was '
        'taken with a constraint whose body would otherwise have violated it')
STUB = STUB + ['some attempted sub-steps are reported as penetrating by the simulator']
ASSUMPTIONS = ['some velocity keeps every joint and opens every contact (a pair of linked bodies pinching a fixed one has none), and no joint is jammed by friction',
               'constraint sets that are independent (a redundant set makes the linear system singular)']


def pvel(v, r):
    return (v[1] - v[0] * r[1], v[2] + v[0] * r[0])


class Hold(Monitor):
    def start(self, sim):
        self.p0 = sim.poses()
        self.a = Anchor(sim)
        self.drift = {}
        self.prev = sim.poses()
        self.locb = {}
        for n, j in enumerate(sim.sc.get('joints', [])):
            if j['k'] in ('joint', 'fixed'):
                self.drift[n] = 0.0
                la = self.a.loc[n] if j['k'] == 'joint' else (0.0, 0.0)
                P = self.point(sim, n, self.p0)
                if j['b'] is not None:
                    q = self.p0[j['b']]
                    self.locb[n] = geom.rot((P[0] - q[1], P[1] - q[2]), -q[0])
                else:
                    self.locb[n] = P

    def point(self, sim, n, poses):
        j = sim.sc['joints'][n]
        p = poses[j['a']]
        r = geom.rot(self.a.loc[n], p[0]) if j['k'] == 'joint' else (0.0, 0.0)
        return (p[1] + r[0], p[2] + r[1])

    def pointb(self, sim, n, poses):
        j = sim.sc['joints'][n]
        if j['b'] is None:
            return self.locb[n]
        q = poses[j['b']]
        r = geom.rot(self.locb[n], q[0])
        return (q[1] + r[0], q[2] + r[1])

    def after(self, sim, op):
        if op['op'] == 'kick':
            return
        self.hist = getattr(self, 'hist', []) + [x for x in sim.accepted() if x[0].contacts]
        try:
            self.check(sim, op)
        except Violation:
            # pinched between contacts that the joints cannot satisfy: there is no response to hold them to
            for r, h in self.hist:
                Jc, _, e, mu = rows(sim, r)
                if infeasible(Jc, joint_rows(sim, r), e * (Jc @ r.v0)):
                    raise Truncated('contacts that contradict the joints')
                if mu.max() > 0 and any(j['k'] != 'total' for j in sim.sc['joints']):
                    try:
                        Response().judge(sim, r, h, False)
                    except Violation:
                        raise Truncated('a joint jammed by friction')
            raise

    def check(self, sim, op):
        ctx = sim.ctx
        anchors(sim)
        p = sim.poses()
        N = 10 + ctx.steps
        for n, j in enumerate(sim.sc.get('joints', [])):
            a = j['a']
            fixed = {'total': (0, 1, 2), 'x': (1,), 'y': (2,), 'rot': (0,)}.get(j['k'])
            if fixed:
                ctx.probe('static_constraint_steps')
                ctx.nontrivial = True
                for c in fixed:
                    # the stabilisation LCP is accurate to about 1e-4 when its right-hand side is pure rounding noise
                    tol = 1e-4 if sim.sc['post_stab'] else 1e-8
                    if abs(p[a][c] - self.p0[a][c]) > tol * N * (1 + abs(self.p0[a][c])):
                        raise Violation('constraint', "%s constraint: coordinate %d of body %d moved from %.9g to %.9g"
                                        % (j['k'], c, a, self.p0[a][c], p[a][c]))
                continue
            ctx.probe('joint_steps')
            ctx.nontrivial = True
            b = j['b']
            add = 0.0
            for r, h in sim.accepted():
                P = self.point(sim, n, r.poses)
                va = r.v1[3 * a:3 * a + 3]
                ra = (P[0] - r.poses[a][1], P[1] - r.poses[a][2])
                ua = pvel(va, ra)
                if b is None:
                    vb, rb, ub = [0, 0, 0], (0, 0), (0, 0)
                else:
                    vb = r.v1[3 * b:3 * b + 3]
                    rb = (P[0] - r.poses[b][1], P[1] - r.poses[b][2])
                    ub = pvel(vb, rb)
                sc = 1 + abs(ua[0]) + abs(ua[1]) + math.hypot(*ra) * abs(va[0]) + math.hypot(*rb) * abs(vb[0])
                # the joint keeps the attachment through its own polar form: allow its rounding
                if math.hypot(ua[0] - ub[0], ua[1] - ub[1]) > 1e-7 * sc:
                    raise Violation('joint-velocity', 'joint %d: its two sides move at (%.9g, %.9g) and (%.9g, %.9g)'
                                    % ((n,) + ua + ub))
                if j['k'] == 'fixed' and abs(va[0] - vb[0]) > 1e-7 * (1 + abs(va[0])):
                    raise Violation('fixed-joint', 'fixed joint %d: angular velocities %.9g and %.9g' % (n, va[0], vb[0]))
                wb = abs(vb[0])
                Pb = self.pointb(sim, n, r.poses)
                rbm = 0 if b is None else math.hypot(Pb[0] - r.poses[b][1], Pb[1] - r.poses[b][2])
                add = add * (1 + h * wb) + self.drift[n] * h * wb * (1 if add == 0 else 1) \
                    + 0.5 * h * h * (va[0] ** 2 * math.hypot(*ra) + wb ** 2 * rbm)
            if j['k'] == 'fixed':
                rel = (p[a][0] - p[b][0]) - (self.p0[a][0] - self.p0[b][0])
                if not sim.sc['post_stab'] and abs(rel) > 1e-8 * N:
                    raise Violation('fixed-joint', 'fixed joint %d: relative rotation drifted by %.3g' % (n, rel))
            if not sim.sc['post_stab']:
                P, Q = self.point(sim, n, p), self.pointb(sim, n, p)
                d = math.hypot(P[0] - Q[0], P[1] - Q[1])
                bound = (self.drift[n] + add) * 1.01 + 1e-8 * N * (1 + abs(P[0]) + abs(P[1])) / 100
                if d > bound:
                    raise Violation('joint-drift', 'joint %d: attachment points drifted from %.3g to %.3g apart in one step, '
                                    'second-order motion explains at most %.3g' % (n, self.drift[n], d, bound))
                self.drift[n] = d


def generate(rng, tier):
    strict = rng.random() < 0.7
    while True:
        sc = S.gen_mixed(rng, eps=0.1, tol=rng.choice([1e-6, 1e-4]), post_stab=rng.random() < 0.25, strict=strict,
                         dt=rng.choice([1 / 30, 1 / 60, 0.1]), vmax=rng.choice([20, 60]), joints=1.0,
                         n=rng.choice([2, 2, 3, 4]))
        if rng.random() < 0.4:
            chain(rng, sc)
        if sc['joints']:
            break
    n = rng.choice([6, 12, 20]) if tier == 'quick' else rng.choice([10, 30, 80])
    return gen_pre(rng, {'scene': sc, 'ops': gen_ops(rng, n, len(sc['bodies']), fixed=0.2, rej=0.4, lu=0.05, kick=0.15, strict=strict)}, ['force', 'dt'], p=0.1)


def chain(rng, sc):
    """A hanging chain next to (never overlapping) whatever is there: bodies linked by joints."""
    B = sc['bodies']
    x = max([abs(b['p'][1]) for b in B] + [0]) + 500.0
    n = rng.choice([2, 3, 4])
    base = len(B)
    y = 0.0
    for k in range(n):
        w, h = rng.uniform(8, 20), rng.uniform(20, 50)
        B.append({'k': 'rect', 'dims': [w, h], 'verts': S.rect_verts(w, h), 'p': [0.0, x, y],
                  'v': [rng.uniform(-1, 1), rng.uniform(-30, 30), 0.0], 'm': rng.uniform(0.3, 3), 'e': 0.5, 'mu': 0.5,
                  'f': [{'t': 'gravity', 'g': 100}]})
        if k == 0:
            sc['joints'].append({'k': 'joint', 'a': base, 'b': None, 'pos': [x, y - h / 2]})
        else:
            kind = rng.choice(['joint', 'joint', 'joint', 'fixed'])
            if kind == 'joint':
                sc['joints'].append({'k': 'joint', 'a': base + k, 'b': base + k - 1, 'pos': [x, y - h / 2]})
            else:
                sc['joints'].append({'k': 'fixed', 'a': base + k, 'b': base + k - 1})
        for m in range(k):
            sc['nc'].append([base + m, base + k])
        y += h


def execute(plan, ctx):
    Sim(plan, ctx, [Hold()]).run()


reduce = reduce_plan
