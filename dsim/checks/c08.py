"""C08: contact response (Newton restitution, Signorini, Coulomb friction)."""
import math

import numpy as np
from scipy.optimize import linprog, nnls

from .. import scene as S
from ..core import Violation
from ..sim import Sim, Monitor, gen_ops, gen_pre, reduce_plan
from .c01 import STATE_MEASURE, REAL, STUB

PROP = 'C08'
TECH = 'impulses decomposed over the friction cones by an independent solver'
RUNS = {'quick': 480, 'thorough': 12000}
RULE = ('contact-rich random scene driven through random operations with faults; non-trivial: at least one accepted sub-step was '
        'solved with contacts and its impulses were decomposed over the friction cones')
ASSUMPTIONS = ['responses are judged to a relative accuracy of 1e-5 (cones) and 1e-6 (normal velocities)',
               'where nothing moves and nothing pushes, velocities up to 5e-3 out of nothing are accepted (degenerate problem)',
               'joints other than the one that pins the ground only occur in frictionless scenes (jamming of a joint against friction has '
               'no solution in general), and only where some velocity opens every contact while keeping every joint']


def rows(sim, r):
    """Contact Jacobians from the contact list the sub-step was solved with (independent re-derivation)."""
    n = len(sim.bodies)
    Jc, Jt, e, mu, nv = [], [], [], [], []
    for nrm, p1, p2, pen, i, j in r.contacts:
        t = (nrm[1], -nrm[0])
        a, b = np.zeros(3 * n), np.zeros(3 * n)
        for row, d in ((a, nrm), (b, t)):
            row[3 * i:3 * i + 3] = (p1[0] * d[1] - p1[1] * d[0], d[0], d[1])
            row[3 * j:3 * j + 3] = (-(p2[0] * d[1] - p2[1] * d[0]), -d[0], -d[1])
        Jc.append(a)
        Jt.append(b)
        bi, bj = sim.sc['bodies'][i], sim.sc['bodies'][j]
        e.append((bi['e'] + bj['e']) / 2)
        mu.append((bi['mu'] + bj['mu']) / 2)
    return np.array(Jc), np.array(Jt), np.array(e), np.array(mu)


def joint_rows(sim, r):
    """Constraint Jacobian at the start of the sub-step (joints attached to the first body's material point)."""
    n = len(sim.bodies)
    out = []

    def row(a, va, b=None, vb=None):
        x = np.zeros(3 * n)
        x[3 * a:3 * a + 3] = va
        if b is not None:
            x[3 * b:3 * b + 3] = vb
        out.append(x)
    from .c02 import Anchor
    an = sim.__dict__.setdefault('_anchor', None) or Anchor(sim)
    sim._anchor = an
    from .. import geom
    for k, j in enumerate(sim.sc.get('joints', [])):
        a, b = j['a'], j.get('b')
        if j['k'] in ('total', 'x', 'y', 'rot'):
            for c in {'total': (0, 1, 2), 'x': (1,), 'y': (2,), 'rot': (0,)}[j['k']]:
                row(a, [1.0 if c == m else 0.0 for m in range(3)])
            continue
        pa = r.poses[a]
        ra = geom.rot(an.loc[k], pa[0]) if j['k'] == 'joint' else (0.0, 0.0)
        rb = None
        if b is not None:
            q = r.poses[b]
            rb = (pa[1] + ra[0] - q[1], pa[2] + ra[1] - q[2])
        row(a, [-ra[1], 1, 0], b, None if rb is None else [rb[1], -1, 0])
        row(a, [ra[0], 0, 1], b, None if rb is None else [-rb[0], 0, -1])
        if j['k'] == 'fixed':
            row(a, [1, 0, 0], b, [-1, 0, 0])
    return np.array(out) if out else np.zeros((0, 3 * n))


def mass(sim):
    return np.array([x for b in sim.sc['bodies'] for x in (S.inertia(b), b['m'], b['m'])])


def force(sim, t):
    return np.array([x for b in sim.sc['bodies'] for x in S.total_force(b, t)])


STATS = []


class Response(Monitor):
    def after(self, sim, op):
        if op['op'] == 'kick':
            return
        for r, h in sim.accepted():
            if not r.contacts:
                continue
            self.judge(sim, r, h, bool(op.get('lu')))

    def judge(self, sim, r, h, broken):
        ctx = sim.ctx
        Jc, Jt, e, mu = rows(sim, r)
        v0, v1 = np.array(r.v0), np.array(r.v1)
        M = mass(sim)
        f = force(sim, r.t)
        imp = M * (v1 - v0) - h * f
        w = np.sqrt(M)
        Je = joint_rows(sim, r)
        vscale = max(1.0, np.abs(Jc @ v0).max(), np.abs(Jc @ (v0 + h * f / M)).max(), np.abs(Jc @ v1).max())
        on = np.repeat([any(k in (c[4], c[5]) for c in r.contacts) for k in range(len(sim.bodies))], 3)
        drive = max(np.linalg.norm((w * v0)[on]), np.linalg.norm((h * f / w)[on]))
        if drive < 1e-6 * w.max() and np.linalg.norm(imp / w) < REST * w.max():
            # everything at rest: the right-hand side is rounding noise and the solution doubly degenerate
            ctx.probe('responses_at_rest')
            return
        s = Jc @ v1 + e * (Jc @ v0)
        tol_s, tol_a, tol_r = TOL_S, TOL_A, TOL_R
        if s.min() < -tol_s * vscale:
            if self.excused(sim, r, broken, Jc, Je, e * (Jc @ v0)):
                return
            k = int(s.argmin())
            raise Violation('approaching', 'contact between bodies %d and %d: relative normal velocity %.6g before, %.6g after, '
                            'restitution %.3g' % (r.contacts[k][4], r.contacts[k][5], (Jc @ v0)[k], (Jc @ v1)[k], e[k]))
        vt = Jt @ v1
        cols, who = [], []
        for k in range(len(s)):
            if s[k] > TOL_A * vscale:
                continue
            for sg in (1, -1):
                if mu[k] == 0 and sg < 0:
                    continue
                if mu[k] > 0 and sg * vt[k] > TOL_A * vscale:        # sliding this way: friction cannot push along
                    continue
                cols.append(Jc[k] + sg * mu[k] * Jt[k])
                who.append((k, sg))
        A = np.array(cols + [x for x in Je] + [-x for x in Je]).T if (cols or len(Je)) else np.zeros((len(M), 0))
        target = imp / w
        if A.shape[1]:
            sc = np.linalg.norm(A / w[:, None], axis=0)
            sol, res = nnls(A / w[:, None] / sc, target, maxiter=2000)
        else:
            res = np.linalg.norm(target)
        ref = max(np.linalg.norm(target), 0.1 * np.linalg.norm(w * v0), 0.1 * np.linalg.norm(h * f / w), 1e-3 * w.max())
        rel = res / ref
        if rel > tol_r and self.excused(sim, r, broken, Jc, Je, e * (Jc @ v0)):
            return
        STATS.append((rel, float(s.min() / vscale)))
        ctx.nontrivial = True
        ctx.probe('responses_judged')
        if np.linalg.norm(target) > 1e-6:
            ctx.probe('responses_with_impulse')
        if any(abs(vt[k]) > TOL_A * vscale and mu[k] > 0 and s[k] <= TOL_A * vscale for k in range(len(s))):
            ctx.probe('sliding_contacts')
        if rel > tol_r:
            raise Violation('cone', 'contact impulses of a sub-step at t=%.6g are outside the friction cones of its closing contacts: '
                            'relative residual %.3g (%d contacts)' % (r.t, rel, len(s)), rel=rel)


    def excused(self, sim, r, broken, Jc, Je, ev):
        """No response exists at all (a contact can only open by breaking a joint), or the factorisation was broken."""
        if broken and sim.seams.broke:
            sim.ctx.probe('responses_after_breakdown')
            return True
        if not infeasible(Jc, Je, ev):
            return False
        sim.ctx.probe('responses_infeasible')
        return True


def infeasible(Jc, Je, ev):
    """No velocity keeps every joint and opens every contact as restitution asks (with a margin)."""
    if len(Je) == 0 or len(Jc) == 0:
        return False
    # largest margin s with Je v = 0, Jc v >= s - e Jc v0
    n = Jc.shape[1]
    c = np.zeros(n + 1)
    c[-1] = -1.0
    lp = linprog(c, A_ub=np.hstack([-Jc, np.ones((len(Jc), 1))]), b_ub=ev, A_eq=np.hstack([Je, np.zeros((len(Je), 1))]),
                 b_eq=np.zeros(len(Je)), bounds=[(-1e4, 1e4)] * n + [(None, 1.0)])
    return not (lp.status == 0 and lp.x[-1] > MARGIN)


MARGIN = 1e-6
REST = 5e-3
TOL_S, TOL_A, TOL_R = 1e-6, 1e-3, 1e-5


def generate(rng, tier):
    strict = rng.random() < 0.7
    smooth = rng.random() < 0.35           # joints only without friction: see ASSUMPTIONS
    sc = S.gen_busy(rng, eps=rng.choice([0.1, 0.1, 0.5]), tol=1e-6, post_stab=rng.random() < 0.15, strict=strict,
                    dt=rng.choice([1 / 30, 1 / 60, 0.1]), joints=0.8 if smooth else 0.0, n=rng.choice([1, 2, 2, 3, 4]))
    if smooth:
        for b in sc['bodies']:
            b['mu'] = 0.0
    n = rng.choice([4, 8, 12]) if tier == 'quick' else rng.choice([10, 30, 60])
    return gen_pre(rng, {'scene': sc, 'ops': gen_ops(rng, n, len(sc['bodies']), fixed=0.1, rej=0.2, kick=0.2, strict=strict)},
                   ['force', 'dt'] if smooth else ['material', 'material', 'force', 'dt'])


def execute(plan, ctx):
    Sim(plan, ctx, [Response()]).run()


reduce = reduce_plan
