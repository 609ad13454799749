"""C16: position correction moves bodies only, and only for the better."""
import math
import random

import numpy as np
from scipy.optimize import nnls

from .. import geom, scene as S
from ..core import Violation, Truncated, Ctx
from ..sim import Sim, gen_ops, reduce_plan
from ..threads import forked
from .c01 import STATE_MEASURE, REAL, STUB, pen_check
from .c02 import anchors
from .c07 import Hold, chain
from .c08 import joint_rows, mass
from .c11 import snapshot

PROP = 'C16'
TECH = 'every step is executed twice from the same state, with and without correction (in a forked process); the difference is judged by a reference projection'
RUNS = {'quick': 320, 'thorough': 8000}
RULE = ('random scene with joints and contacts and position correction, driven through random operations with faults (rejected attempts, '
        'corrections rejected as penetrating, broken factorisations); non-trivial: a correction moved a body')
STUB = STUB + ['some attempted sub-steps and some corrected poses are reported as penetrating by the simulator']
ASSUMPTIONS = ['constraint sets that are independent', 'where contacts take part the correction is compared to the accuracy of the contact solver']


class Gap(Hold):
    """Joint gaps only."""

    def after(self, sim, op):
        pass

    def gaps(self, sim, poses):
        out = []
        for n, j in enumerate(sim.sc['joints']):
            if j['k'] in ('joint', 'fixed'):
                P, Q = self.point(sim, n, poses), self.pointb(sim, n, poses)
                out.append((P[0] - Q[0], P[1] - Q[1]))
        return out


def off_step(sim, op):
    """The same step without correction."""
    w = sim.world
    w.post_stab = False
    sim.ctx = Ctx(sim.plan)
    sim.seams.ctx = sim.ctx
    mons, sim.monitors = sim.monitors, []
    sim.do({k: v for k, v in op.items() if k != 'rejs'})
    return {'t': sim.t, 'v': sim.vels(), 'p': sim.poses(), 'n': len(sim.solves), 'joints': snapshot(sim)['joints']}


def contact_rows(sim, st):
    n = len(sim.bodies)
    rows = []
    for nrm, p1, p2, pen, i, j in st.contacts:
        x = np.zeros(3 * n)
        x[3 * i:3 * i + 3] += [p1[0] * nrm[1] - p1[1] * nrm[0], nrm[0], nrm[1]]
        x[3 * j:3 * j + 3] -= [p2[0] * nrm[1] - p2[1] * nrm[0], nrm[0], nrm[1]]
        rows.append(x)
    return np.array(rows).reshape(-1, 3 * n)


def unsolvable(J, C, jv, cv):
    """No displacement fulfils the joints and separates the contacts (for instance a contact between two held bodies)."""
    from scipy.optimize import linprog
    n = C.shape[1]
    # minimise the largest violation
    A = [np.append(-c, -1.0) for c in C] + [np.append(j, -1.0) for j in J] + [np.append(-j, -1.0) for j in J]
    b = list(cv) + list(-jv) + list(jv)
    r = linprog(np.append(np.zeros(n), 1.0), A_ub=np.array(A), b_ub=np.array(b), bounds=[(None, None)] * n + [(0, None)])
    return r.status != 0 or r.fun > 1e-9


def judge(sim, op, before, off, gap):
    ctx = sim.ctx
    p0, on = before
    if sim.t != off['t']:
        raise Violation('clock', 'with correction the step ends at %r, without at %r' % (sim.t, off['t']))
    for i, (a, b) in enumerate(zip(sim.vels(), off['v'])):
        if a != b:
            raise Violation('velocity', 'with correction body %d ends the step with velocity %r, without with %r' % (i, a, b))
    if len(sim.stabs) != 1:
        raise Truncated('no single correction computed')
    st = sim.stabs[0]
    dt = sim.t - sim.t0
    n = len(sim.bodies)
    d = np.array(sim.poses()).reshape(-1) - np.array(off['p']).reshape(-1)
    v = np.array(off['v']).reshape(-1)
    J, C, M = joint_rows(sim, st), contact_rows(sim, st), mass(sim)
    size = 1 + np.abs(v).max() * dt
    dropped = not d.any()
    # what is violated
    jv = J @ v
    e = np.array([(sim.sc['bodies'][c[4]]['e'] + sim.sc['bodies'][c[5]]['e']) / 2 for c in st.contacts])
    cv = (1 - e) * (C @ v) if len(st.contacts) else np.zeros(0)
    if not sim.sc['strict'] and op.get('rejs'):
        raise AssertionError('bad plan')
    if op.get('rejs') and d.any():
        raise Violation('kept', 'a correction that causes penetration was kept in a strict world')
    lim = np.linalg.norm(J, axis=1).max() if len(J) else 1.0
    active = (np.abs(jv).max() if len(jv) else 0.0) + (max(0.0, -cv.min()) if len(cv) else 0.0)
    if active < 1e-12 * (1 + np.abs(v).max()):
        ctx.probe('nothing_violated')
        bad = np.abs(d).max()
        if bad > (1e-9 if not len(cv) else 1e-5) * size:
            raise Violation('idle', 'no joint or contact is violated, and the correction moves a body by %.3g' % bad)
        return
    if op.get('rejs'):
        return
    if len(J):
        MiJ = (J / M).T
        A = J @ MiJ
        if np.linalg.cond(A) > 1e10:
            ctx.probe('redundant_constraints')
            return
        if len(cv):
            # motion along a contact that the joints determine completely
            free = C - (C @ MiJ) @ np.linalg.solve(A, J)
            if (np.abs(free).max(axis=1) < 1e-7 * (1 + np.abs(C).max(axis=1))).any():
                ctx.probe('contact_determined_by_joints')
                return
    ref = None
    if not len(cv):
        ref = -0.5 * dt * (MiJ @ np.linalg.solve(A, jv)) if len(J) else np.zeros(3 * n)
    if dropped and sim.sc['strict']:
        ctx.probe('correction_dropped')
        if ref is not None and np.abs(ref).max() > 1e-9 * size:
            # only a pose that penetrates may be refused
            moved = [[x + y for x, y in zip(a, ref[3 * i:3 * i + 3])] for i, a in enumerate(off['p'])]
            sh = [S.spec_shape(b, q) for b, q in zip(sim.sc['bodies'], moved)]
            worst = min([geom.shape_dist(sh[i], sh[j])[0] for j in range(n) for i in range(j) if frozenset((i, j)) not in sim.nc] or [1.0])
            if worst > -sim.sc['tol'] + 1e-9:
                raise Violation('missing', 'a correction of %.3g was not applied although it causes no penetration (distance %.3g)' % (np.abs(ref).max(), worst))
        return
    ctx.nontrivial = True
    ctx.probe('corrections')
    if ref is not None:
        ctx.probe('corrections_compared')
        err = np.abs(d - ref).max()
        if err > 1e-7 * (np.abs(ref).max() + 1e-3 * size):
            raise Violation('correction', 'the correction moves the bodies by %s, half the violation of the joints needs %s' % (list(d), list(ref)))
    else:
        # with contacts: joint rows fulfilled, no contact pushed together, nothing pulled
        tol = 1e-5 * (size + np.abs(d).max())
        if sim.seams.broke:
            return
        r1 = np.abs(J @ d + 0.5 * dt * jv).max() if len(J) else 0.0
        r2 = -(C @ d + 0.5 * dt * cv).min()
        X = np.concatenate([J, -J, C]).T / np.sqrt(M)[:, None]
        r3 = nnls(X, d * np.sqrt(M), maxiter=1000)[1]
        if max(r1, r2, r3) > tol:
            if unsolvable(J, C, jv, cv):
                ctx.probe('contradictory_constraints')
                return
            raise Violation('correction', 'the correction misses %.3g of the joint error and %.3g of the contact violation, and moves the bodies by '
                            '%.3g more than these need' % (r1, max(r2, 0), r3))
        ctx.probe('corrections_with_contacts')
    # joints: what this step adds to their error
    w = max(abs(x) for q in off['v'] for x in q[:1]) * dt
    if w < 0.3 and not len(cv):
        g0, g1, g2 = (np.array(gap.gaps(sim, q)) for q in (p0, off['p'], sim.poses()))
        if len(g0):
            a, b = np.linalg.norm(g1 - g0), np.linalg.norm(g2 - g0)
            sim.adds.append((a, b))
            ctx.probe('joint_errors_compared')


def execute(plan, ctx):
    gap = Gap()
    random.seed(plan['rs'])
    sim = Sim(plan, ctx, [gap])
    sim.adds = []
    for i, op in enumerate(plan['ops']):
        random.seed(plan['rs'] + i)
        p0 = sim.poses()
        if op['op'] == 'step':
            r = forked(lambda: off_step(sim, op))
            if r[0] != 'ok':
                if r[1] == 'Truncated':
                    raise Truncated(r[2])
                raise Violation('exception:' + r[1], 'the step without correction failed: ' + r[2])
            off = r[1]
            random.seed(plan['rs'] + i)
        sim.do(op)
        if op['op'] == 'step':
            judge(sim, op, (p0, None), off, gap)
        if op['op'] == 'kick':
            continue
        anchors(sim)
        w = pen_check(sim) if sim.sc['strict'] else None
        if w:
            raise Violation('penetration', 'bodies %d and %d overlap by %.3g after a corrected step (tolerance %.3g)' % (w[1], w[2], -w[0], sim.sc['tol']))
        pens = [c[3] for c in sim.contacts()]
        if sim.sc['strict'] and any(x > sim.sc['tol'] for x in pens):
            raise Violation('contacts', 'a strict world keeps a penetrating contact after a corrected step: %.3g' % max(pens))
    A, B = sum(a for a, b in sim.adds), sum(b for a, b in sim.adds)
    if len(sim.adds) >= 4 and A > 0.05 and B > 0.5 * A:
        raise Violation('joint-error', 'over %d steps motion adds %.4g to the joint errors without correction, and %.4g with it' % (len(sim.adds), A, B))


def generate(rng, tier):
    strict = rng.random() < 0.6
    while True:
        sc = S.gen_mixed(rng, eps=0.1, tol=rng.choice([1e-6, 1e-4]), post_stab=True, strict=strict, dt=rng.choice([1 / 30, 1 / 60, 0.1]),
                         vmax=rng.choice([20, 60]), joints=0.6, n=rng.choice([1, 2, 3, 4]))
        if rng.random() < 0.5:
            chain(rng, sc)
        if sc['joints'] or rng.random() < 0.3:
            break
    n = rng.choice([3, 8, 15]) if tier == 'quick' else rng.choice([10, 30])
    ops = gen_ops(rng, n, len(sc['bodies']), fixed=0.08, rej=0.2, kick=0.15, strict=strict)
    if strict and rng.random() < 0.5:
        for o in ops:
            if o['op'] == 'step' and rng.random() < 0.2:
                o['rejs'] = 1
    return {'scene': sc, 'ops': ops}


reduce = reduce_plan
