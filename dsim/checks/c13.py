"""C13: derivatives match the motion, whenever and however often they are taken."""
import math
import random

import torch

from .. import geom, scene as S
from ..core import Violation, Truncated, InjectedInterrupt, Ctx, drop_each
from ..sim import Sim, gen_ops, reduce_plan, fl
from ..threads import LineTrap, Sched
from .c12 import recorder
from .c01 import STATE_MEASURE, REAL, STUB

PROP = 'C13'
TECH = 'derivatives compared with finite differences along the same simulated path, and with themselves after other histories of forward and backward passes'
RUNS = {'quick': 400, 'thorough': 10000}
RULE = ('random scene with 1-4 differentiable parameters (masses, friction, restitution, sizes, outlines, positions, velocities, force strengths) driven '
        'through random operations with faults; derivatives of a random linear outcome are compared with central differences, taken again, late, '
        'piecewise, after an interrupted backward pass, and from threads; non-trivial: at least one derivative was compared on a smooth path')
REAL = REAL + ['torch autograd', 'LCPFunction.backward']
ASSUMPTIONS = ['a parameter is only judged where the four perturbed runs take the same path (attempts, contacts) and their one-sided differences agree',
               'derivatives are compared to 1e-4 relative to the size of the contributions', 'contact problems that have a solution', 'parameters that do not break a tie between two parallel faces in contact']
REL = 1e-4


def values(plan):
    return [float(p['v']) for p in plan['params']]


def body_kw(plan, th):
    """Constructor arguments that carry the parameters."""
    sc = plan['scene']

    def kw(i, b):
        d = {}
        for p, x in zip(plan['params'], th):
            if p['b'] != i:
                continue
            k = p['k']
            if k == 'mass':
                d['mass'] = x
            elif k == 'e':
                d['restitution'] = x
            elif k == 'mu':
                d['fric_coeff'] = x
            elif k == 'rad':
                d['rad'] = x
            elif k == 'dims':
                base = d.get('dims')
                base = x.new_tensor(b['dims']) if base is None else base
                u = torch.zeros(2, dtype=x.dtype)
                u[p['c']] = 1.0
                d['dims'] = base + u * (x - b['dims'][p['c']])
            elif k == 'verts':           # the outline, scaled about its centroid
                d['verts'] = [x * v for v in d.get('verts') or [x.new_tensor(v) for v in b['verts']]]
            elif k == 'vert':            # one coordinate of one vertex
                base = d.get('verts') or [x.new_tensor(v) for v in b['verts']]
                m, c = divmod(p['c'], 2)
                u = torch.zeros(2, dtype=x.dtype)
                u[c] = 1.0
                d['verts'] = [v + u * (x - b['verts'][m][c]) if n == m else v for n, v in enumerate(base)]
            elif k in ('vel', 'pos'):
                key, src = ('vel', b['v']) if k == 'vel' else ('pos', b['p'])
                base = d.get(key)
                base = x.new_tensor(src) if base is None else base
                u = torch.zeros(3, dtype=x.dtype)
                u[p['c']] = 1.0
                d[key] = base + u * (x - src[p['c']])
        return d
    return kw


def faces(sim):
    """Contacts between (nearly) parallel faces: which bodies, and their relative angle."""
    out = []
    for r in sim.solves + sim.stabs:
        for n, p1, p2, pen, i, j in r.contacts:
            if all(aligned(sim.sc['bodies'][k], r.poses[k], n) for k in (i, j)):
                out.append(r.poses[i][0] - r.poses[j][0])
            else:
                out.append(None)
    return out


def aligned(b, pose, n):
    if b['k'] == 'circle':
        return False
    vs = S.spec_shape(b, pose)[1]
    for k in range(len(vs)):
        x, y = vs[k][0] - vs[k - 1][0], vs[k][1] - vs[k - 1][1]
        if abs(x * n[0] + y * n[1]) < 1e-3 * math.hypot(x, y):
            return True
    return False


class Path:
    """One simulated run; outcome is a fixed linear function of the final (and one intermediate) state."""

    def __init__(self, plan, ctx, th, on_op=None):
        from lcp_physics.physics.forces import ExternalForce
        random.seed(plan['rs'])
        self.sim = sim = Sim(plan, ctx, body_kw=body_kw(plan, th))
        for p, x in zip(plan['params'], th):
            if p['k'] == 'force':
                u = torch.tensor([1.0 if c == p['c'] else 0.0 for c in range(3)], dtype=torch.double)
                sim.bodies[p['b']].add_force(ExternalForce(lambda t, u=u: u, multiplier=x))
        self.sig, self.cmax = [], 0
        self.mid = None
        self.faces = []
        for i, op in enumerate(plan['ops']):
            random.seed(plan['rs'] + i)
            sim.do(op)
            self.sig.append((op['op'], len(sim.solves), [[(c[4], c[5]) for c in r.contacts] for r in sim.solves], sim.t.hex()))
            self.faces += faces(sim)
            self.cmax = max([self.cmax] + [len(r.contacts) for r in sim.solves])
            if i == plan['mid']:
                self.mid = self.measure(plan, 1)
            if on_op:
                on_op(i, self)
        self.out = self.measure(plan, 0)

    def measure(self, plan, k):
        rng = random.Random(plan['cs'] + k)
        tot = 0
        for b in self.sim.bodies:
            cp = [rng.uniform(-1, 1) for _ in range(3)]
            cv = [rng.uniform(-1, 1) * 0.1 for _ in range(3)]
            tot = tot + (b.p * b.p.new_tensor(cp)).sum() + (b.v * b.v.new_tensor(cv)).sum()
        return tot


def leaves(vals):
    return [torch.tensor(v, dtype=torch.double, requires_grad=True) for v in vals]


def grad(y, th, **kw):
    if not (isinstance(y, torch.Tensor) and y.requires_grad):
        return [0.0] * len(th)
    g = torch.autograd.grad(y, th, allow_unused=True, **kw)
    return [0.0 if x is None else fl(x) for x in g]


def agree(a, b, tol, scale):
    return len(a) == len(b) and all(x == y or abs(x - y) <= tol * (s + abs(x) + abs(y)) for x, y, s in zip(a, b, scale))


STATS = []


def execute(plan, ctx):
    vals = values(plan)
    th = leaves(vals)
    quiet = Ctx(plan)
    hist = plan['history']
    mids = []

    def on_op(i, path):
        # an earlier outcome is differentiated while the world is still running
        if hist.get('during') and i == plan['mid'] and path.mid is not None and getattr(path.mid, 'requires_grad', False):
            mids.append(grad(path.mid, th, retain_graph=True))
            ctx.fault('backward_during_run')
    box = recorder(ctx)
    path = Path(plan, ctx, th, on_op)
    path.box = list(box)
    y = path.out
    f0 = fl(y)
    y2 = path.mid if path.mid is not None else y
    base = None
    if hist.get('interrupt') and getattr(y, 'requires_grad', False):
        trap = LineTrap()
        trap.arm(hist['interrupt'])
        trap.on()
        try:
            grad(y, th, retain_graph=True)
        except InjectedInterrupt:
            ctx.fault('backward_interrupted')
        finally:
            trap.disarm()
    ctx.op()
    g = grad(y, th, retain_graph=True)
    base = g
    scale = [1.0] * len(g)
    if hist.get('again'):
        ctx.fault('backward_repeated')
        check(base, grad(y, th, retain_graph=True), scale, 'taken a second time')
    for m in mids:
        check(m, grad(y2, th, retain_graph=True), scale, 'of an earlier outcome, taken again after the run,')
    if hist.get('fd'):
        ctx.op()
        fd(plan, ctx, quiet, vals, path, f0, base, th, box)
    if hist.get('late'):
        # other worlds were simulated in the meantime (finite differences); another one is differentiated now
        ctx.fault('backward_late')
        th2 = leaves([v * 1.01 for v in vals])
        try:
            p2 = Path(plan, quiet, th2)
            grad(p2.out, th2)
        except Exception:
            pass
        path.sim.seams.install()
        check(base, grad(y, th, retain_graph=True), scale, 'taken after other worlds were simulated and differentiated')
    if hist.get('threads'):
        r = random.Random(hist['threads'])
        s = Sched(ctx, hist['threads'], r.choice([2, 5, 20]), 60, None, r.choice([None, 'lcp.py', 'lcp.py', 'pdipm.py']))
        got = s.run([lambda: grad(y, th, retain_graph=True), lambda: grad(y2, th, retain_graph=True)])
        for e in s.errors.values():
            raise e
        check(base, got[0], scale, 'taken from two threads at once')
    check(base, grad(y, th), scale, 'taken last')
    ctx.log(base)
    if not hist.get('fd'):
        ctx.nontrivial = True
    for m in base:
        if m != m or abs(m) == math.inf:
            ctx.probe('derivatives_not_finite')


def check(a, b, scale, how, tol=1e-9):
    for k, (x, y, s) in enumerate(zip(a, b, scale)):
        if x != y and not (x != x and y != y) and not abs(x - y) <= tol * (s + abs(x) + abs(y)):
            raise Violation('history', 'the derivative for parameter %d %s is %.12g instead of %.12g' % (k, how, y, x))


def noisy(plan, path, th, k, err):
    """Redundant contacts or constraints: the linear system is so close to singular that rounding alone explains the error
    (derivatives of a sum differ from the sum of the derivatives)."""
    a, b = path.measure(plan, 2), path.out
    ga, gb, gs = (grad(x, th, retain_graph=True)[k] for x in (a, b, 0.7 * a + 0.3 * b))
    return not abs(0.7 * ga + 0.3 * gb - gs) < 1e-3 * err


def linearised(pr):
    """Optimality conditions of a contact problem at its solution: (residual of other inputs at this solution, Jacobian)."""
    r = pr.solve(pr.kw['max_iter'])
    Q, p, G, h, A, b, F = pr.inputs
    nx, nz = Q.shape[-1], G.shape[-2]
    ny = A.shape[-2] if A.numel() else 0
    K = Q.new_zeros(nx + 2 * nz + ny, nx + 2 * nz + ny)
    x, s, z, y = slice(0, nx), slice(nx, nx + nz), slice(nx + nz, nx + 2 * nz), slice(nx + 2 * nz, nx + 2 * nz + ny)
    lam, sl = r['lam'][0], r['s'][0]
    w = 1 / torch.maximum(lam, sl).clamp(min=1e-300)
    K[x, x], K[x, z] = Q[0], G[0].t()
    K[s, s], K[s, z] = torch.diag(lam * w), torch.diag(sl * w)
    K[z, x], K[z, s], K[z, z] = G[0], torch.eye(nz, dtype=Q.dtype), -F[0]
    if ny:
        K[x, y], K[y, x] = A[0].t(), A[0]

    def resid(inputs):
        Q, p, G, h, A, b, F = inputs
        v = K.new_zeros(len(K))
        v[x] = Q[0] @ r['x'][0] + p[0] + G[0].t() @ lam
        v[z] = G[0] @ r['x'][0] + sl - h[0] - F[0] @ lam
        if ny:
            v[x] = v[x] + A[0].t() @ r['nu'][0]
            v[y] = A[0] @ r['x'][0] - b[0]
        return v
    return r, nx, K, resid


def undetermined(plan, path, k, h, box, vals, quiet):
    """Some contact problem on the path has no derivative in this parameter: a complementarity pair that vanishes on both sides
    (a contact about to open or to slip), a velocity that redundant constraints leave open, or constraints that become
    contradictory when the parameter moves."""
    path.sim.seams.lu_fail = None
    moved = []
    for m in (h, -h):
        del box[:]
        v = list(vals)
        v[k] += m
        Path(plan, quiet, [torch.tensor(x, dtype=torch.double) for x in v])
        moved.append(list(box))
    path.sim.seams.install()
    for i, pr in enumerate(path.box):
        r, nx, K, resid = linearised(pr)
        if bool((torch.maximum(r['lam'], r['s']) < 1e-5).any()):
            return 'complementarity_pair_vanishes'
        U, S_, Vh = torch.linalg.svd(K)
        low = S_ <= 1e-9 * S_[0]
        if bool((Vh[low][:, :nx].abs() > 1e-6).any()):
            return 'contact_problem_with_many_solutions'
        if bool(low.any()) and all(len(m) > i and m[i].inputs[2].shape == pr.inputs[2].shape for m in moved):
            d = (resid(moved[0][i].inputs) - resid(moved[1][i].inputs)) / (2 * h)
            if float((U[:, low].t() @ d).norm()) > 1e-6 * (1 + float(d.norm())):
                return 'constraints_become_contradictory'
    return None


def unsolved(path):
    """Some contact problem on the path has no solution (the solver could not converge): no derivative is defined."""
    path.sim.seams.lu_fail = None
    for pr in path.box:
        if pr.resid(pr.solve(pr.kw['max_iter'])) > 1e-7 * pr.scale():
            return True
    return False


def fd(plan, ctx, quiet, vals, path, f0, g, th, box):
    for k, p in enumerate(plan['params']):
        h = 1e-5 * max(1.0, abs(vals[k])) * (0.1 if p['k'] in ('mu', 'e') else 1.0)
        fs = {}
        ok, tie = True, False
        for m in (1.0, -1.0, 0.5, -0.5):
            v = list(vals)
            v[k] += m * h
            try:
                q = Path(plan, quiet, [torch.tensor(x, dtype=torch.double) for x in v])
            except (Violation, Truncated, AssertionError):
                ok = False
                break
            if q.sig != path.sig:
                ok = False
                break
            if any((a is None) != (b is None) or a is not None and abs(a - b) > 1e-13 for a, b in zip(q.faces, path.faces)):
                tie = True
            fs[m] = fl(q.out)
        path.sim.seams.install()
        ctx.op()
        if not ok:
            ctx.probe('path_changed')
            continue
        if tie:          # which of two parallel faces carries the contact is a tie that the perturbation breaks
            ctx.probe('face_tie_broken')
            continue
        mag = 1 + abs(f0)
        d1, d2 = (fs[1.0] - fs[-1.0]) / (2 * h), (fs[0.5] - fs[-0.5]) / h
        up, dn = (fs[1.0] - f0) / h, (f0 - fs[-1.0]) / h
        noise = 1e-11 * mag / h
        size = abs(d1) + abs(up) + abs(dn)
        if abs(up - dn) > 1e-3 * size + 4 * noise or abs(d1 - d2) > 1e-5 * size + 4 * noise:
            ctx.probe('not_smooth')
            continue
        ctx.nontrivial = True
        ctx.probe('derivatives_compared')
        if path.cmax:
            ctx.probe('derivatives_through_contacts')
        ctx.state(p['k'], path.cmax, bool(plan['scene']['joints']), len(path.sig))
        err = abs(g[k] - d1) if g[k] == g[k] else math.inf
        tol = REL * (abs(d1) + 1) + abs(up - dn) + 20 * noise
        STATS.append((err, tol))
        if not err <= tol:
            if unsolved(path):
                ctx.probe('contact_problem_without_solution')
                continue
            why = undetermined(plan, path, k, h, box, vals, quiet)
            if why:
                ctx.probe(why)
                continue
            if math.isfinite(g[k]) and noisy(plan, path, th, k, err):
                ctx.probe('derivative_ill_conditioned')
                continue
            raise Violation('derivative', 'd outcome / d %s of body %d is %.9g, finite differences give %.9g (%d operations, up to %d contacts)'
                            % (p['k'], p['b'], g[k], d1, len(plan['ops']), path.cmax))


def gen_deep(rng):
    """A circle whose centre is inside a polygon, drifting out of it (only worlds that are not strict accept this)."""
    sc = {'eps': 0.1, 'tol': 1e-6, 'dt': rng.choice([1 / 60, 1 / 30]), 'strict': False, 'post_stab': False, 'bodies': [], 'joints': [], 'nc': []}
    a = S.rand_body(rng, kinds=('rect', 'hull'), size=(15, 40), vmax=5, wmax=0.3)
    b = S.rand_body(rng, kinds=('circle',), size=(2, 8), vmax=15)
    if a['k'] == 'rect':
        a['p'][0] = rng.choice([0.0, rng.uniform(-3, 3)])
    vs = a['verts']
    w = [rng.random() + 0.05 for _ in vs]
    c, s = math.cos(a['p'][0]), math.sin(a['p'][0])
    x, y = (sum(u * v[k] for u, v in zip(w, vs)) / sum(w) for k in (0, 1))
    b['p'] = [0.0, x * c - y * s, x * s + y * c]
    for q in (a, b):
        q['f'] = []
        sc['bodies'].append(q)
    return sc


def gen_face(rng, strict):
    """Two polygons nearly face on face, shifted against each other: contacts at the ends of both faces."""
    eps = rng.choice([0.5, 1.0])
    sc = {'eps': eps, 'tol': 1e-6, 'dt': rng.choice([1 / 60, 1 / 30]), 'strict': strict, 'post_stab': False, 'bodies': [], 'joints': [], 'nc': []}
    for k in range(2):
        b = S.rand_body(rng, kinds=('rect', 'rect', 'hull'), size=(8, 20), vmax=5, wmax=0.3)
        if b['k'] == 'hull':
            # a hull whose first face is horizontal: on top (k = 0) or below
            w, h, t = rng.uniform(8, 20), rng.uniform(5, 15), rng.uniform(0.2, 0.8)
            vs = [[w / 2, h / 3], [-w / 2, h / 3], [-w / 2 + w * t, -2 * h / 3]]
            vs = [[-x, -y] for x, y in vs] if k == 0 else vs
            cx, cy = sum(v[0] for v in vs) / 3, sum(v[1] for v in vs) / 3
            b['verts'] = [[x - cx, y - cy] for x, y in vs]
        b['f'] = []
        sc['bodies'].append(b)
    a, b = sc['bodies']
    ang = rng.choice([-1, 1]) * rng.uniform(0.002, 0.02)
    if a['k'] == 'rect':
        a['p'][0] = ang
    elif b['k'] == 'rect':
        b['p'][0] = ang
    else:
        r = lambda v: [v[0] * math.cos(ang) - v[1] * math.sin(ang), v[0] * math.sin(ang) + v[1] * math.cos(ang)]
        b['verts'] = [r(v) for v in b['verts']]
    x = rng.uniform(-12, 12)
    lo, hi = 0.0, 100.0
    for _ in range(60):                              # lower b onto a until the gap is a part of eps
        mid = (lo + hi) / 2
        b['p'][1:] = [x, -mid]
        sep, gap = geom.shape_dist(S.spec_shape(b), S.spec_shape(a))
        if sep < 0 or gap < eps * 0.2:
            lo = mid
        else:
            hi = mid
    b['p'][1:] = [x, -hi]
    b['v'] = [rng.uniform(-0.3, 0.3), rng.uniform(-5, 5), rng.uniform(1, 15)]
    if rng.random() < 0.3:
        sc['joints'].append({'k': 'total', 'a': 0})
        a['v'] = [0.0, 0.0, 0.0]
    return sc


def generate(rng, tier):
    kind = rng.choice(['free', 'joint', 'contact', 'contact', 'contact', 'contact', 'face', 'deep' if rng.random() < 0.6 else 'contact'])
    strict = rng.random() < 0.4
    if kind == 'deep':
        strict = False
        sc = gen_deep(rng)
    elif kind == 'face':
        sc = gen_face(rng, strict)
    elif kind == 'contact':
        sc = S.gen_busy(rng, eps=rng.choice([0.1, 0.5]), tol=1e-6, strict=strict, post_stab=rng.random() < 0.1, dt=rng.choice([1 / 30, 1 / 60, 0.1]),
                        joints=0.15, n=rng.choice([1, 2, 2, 3]), speed=(5, 40))
    else:
        sc = S.gen_mixed(rng, eps=0.1, tol=1e-6, strict=strict, post_stab=rng.random() < 0.2, dt=rng.choice([1 / 30, 0.1]), vmax=20,
                         joints=1.0 if kind == 'joint' else 0.0, n=rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        for b in sc['bodies']:
            b['mu'] = 0.0
    B = sc['bodies']
    held = {j['a'] for j in sc['joints'] if j['k'] == 'total'}
    free = [i for i in range(len(B)) if i not in held] or list(range(len(B)))
    ops = gen_ops(rng, rng.choice([1, 2, 4, 6]) if tier == 'quick' else rng.choice([2, 5, 10]), len(B), fixed=0.1, rej=0.2, kick=0.0, strict=strict)
    params, seen = [], set()
    for _ in range(rng.choice([1, 2, 3, 4])):
        i = rng.choice(free if rng.random() < 0.85 else list(range(len(B))))
        b = B[i]
        k = rng.choice(['mass', 'mass', 'e', 'mu', 'size', 'vel', 'vel', 'pos', 'force'])
        if k == 'size':
            k = {'circle': 'rad', 'rect': 'dims', 'hull': rng.choice(['verts', 'vert', 'vert'])}[b['k']]
        c = rng.randrange(3)
        if k == 'dims':
            c = rng.randrange(2)
        if k == 'pos' and b['k'] == 'hull' and c == 0:
            c = 1
        if k in ('mass', 'e', 'mu', 'rad', 'verts'):
            c = 0
        if k == 'vert':
            c = rng.randrange(2 * len(b['verts']))
        if (i, k, c) in seen or k == 'verts' and (i, 'vert') in {q[:2] for q in seen}:
            continue
        seen.add((i, k, c))
        v = {'mass': b['m'], 'e': b['e'], 'mu': b['mu'], 'rad': b.get('r'), 'dims': (b.get('dims') or [0, 0])[c % 2], 'verts': 1.0,
             'vel': b['v'][c % 3], 'pos': b['p'][c % 3], 'force': 10.0,
             'vert': b['verts'][c // 2][c % 2] if k == 'vert' else 0}[k]
        if k in ('e', 'mu') and v <= 0:
            v = rng.uniform(0.05, 0.9)
            b[k] = v
        params.append({'k': k, 'b': i, 'c': c, 'v': v})
    hist = {'fd': rng.random() < 0.75}
    for k in ('again', 'late', 'during'):
        if rng.random() < 0.4:
            hist[k] = 1
    if rng.random() < 0.25:
        hist['interrupt'] = int(math.exp(rng.uniform(0, 6)))
    if rng.random() < 0.3:
        hist['threads'] = rng.randrange(1, 10 ** 6)
    return {'scene': sc, 'ops': ops, 'params': params, 'history': hist, 'cs': rng.randrange(10 ** 6), 'mid': rng.randrange(len(ops))}


def reduce(plan):
    if len(plan['params']) > 1:
        for ps in drop_each(plan['params']):
            if ps:
                yield dict(plan, params=ps)
    for k in plan['history']:
        yield dict(plan, history={a: b for a, b in plan['history'].items() if a != k})
    n = len(plan['ops'])
    for m in range(1, n):
        yield dict(plan, ops=plan['ops'][:m], mid=min(plan['mid'], m - 1))
    for p in reduce_plan(plan):
        if len(p['ops']) != n:
            continue
        if len(p['scene']['bodies']) != len(plan['scene']['bodies']):
            i = next(i for i in range(len(plan['scene']['bodies'])) if i >= len(p['scene']['bodies'])
                     or p['scene']['bodies'][i] != plan['scene']['bodies'][i])
            ps = [dict(q, b=q['b'] - (q['b'] > i)) for q in plan['params'] if q['b'] != i]
            if ps:
                yield dict(p, params=ps)
            continue
        ok = all(p['scene']['bodies'][q['b']] == plan['scene']['bodies'][q['b']] for q in plan['params'])
        if ok:
            yield p
