"""C05: contact detection is complete, correct and independent of history, pair order and randomness."""
import math

from .. import geom, scene as S
from ..core import Violation, drop_each
from ..sim import Seams, SpaceProxy, contact_tuple, fl
from .c01 import REAL

PROP = 'C05'
TECH = 'contact sets judged by an independent geometry oracle under permuted orders, forced random picks and leftover search state'
RUNS = {'quick': 640, 'thorough': 16000}
RULE = ('2-4 bodies put through a random history of placements aimed at separations around 0 and the contact distance (tangencies, corners, '
        'parallel faces, deep overlaps); after each placement contacts are searched several times, each time with its own pair order, random '
        'picks and leftover search state; non-trivial: some placement had at least one contact')
STATE_MEASURE = 'distinct (kinds of the pair, placement class, sign of the separation, number of contact points), hashed'
STUB = ['broadphase delivery order (permuted by the simulator)', 'random.choice (seeded / adversarial)',
        'positions are set by the simulator instead of being stepped to']
REAL = ['World.find_contacts', 'DiffContactHandler', 'bodies', 'ODE broadphase']
ASSUMPTIONS = ['where two contact directions are equally good (within 1e-6) either one is accepted',
               'two polygons whose nearest features are both vertices are only required to touch once they overlap']


# ------------------------------------------------------------------ oracle for two polygons
def manifolds(A, B, eps):
    """All acceptable contact sets of polygons A, B: [(normal B->A, [(point, pen)])], with the separation."""
    cands = []
    for ref, inc, sgn in ((A, B, -1.0), (B, A, 1.0)):
        for a, b in geom.edges(ref):
            n = geom.outward(a, b)
            ds = [n[0] * (v[0] - a[0]) + n[1] * (v[1] - a[1]) for v in inc]
            cands.append((min(ds), n, sgn, a, b, inc, ds))
    sep = max(c[0] for c in cands)
    out = []
    for s, n, sgn, a, b, inc, ds in cands:
        if s < sep - 1e-9 * (1 + abs(sep)) - 1e-10:
            continue
        m = len(inc)
        t = (b[0] - a[0], b[1] - a[1])
        L = math.hypot(*t)
        t = (t[0] / L, t[1] / L)
        for k in range(m):
            if ds[k] > min(ds) + 1e-7:
                continue
            dots = []
            for i in ((k - 1) % m, k):
                q = geom.outward(inc[i], inc[(i + 1) % m])
                dots.append((q[0] * n[0] + q[1] * n[1], i))
            lo = min(dots)[0]
            for d, i in dots:
                if d > lo + 1e-7:
                    continue
                p, q = inc[i], inc[(i + 1) % m]
                up = t[0] * (p[0] - a[0]) + t[1] * (p[1] - a[1])
                uq = t[0] * (q[0] - a[0]) + t[1] * (q[1] - a[1])
                hp, hq = ds[i], ds[(i + 1) % m]
                u0, u1 = sorted((min(max(up, 0.0), L), min(max(uq, 0.0), L)))
                if max(up, uq) < 1e-6 or min(up, uq) > L - 1e-6:          # (nearly) beside the reference edge
                    out.append(((sgn * n[0], sgn * n[1]), []))
                    if max(up, uq) < -1e-6 or min(up, uq) > L + 1e-6:
                        continue
                pts = []
                for u in (u0, u1):
                    h = hp if abs(uq - up) < 1e-12 else hp + (hq - hp) * (u - up) / (uq - up)
                    pts.append(((a[0] + t[0] * u, a[1] + t[1] * u), -h))
                if abs(uq - up) < 1e-9:                   # incident edge seen end-on
                    pts = [(pts[0][0], -hp), (pts[0][0], -hq)]
                out.append(((sgn * n[0], sgn * n[1]), pts))
    return sep, out


def same_manifold(got, want, eps, tol):
    n, pts = want
    for g in got:
        if math.hypot(g[0][0] - n[0], g[0][1] - n[1]) > 1e-6:
            return False
    left = list(pts)
    for g in got:
        hit = [p for p in left if math.hypot(p[0][0] - g[1][0], p[0][1] - g[1][1]) <= tol and abs(p[1] - g[2]) <= tol]
        if not hit:
            return False
        if len(left) > 1 or len(got) == 1:
            left.remove(hit[0])
    # what is left over must be out of contact distance, or coincide with a reported point
    for p in left:
        if p[1] < -eps + tol:
            continue
        if not any(math.hypot(p[0][0] - g[1][0], p[0][1] - g[1][1]) <= tol and abs(p[1] - g[2]) <= tol for g in got):
            return False
    return True


# ------------------------------------------------------------------ judging one search
def judge(ctx, world, sc, note, cls):
    bodies = world.bodies
    eps = sc['eps']
    nc = S.excluded(sc)
    sh = [S.real_shape(b) for b in bodies]
    per = {}
    for c in world.contacts:
        n, p1, p2, pen, i, j = contact_tuple(c)
        if i == j or not (0 <= i < len(bodies) and 0 <= j < len(bodies)):
            raise Violation('indices', 'contact between bodies %d and %d' % (i, j))
        P1 = (fl(bodies[i].pos[0]) + p1[0], fl(bodies[i].pos[1]) + p1[1])
        P2 = (fl(bodies[j].pos[0]) + p2[0], fl(bodies[j].pos[1]) + p2[1])
        if not abs(math.hypot(*n) - 1) <= 1e-9:
            raise Violation('normal', 'contact normal has length %.9g' % math.hypot(*n))
        if not math.hypot(P1[0] - P2[0], P1[1] - P2[1]) <= 1e-8 * (1 + abs(P1[0]) + abs(P1[1])):
            raise Violation('points', 'the two sides of a contact of bodies %d and %d are at (%.9g, %.9g) and (%.9g, %.9g)'
                            % ((i, j) + P1 + P2))
        if i > j:
            i, j, n = j, i, [-n[0], -n[1]]
        if frozenset((i, j)) in nc:
            raise Violation('excluded', 'contact between bodies %d and %d, which may not touch' % (i, j))
        per.setdefault((i, j), []).append((n, P1, pen))
    key = []
    for j in range(len(bodies)):
        for i in range(j):
            got = per.get((i, j), [])
            A, B = sh[i], sh[j]
            sep, gap = geom.shape_dist(A, B)
            tol = 1e-7 * (1 + max(abs(x) for x in (A[1] if A[0] == 'c' else A[1][0])))
            if frozenset((i, j)) in nc:
                continue
            name = 'bodies %d (%s) and %d (%s), %s apart%s' % (i, sc['bodies'][i]['k'], j, sc['bodies'][j]['k'], '%.6g' % sep, note)
            if got:
                ctx.probe('contacts_judged', len(got))
                ctx.nontrivial = True
            ctx.state(sc['bodies'][i]['k'], sc['bodies'][j]['k'], cls, sep < 0, len(got))
            if sep > eps * (1 + 1e-9) + 1e-9:
                if got:
                    raise Violation('phantom', 'contact reported between ' + name)
                continue
            if sep > eps * (1 - 1e-9) - 1e-9:
                continue                                  # exactly at the contact distance
            if A[0] == 'p' and B[0] == 'p':
                _, cand = manifolds(A[1], B[1], eps)
                reach = [[p for p in m[1] if p[1] > -eps + tol] for m in cand]
                if not got and (sep < -tol or all(reach)) and not (sep > 0 and gap > sep + 1e-6):
                    if sep < -tol or not any(not m[1] for m in cand):
                        raise Violation('missed', 'no contact between ' + name)
                deep = max([g[2] for g in got] + [-1e9])
                if got and deep > -sep + tol:
                    raise Violation('depth', 'depth %.9g reported between %s: %s' % (deep, name, show(got)))
                if got and not any(same_manifold(got, m, eps, tol) for m in cand):
                    ctx.log('cand', [[list(m[0]), [[list(p[0]), p[1]] for p in m[1]]] for m in cand])
                    raise Violation('manifold', 'contact points of %s: %s, expected one of %s' % (name, show(got), [show_m(m) for m in cand][:4]))
            else:
                if len(got) != 1:
                    raise Violation('missed' if not got else 'extra', '%d contacts between %s' % (len(got), name))
                n, P, pen = got[0]
                if not abs(pen + sep) <= tol:
                    raise Violation('depth', 'depth %.9g reported between %s' % (pen, name))
                ns = round_normals(A, B)
                if ns and not any(math.hypot(n[0] - m[0], n[1] - m[1]) < 1e-5 for m in ns):
                    raise Violation('normal', 'normal (%.6g, %.6g) between %s, expected %s' % (n[0], n[1], name, ns))
                for X in (A, B):
                    d = geom.surface_dist(X, P)
                    if d > abs(sep) + tol:
                        raise Violation('points', 'contact point of %s is %.6g away from the surface' % (name, d))
            key.append((i, j, sorted((round(p, 6)) for _, _, p in got)))
    return key


def show(got):
    return ['n(%.6g,%.6g) p(%.6g,%.6g) pen %.6g' % (tuple(g[0]) + tuple(g[1]) + (g[2],)) for g in got]


def show_m(m):
    return 'n(%.6g,%.6g) %s' % (m[0] + (['p(%.6g,%.6g) pen %.6g' % (p[0] + (p[1],)) for p in m[1]],))


def round_normals(A, B):
    """Acceptable normals (B towards A) when at least one is a circle."""
    if A[0] == 'c' and B[0] == 'c':
        d = (A[1][0] - B[1][0], A[1][1] - B[1][1])
        l = math.hypot(*d)
        return [(d[0] / l, d[1] / l)]
    if A[0] == 'p':
        return [(-x, -y) for x, y in round_normals(B, A)]
    c, poly = A[1], B[1]
    s = geom.point_poly(c, poly)
    if abs(s) < 1e-7:
        return []                                         # centre on the boundary: any direction of the corner will do
    if s > 0:
        best = min((geom.seg_dist(c, a, b) for a, b in geom.edges(poly)), key=lambda x: x[0])
        q = best[1]
        return [((c[0] - q[0]) / best[0], (c[1] - q[1]) / best[0])]
    out = []
    for a, b in geom.edges(poly):
        n = geom.outward(a, b)
        if n[0] * (c[0] - a[0]) + n[1] * (c[1] - a[1]) > s - 1e-6:
            out.append(n)
    return out


# ------------------------------------------------------------------ plans
def aim(rng, sc, i, j, target, cls):
    """Pose of body i such that it is `target` apart from body j, coming from a direction of class cls."""
    a, b = sc['bodies'][i], sc['bodies'][j]
    B = S.spec_shape(b)
    rot = 0.0
    ang = rng.uniform(0, 2 * math.pi)
    off = (0.0, 0.0)
    if a['k'] != 'circle':
        rot = rng.choice([0.0, rng.uniform(-3, 3), math.pi / 4])
    if B[0] == 'p' and cls in ('face', 'corner', 'along'):
        k = rng.randrange(len(B[1]))
        p, q = B[1][k], B[1][(k + 1) % len(B[1])]
        n = geom.outward(p, q)
        if cls == 'face':
            ang = math.atan2(n[1], n[0])
            t = rng.choice([0.0, 0.5, 1.0, rng.uniform(-0.2, 1.2), rng.random()])
            w = (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]))
            off = (w[0] - b['p'][1], w[1] - b['p'][2])
            if a['k'] != 'circle':                       # turn an own face parallel to it
                va = a['verts']
                m = rng.randrange(len(va))
                na = geom.outward(va[m], va[(m + 1) % len(va)])
                rot = ang + math.pi - math.atan2(na[1], na[0]) + rng.choice([0.0, 0.0, 1e-9, 1e-4, 0.01])
                rot = math.remainder(rot, 2 * math.pi)
        elif cls == 'corner':
            r = (p[0] - b['p'][1], p[1] - b['p'][2])
            ang = math.atan2(r[1], r[0])
            off = r
        else:                                            # along the extension of a face
            ang = math.atan2(q[1] - p[1], q[0] - p[0])
            off = (q[0] - b['p'][1], q[1] - b['p'][2])
    if a['k'] == 'hull' and not sc.get('any_rot'):
        pass                                             # hulls may take any angle here: they are moved with set_p
    u = (math.cos(ang), math.sin(ang))
    at = lambda d: [rot, b['p'][1] + off[0] + u[0] * d, b['p'][2] + off[1] + u[1] * d]

    def f(d):
        s, g = geom.shape_dist(S.spec_shape(a, at(d)), B)
        return s if s <= 0 else g
    lo, hi = -100.0 if target < 0 else 0.0, 400.0
    lo = 0.0
    for _ in range(80):
        mid = (lo + hi) / 2
        if f(mid) < target:
            lo = mid
        else:
            hi = mid
    return at(hi)


def generate(rng, tier):
    eps = rng.choice([0.1, 0.1, 0.5, 1.0])
    kinds = rng.choice([('circle', 'rect', 'hull'), ('circle', 'hull'), ('rect', 'hull'), ('hull',), ('circle', 'rect')])
    n = rng.choice([2, 2, 2, 3, 4]) if rng.random() < 0.9 else rng.choice([6, 9])
    sc = {'eps': eps, 'tol': 1e-6, 'dt': 1 / 30, 'strict': False, 'post_stab': False, 'bodies': [], 'joints': [], 'nc': []}
    for k in range(n):
        b = S.rand_body(rng, kinds=kinds, size=(5, 40))
        b['p'] = [0.0, 200.0 * k, 0.0]
        b['f'] = []
        sc['bodies'].append(b)
    if n > 2 and rng.random() < 0.3:
        sc['nc'].append([0, 1])
    if n > 3 and rng.random() < 0.6:
        sc['nc'] += [[j, i] for i in range(n) for j in range(i) if rng.random() < 0.35 and [j, i] not in sc['nc']]
        rng.shuffle(sc['nc'])
    ops = []
    cur = [dict(b) for b in sc['bodies']]
    for _ in range(rng.choice([3, 6, 10]) if tier == 'quick' else rng.choice([6, 15, 30])):
        i, j = rng.sample(range(n), 2)
        cls = rng.choice(['face', 'face', 'corner', 'along', 'any'])
        t = rng.choice([-rng.uniform(0, 10), -1e-3, -1e-7, 0.0, 1e-9, eps * 0.5, eps * 0.999, eps * 1.001, eps * 2, eps * rng.uniform(0, 1.5), 5.0])
        p = aim(rng, {'bodies': cur, 'eps': eps}, i, j, t, cls)
        if rng.random() < 0.15:
            p = [p[0], p[1] + rng.uniform(-30, 30), p[2] + rng.uniform(-30, 30)]
            cls = 'loose'
        cur[i] = dict(cur[i], p=p)
        ops.append({'op': 'put', 'b': i, 'p': p, 'cls': cls,
                    'q': [{'shuf': rng.randrange(1, 10 ** 6), 'pick': rng.choice([None, 0, 1, 2, 3, -1, -2, -5]),
                           'sat': rng.choice([None, rng.randrange(12)])} for _ in range(3)]})
    return {'scene': sc, 'ops': ops}


def execute(plan, ctx):
    sc = plan['scene']
    seams = Seams(ctx)
    seams.install()
    seams.begin({})
    ctx.op()
    world = S.build_world(sc)
    for n, op in enumerate(plan['ops']):
        b = world.bodies[op['b'] % len(world.bodies)]
        b.set_p(b.p.new_tensor(op['p']))
        ctx.steps += 1
        ref = None
        sh = [S.real_shape(x) for x in world.bodies]
        if any(A[0] == B[0] == 'c' and math.hypot(A[1][0] - B[1][0], A[1][1] - B[1][1]) < 1e-6
               for k, A in enumerate(sh) for B in sh[:k]):
            continue                                      # concentric circles have no normal
        for q in [{}] + op['q']:
            seams.begin({k: v for k, v in q.items() if k != 'sat' and v is not None})
            if q.get('sat') is not None:
                ctx.fault('leftover_search_state')
                for x in world.bodies:
                    if hasattr(x, 'last_sat_idx'):
                        x.last_sat_idx = q['sat'] % len(x.verts)
            ctx.op()
            world.find_contacts()
            key = judge(ctx, world, sc, ' (placement %d)' % n, op['cls'])
            if ref is None:
                ref = key
                ctx.log('contacts', [[k[0], k[1]] + k[2] for k in key])


def reduce(plan):
    for o in drop_each(plan['ops']):
        if o:
            yield dict(plan, ops=o)
    for i, op in enumerate(plan['ops']):
        for q in drop_each(op['q']):
            yield dict(plan, ops=plan['ops'][:i] + [dict(op, q=q)] + plan['ops'][i + 1:])
    sc = plan['scene']
    for i in range(len(sc['bodies'])):
        s = S.drop_body(sc, i)
        if s:
            ops = [dict(o, b=o['b'] - (o['b'] > i)) for o in plan['ops'] if o['b'] != i]
            if ops:
                yield dict(plan, scene=s, ops=ops)
