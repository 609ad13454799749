"""Scenes: JSON-able specifications, their random generation, and building them for real."""
import math

from . import geom


# ---------------------------------------------------------------- spec helpers
def spec_shape(b, p=None):
    """World-space shape of a body spec at pose p=(rot, x, y) (default: its initial pose)."""
    p = b['p'] if p is None else p
    if b['k'] == 'circle':
        return ('c', (p[1], p[2]), b['r'])
    return ('p', [(p[1] + v[0], p[2] + v[1]) for v in (geom.rot(u, p[0]) for u in b['verts'])])


def local_verts(b):
    return b['verts']


def inertia(b):
    if b['k'] == 'circle':
        return b['m'] * b['r'] ** 2 / 2
    return geom.polar_inertia(b['verts'], b['m'])


def rect_verts(w, h):
    return [(w / 2, h / 2), (-w / 2, h / 2), (-w / 2, -h / 2), (w / 2, -h / 2)]


def excluded(scene):
    return {frozenset(x) for x in scene.get('nc', [])}


# ---------------------------------------------------------------- generation
def rand_poly(rng, size, n):
    """Random strictly convex polygon with centroid at 0, library orientation."""
    while True:
        asp = rng.choice([1.0, 1.0, 0.6, 0.3])
        angs = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        if min((angs[(i + 1) % n] - angs[i]) % (2 * math.pi) for i in range(n)) < 0.35:
            continue
        if max((angs[(i + 1) % n] - angs[i]) % (2 * math.pi) for i in range(n)) > 2.8:
            continue
        pts = [(size * math.cos(a), size * asp * math.sin(a)) for a in angs]
        th = rng.uniform(0, 2 * math.pi)
        pts = [geom.rot(p, th) for p in pts]
        a, c = geom.area_centroid(pts)
        if a <= 0:
            continue
        return [(x - c[0], y - c[1]) for x, y in pts]


def rand_body(rng, kinds=('circle', 'rect', 'hull'), size=(5, 40), vmax=60, wmax=2.0,
              still=0.25, uniform=None):
    k = rng.choice(list(kinds))
    b = {'k': k}
    s = rng.uniform(*size)
    if k == 'circle':
        b['r'] = s
    elif k == 'rect':
        b['dims'] = [2 * s * rng.choice([1, 1, 0.4, rng.uniform(0.3, 1)]), 2 * s * rng.choice([1, 1, rng.uniform(0.3, 1)])]
        b['verts'] = rect_verts(*b['dims'])
    else:
        b['verts'] = rand_poly(rng, s, rng.choice([3, 3, 4, 5, 6]))
    b['p'] = [0.0, 0.0, 0.0]
    b['v'] = [0.0, 0.0, 0.0] if rng.random() < still else \
        [rng.uniform(-wmax, wmax) if rng.random() < 0.7 else 0.0, rng.uniform(-vmax, vmax), rng.uniform(-vmax, vmax)]
    b['m'] = rng.choice([1.0, 1.0, rng.uniform(0.2, 5)])
    b['e'] = rng.choice([0.0, 0.5, 0.5, 1.0, rng.uniform(0, 1)])
    b['mu'] = rng.choice([0.0, 0.1, 0.9, 0.9, rng.uniform(0, 1.5)])
    if uniform:
        b.update(uniform)
    if rng.random() < 0.15:
        b['be'] = rng.choice([1.5, 5, 20])     # a body's own margin only serves the broadphase
    return b


def place(rng, bodies, b, eps, near=None, box=200.0, tries=60, nc=(), gap_choices=None):
    """Choose a non-overlapping pose for b.  Returns False when none was found."""
    for _ in range(tries):
        if b['k'] == 'rect':
            r = rng.choice([0.0, 0.0, rng.uniform(-3, 3), math.pi / 4, math.pi / 32])
        elif b['k'] == 'circle':
            r = 0.0
        else:
            r = 0.0          # a Hull's initial angle is always 0 (its vertices carry the rotation)
        if near is None or not bodies:
            b['p'] = [r, rng.uniform(-box, box), rng.uniform(-box, box)]
        else:
            o = bodies[near]
            ang = rng.choice([rng.uniform(0, 2 * math.pi), rng.choice([0, 1, 2, 3]) * math.pi / 2])
            g = rng.choice(gap_choices or [0.0, eps * 0.5, eps * 2, rng.uniform(0, 20), rng.uniform(0, 3)])
            ux, uy = math.cos(ang), math.sin(ang)
            # slide outwards along the ray until the gap is (about) g
            lo, hi = 0.0, 400.0
            So = spec_shape(o)
            off = rng.choice([0.0, 0.0, rng.uniform(-1, 1) * geom.bound_radius(So)])
            ox, oy = o['p'][1] - uy * off, o['p'][2] + ux * off
            for _ in range(60):
                mid = (lo + hi) / 2
                b['p'] = [r, ox + ux * mid, oy + uy * mid]
                sep, gp = geom.shape_dist(spec_shape(b), So)
                if sep < 0 or gp < g:
                    lo = mid
                else:
                    hi = mid
            b['p'] = [r, ox + ux * hi, oy + uy * hi]
        S = spec_shape(b)
        if all(geom.shape_dist(S, spec_shape(o))[0] > -1e-9 for o in bodies):
            return True
    return False


def gen_scene(rng, n=None, kinds=('circle', 'rect', 'hull'), joints=0.5, forces=0.5, nc=0.2,
              eps=0.1, tol=1e-6, dt=None, strict=True, post_stab=None, ground=0.3, **kw):
    sc = {'eps': eps, 'tol': tol, 'dt': dt or rng.choice([1 / 30, 1 / 30, 1 / 60, 0.05, 0.1]),
          'strict': strict, 'post_stab': bool(post_stab), 'bodies': [], 'joints': [], 'nc': []}
    B = sc['bodies']
    bump = kw.pop('bump', 0.0)
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 5])
    g = rng.choice([10, 30, 100]) if rng.random() < forces else 0
    if rng.random() < ground:
        w = rng.uniform(60, 400)
        h = rng.uniform(8, 30)
        B.append({'k': 'rect', 'dims': [w, h], 'verts': rect_verts(w, h),
                  'p': [rng.choice([0.0, 0.0, rng.uniform(-0.3, 0.3)]), 0.0, rng.uniform(60, 120)],
                  'v': [0.0, 0.0, 0.0], 'm': 1.0, 'e': rng.choice([0.0, 0.5, 1.0]), 'mu': rng.choice([0, 0.2, 0.9])})
        if kw.get('uniform'):
            B[-1].update(kw['uniform'])
        sc['joints'].append({'k': 'total', 'a': 0})
    for _ in range(n):
        b = rand_body(rng, kinds=kinds, **kw)
        near = rng.randrange(len(B)) if B and rng.random() < 0.8 else None
        if not place(rng, B, b, eps, near=near):
            continue
        b['f'] = []
        if g:
            b['f'].append({'t': 'gravity', 'g': g})
        if rng.random() < forces * 0.5:
            b['f'].append({'t': 'ext', 'fn': rng.choice(['down', 'vert', 'hor', 'rot']), 'mult': rng.choice([-200.0, 50.0, 100.0, 400.0])})
        # aim towards a neighbour sometimes, so that collisions happen
        if near is not None and rng.random() < 0.5:
            dx, dy = B[near]['p'][1] - b['p'][1], B[near]['p'][2] - b['p'][2]
            l = math.hypot(dx, dy) or 1.0
            s = rng.uniform(5, 80)
            b['v'] = [b['v'][0], dx / l * s, dy / l * s]
        B.append(b)
    for i, b in enumerate(B):
        b.setdefault('f', [])
    if rng.random() < joints:
        add_joints(rng, sc, bump)
    for i in range(len(B)):
        for j in range(i):
            if rng.random() < nc * 0.3:
                sc['nc'].append([j, i])
    return sc


def gen_pile(rng, eps=0.1, tol=1e-6, dt=None, strict=True, post_stab=False, **kw):
    """Many bodies, many contacts: a row of boxes on the ground, with a few more thrown at it."""
    sc = {'eps': eps, 'tol': tol, 'dt': dt or rng.choice([1 / 30, 1 / 60, 0.05]), 'strict': strict,
          'post_stab': bool(post_stab), 'bodies': [], 'joints': [{'k': 'total', 'a': 0}], 'nc': []}
    B = sc['bodies']
    g = rng.choice([0, 10, 60])
    gap = eps * rng.choice([0.1, 0.5, 0.9])

    def box(w, h, x, y):
        B.append({'k': 'rect', 'dims': [w, h], 'verts': rect_verts(w, h), 'p': [0.0, x, y], 'v': [0.0, 0.0, 0.0], 'm': rng.choice([1.0, 3.0]),
                  'e': rng.choice([0.0, 0.5]), 'mu': rng.choice([0, 0.3]), 'f': [{'t': 'gravity', 'g': g}] if g and B else []})
    box(300, 20, 0.0, 100.0)
    x = -60.0
    for _ in range(rng.choice([3, 4, 5])):
        w, h = rng.uniform(8, 20), rng.uniform(8, 20)
        box(w, h, x + w / 2, 90 - gap - h / 2)
        x += w + gap
        if rng.random() < 0.3:
            box(w * 0.8, 8, B[-1]['p'][1], 90 - 2 * gap - h - 4)
    for _ in range(rng.choice([1, 2, 3])):
        b = rand_body(rng, size=(4, 10))
        if place(rng, B, b, eps, near=rng.randrange(1, len(B)), gap_choices=[0.5, 3.0, 15.0]):
            b['f'] = [{'t': 'gravity', 'g': g}] if g else []
            t = rng.randrange(1, len(B))
            dx, dy = B[t]['p'][1] - b['p'][1], B[t]['p'][2] - b['p'][2]
            l = math.hypot(dx, dy) or 1.0
            v = rng.uniform(10, 90)
            b['v'] = [rng.uniform(-2, 2), dx / l * v, dy / l * v]
            B.insert(rng.choice([len(B), len(B), 1]), b)
    return sc


def gen_busy(rng, n=None, eps=0.1, tol=1e-6, dt=None, strict=True, post_stab=False, speed=(5, 80),
             kinds=('circle', 'rect', 'hull'), g=None, joints=0.0, size=(5, 25), ground=0.6, **kw):
    """Contact-rich scene: bodies lined up against each other (or above a ground) and driven together."""
    sc = {'eps': eps, 'tol': tol, 'dt': dt or rng.choice([1 / 30, 1 / 60, 0.05]), 'strict': strict,
          'post_stab': bool(post_stab), 'bodies': [], 'joints': [], 'nc': []}
    B = sc['bodies']
    n = n or rng.choice([2, 2, 3, 3, 4, 5])
    shared = kw.pop('uniform', None)
    bump = kw.pop('bump', 0.0)
    g = rng.choice([0, 0, 30, 100]) if g is None else g
    if rng.random() < ground:
        w, h = rng.uniform(100, 400), rng.uniform(8, 30)
        B.append({'k': 'rect', 'dims': [w, h], 'verts': rect_verts(w, h),
                  'p': [rng.choice([0.0, 0.0, 0.0, rng.uniform(-0.3, 0.3)]), 0.0, rng.uniform(60, 120)],
                  'v': [0.0, 0.0, 0.0], 'm': 1.0, 'e': rng.choice([0.0, 0.5, 1.0]), 'mu': rng.choice([0, 0.2, 0.9])})
        if shared:
            B[-1].update(shared)
        sc['joints'].append({'k': 'total', 'a': 0})
    gaps = rng.choice([[0.0, eps * 0.5, 1e-9], [eps * 0.3, eps * 0.9, 1.0], [0.5, 2.0, 5.0]])
    for k in range(n):
        b = rand_body(rng, kinds=kinds, size=size, uniform=shared, **kw)
        near = rng.randrange(len(B)) if B else None
        if not place(rng, B, b, eps, near=near, gap_choices=gaps):
            continue
        b['f'] = [{'t': 'gravity', 'g': g}] if g else []
        if near is not None:
            dx, dy = B[near]['p'][1] - b['p'][1], B[near]['p'][2] - b['p'][2]
            l = math.hypot(dx, dy) or 1.0
            s = rng.uniform(*speed) * rng.choice([0, 1, 1])
            t = rng.uniform(-1, 1) * rng.choice([0, 10, 40])
            b['v'] = [b['v'][0], dx / l * s - dy / l * t, dy / l * s + dx / l * t]
        B.append(b)
    for b in B:
        b.setdefault('f', [])
    if rng.random() < joints:
        add_joints(rng, sc, bump)
    return sc


def gen_mixed(rng, **kw):
    if rng.random() < 0.5:
        kw.pop('forces', None)
        kw.pop('nc', None)
        return gen_busy(rng, **kw)
    return gen_scene(rng, **kw)


def add_joints(rng, sc, bump=0.0):
    B = sc['bodies']
    used = {j['a'] for j in sc['joints'] if j['k'] == 'total'}
    free = [i for i in range(len(B)) if i not in used]
    for _ in range(rng.choice([1, 1, 2])):
        if not free:
            return
        i = free.pop(rng.randrange(len(free)))
        k = rng.choice(['joint0', 'joint2', 'joint2', 'fixed', 'x', 'y', 'rot', 'xy', 'total'])
        b = B[i]
        if k in ('joint2', 'fixed'):
            others = [j for j in free]
            if not others:
                k = 'joint0'
            else:
                j = rng.choice(others)
                o = B[j]
                # hinged bodies may also touch: they fold until they meet
                if k == 'fixed' or rng.random() >= bump:
                    sc['nc'].append([min(i, j), max(i, j)])
                if k == 'fixed':
                    sc['joints'].append({'k': 'fixed', 'a': i, 'b': j})
                else:
                    # a wheel on an axle: the joint sits at the centre of one of the bodies
                    t, off = rng.choice([(rng.uniform(0, 1), 3), (rng.uniform(0, 1), 3), (0, 0.5), (0, 0), (1, 0)])
                    sc['joints'].append({'k': 'joint', 'a': i, 'b': j,
                                         'pos': [(o if t == 1 else b)['p'][c] + t % 1 * (o['p'][c] - b['p'][c]) + rng.uniform(-off, off) for c in (1, 2)]})
                continue
        if k == 'joint0':
            R = geom.bound_radius(spec_shape(b))
            a = rng.uniform(0, 2 * math.pi)
            d = rng.choice([rng.uniform(0.2, 1.5), rng.uniform(0.2, 1.5), 0.02, 0.0]) * R
            sc['joints'].append({'k': 'joint', 'a': i, 'b': None,
                                 'pos': [b['p'][1] + d * math.cos(a), b['p'][2] + d * math.sin(a)]})
        elif k == 'xy':
            sc['joints'] += [{'k': 'x', 'a': i}, {'k': 'y', 'a': i}]
        elif k in ('x', 'y', 'rot', 'total'):
            sc['joints'].append({'k': k, 'a': i})


# ---------------------------------------------------------------- building for real
def build_bodies(sc, body_kw=None):
    from lcp_physics.physics import bodies as lb, forces as lf
    import torch
    out = []
    for i, b in enumerate(sc['bodies']):
        kw = dict(vel=list(b['v']), mass=b['m'], restitution=b['e'], fric_coeff=b['mu'], eps=sc['eps'] * b.get('be', 1))
        if body_kw:
            kw.update(body_kw(i, b) or {})
        p = kw.pop('pos', None)
        if b['k'] == 'circle':
            r = kw.pop('rad', b['r'])
            o = lb.Circle(list(b['p']) if p is None else p, r, **kw)
        elif b['k'] == 'rect':
            d = kw.pop('dims', None)
            o = lb.Rect(list(b['p']) if p is None else p, list(b['dims']) if d is None else d, **kw)
        else:
            vs = kw.pop('verts', None)
            o = lb.Hull(list(b['p'][1:]) if p is None else p[1:], [list(v) for v in b['verts']] if vs is None else vs, **kw)
        for f in b.get('f', []):
            o.add_force(make_force(f))
        out.append(o)
    for i, j in sc.get('nc', []):
        out[i].add_no_contact(out[j])
    return out


def make_force(f):
    from lcp_physics.physics import forces as lf
    if f['t'] == 'gravity':
        return lf.Gravity(g=f['g'])
    if f['t'] == 'user':
        return lf.ExternalForce(user_force(f), multiplier=f.get('mult', 1.0))
    fn = {'down': lf.down_force, 'vert': lf.vert_impulse, 'hor': lf.hor_impulse, 'rot': lf.rot_impulse}[f['fn']]
    return lf.ExternalForce(fn, multiplier=f['mult'])


def force_value(f, t):
    """What the body should feel at time t (independent of the library; mass is handled by the caller)."""
    if f['t'] == 'user':
        m = f.get('mult', 1.0)
        return [m * a * math.cos(w * t + ph) for a, w, ph in f['c']]
    if f['t'] == 'gravity':
        return None
    on = f['fn'] == 'down' or t < 0.1
    d = {'down': 2, 'vert': 2, 'hor': 1, 'rot': 0}[f['fn']]
    return [f['mult'] if on and c == d else 0.0 for c in range(3)]


def total_force(b, t):
    out = [0.0, 0.0, 0.0]
    for f in b.get('f', []):
        v = [0.0, 0.0, b['m'] * f['g']] if f['t'] == 'gravity' else force_value(f, t)
        out = [x + y for x, y in zip(out, v)]
    return out


FORCE_LOG = []


def user_force(f):
    """A time-dependent user callback that records when it is called."""
    import torch

    def fn(t):
        tt = float(t.detach()) if isinstance(t, torch.Tensor) else float(t)
        FORCE_LOG.append((f.get('id'), tt))
        return torch.tensor([a * math.cos(w * tt + ph) for a, w, ph in f['c']], dtype=torch.double)
    return fn


def build_joints(sc, bodies):
    from lcp_physics.physics import constraints as lc
    out = []
    for j in sc.get('joints', []):
        a = bodies[j['a']]
        k = j['k']
        if k == 'joint':
            out.append(lc.Joint(a, bodies[j['b']] if j['b'] is not None else None, list(j['pos'])))
        elif k == 'fixed':
            out.append(lc.FixedJoint(a, bodies[j['b']]))
        else:
            out.append({'x': lc.XConstraint, 'y': lc.YConstraint, 'rot': lc.RotConstraint,
                        'total': lc.TotalConstraint}[k](a))
    return out


def build_world(sc, body_kw=None, **kw):
    from lcp_physics.physics.world import World
    bodies = build_bodies(sc, body_kw)
    joints = build_joints(sc, bodies)
    args = dict(dt=sc['dt'], eps=sc['eps'], tol=sc['tol'], post_stab=sc['post_stab'],
                strict_no_penetration=sc['strict'])
    args.update(kw)
    return World(bodies, joints, **args)


# ---------------------------------------------------------------- reading a real world back
def pose(body):
    return [float(x) for x in body.p.detach()]


def vel(body):
    return [float(x) for x in body.v.detach()]


def real_shape(body):
    """World-space shape of a real body, from its public attributes."""
    from lcp_physics.physics.bodies import Circle
    x, y = float(body.pos[0].detach()), float(body.pos[1].detach())
    if isinstance(body, Circle):
        return ('c', (x, y), float(body.rad.detach()))
    return ('p', [(x + float(v[0].detach()), y + float(v[1].detach())) for v in body.verts])


# ---------------------------------------------------------------- reduction
def drop_body(sc, i):
    """Scene without body i (indices remapped), or None."""
    if len(sc['bodies']) <= 1:
        return None
    m = lambda k: k if k < i else k - 1
    s = dict(sc)
    s['bodies'] = [b for k, b in enumerate(sc['bodies']) if k != i]
    s['joints'] = [dict(j, a=m(j['a']), **({'b': m(j['b'])} if j.get('b') is not None else {}))
                   for j in sc['joints'] if j['a'] != i and j.get('b') != i]
    s['nc'] = [[m(a), m(b)] for a, b in sc['nc'] if i not in (a, b)]
    return s


def reductions(sc):
    """Candidate smaller scenes, most aggressive first."""
    for i in range(len(sc['bodies'])):
        s = drop_body(sc, i)
        if s:
            yield s
    for i in range(len(sc['joints'])):
        yield dict(sc, joints=sc['joints'][:i] + sc['joints'][i + 1:])
    for i in range(len(sc['nc'])):
        yield dict(sc, nc=sc['nc'][:i] + sc['nc'][i + 1:])
    for i, b in enumerate(sc['bodies']):
        def rep(**kw):
            return dict(sc, bodies=sc['bodies'][:i] + [dict(b, **kw)] + sc['bodies'][i + 1:])
        if b.get('f'):
            yield rep(f=[])
        if any(b['v']):
            yield rep(v=[0.0, 0.0, 0.0])
        if b['v'][0] and any(b['v'][1:]):
            yield rep(v=[0.0] + b['v'][1:])
        if b['m'] != 1.0:
            yield rep(m=1.0)
        if b['mu'] != 0.0:
            yield rep(mu=0.0)
        if b['e'] not in (0.0,):
            yield rep(e=0.0)
    if sc.get('post_stab'):
        yield dict(sc, post_stab=False)
