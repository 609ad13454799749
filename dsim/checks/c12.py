"""C12: a breakdown inside the contact solver costs accuracy, not integrity."""
import random

import torch

from .. import scene as S
from ..core import Violation, Truncated, Ctx
from ..sim import Sim, gen_ops, reduce_plan, fl
from ..threads import forked
from .c01 import STATE_MEASURE, REAL, STUB
from .c11 import digest

PROP = 'C12'
TECH = 'factorisations broken at chosen iterations; results compared bit for bit with the same solve given only the completed iterations, worlds with a twin that was handed the same velocities'
RUNS = {'quick': 1000, 'thorough': 12000}
RULE = ('contact-rich random scene driven through random operations; every contact problem it meets is solved again with 1..n iterations allowed, and with the '
        'factorisation of a chosen iteration raising or yielding NaN; the world itself goes on with some of its solves broken; non-trivial: at '
        'least one breakdown struck in the middle of a solve')
ASSUMPTIONS = ['the iteration at which a factorisation happens is found by counting factorisations of shorter solves',
               'a breakdown before the starting point is known has nothing to return and is an error (C11)']


class Numerics:
    """Breaks the n-th factorisation; counts them."""

    def __init__(self, real):
        self.real = real
        self.n = 0
        self.at = None
        self.kind = 'raise'
        self.struck = False

    def __call__(self, *a, **k):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.struck = True
            if self.kind == 'raise':
                raise torch.linalg.LinAlgError('injected breakdown of the factorisation')
            r = self.real(*a, **k)
            LU, piv = r[0], r[1]
            return LU * float('nan'), piv
        return self.real(*a, **k)


def clone(inputs):
    return [x.detach().clone() for x in inputs]


class Problem:
    def __init__(self, inputs, kw):
        self.inputs, self.kw = clone(inputs), kw

    def solve(self, max_iter, at=None, kind='raise', grad=False):
        from lcp_physics.lcp.lcp import LCPFunction
        num = Numerics(torch.linalg.lu_factor)
        num.at, num.kind = at, kind
        torch.linalg.lu_factor = num
        try:
            s = LCPFunction(**dict(self.kw, max_iter=max_iter))
            x = s.forward(*clone(self.inputs))
            out = {'x': x, 'lam': s.lams, 's': s.slacks, 'nu': s.nus, 'n': num.n, 'struck': num.struck}
        finally:
            torch.linalg.lu_factor = num.real
        return out

    def gradient(self, max_iter, at, kind, seed):
        from lcp_physics.lcp.lcp import LCPFunction
        num = Numerics(torch.linalg.lu_factor)
        num.at, num.kind = at, kind
        torch.linalg.lu_factor = num
        try:
            ins = [x.requires_grad_(True) if x.numel() else x for x in clone(self.inputs)]
            x = LCPFunction(**dict(self.kw, max_iter=max_iter))(*ins)
            g = torch.Generator().manual_seed(seed)
            c = torch.rand(x.shape, generator=g, dtype=x.dtype)
            got = torch.autograd.grad((c * x).sum(), [i for i in ins if i.numel()], allow_unused=True)
        finally:
            torch.linalg.lu_factor = num.real
        return got

    def resid(self, r):
        Q, p, G, h, A, b, F = self.inputs
        x, z, s = r['x'], r['lam'], r['s']
        neq = A.numel() > 0
        rx = x @ Q[0].t() + p + z @ G[0] + (r['nu'] @ A[0] if neq else 0)
        rz = x @ G[0].t() + s - h - z @ F[0].t()
        v = float(rx.norm()) + float(rz.norm()) + abs(float((s * z).sum()))
        if neq:
            v += float((x @ A[0].t() - b).norm())
        return v

    def scale(self):
        Q, p, G, h, A, b, F = self.inputs
        return 1 + float(p.norm()) + float(h.norm())


def same(a, b):
    if a is None or b is None:
        return a is b
    return torch.equal(a, b)


def recorder(ctx):
    """Every contact problem that is handed to the solver (by the real engine)."""
    from lcp_physics.physics import engines
    from lcp_physics.lcp.lcp import LCPFunction
    box = []

    class Rec(LCPFunction):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)

        def __call__(self, *inputs):
            kw = {k: getattr(self, k) for k in ('eps', 'verbose', 'not_improved_lim', 'max_iter') if hasattr(self, k)}
            box.append(Problem(inputs, kw))
            return super().__call__(*inputs)
    engines.LCPFunction = Rec
    return box


def examine(ctx, pr, spec):
    rng = random.Random(spec['seed'])
    n = pr.kw['max_iter']
    ks = sorted({1, 2, 3} | {rng.randint(1, n) for _ in range(spec['ks'])} | {n})
    prev = None
    full = pr.solve(n)
    one = pr.solve(1)
    first = pr.solve(n, at=one['n'], kind='raise')
    if first['struck']:
        ctx.fault('first_factorisation_raises')
        for name in ('x', 'lam', 's', 'nu'):
            if not same(first[name], one[name]):
                raise Violation('breakdown', 'a factorisation that failed in the first iteration made the solver return other %s values than the '
                                'starting point' % name)
    for k in ks:
        r = pr.solve(k)
        for name in ('x', 'lam', 's', 'nu'):
            if r[name] is not None and not bool(torch.isfinite(r[name]).all()):
                raise Violation('not-finite', 'a solve with %d iterations returned %s values that are not finite' % (k, name))
        v = pr.resid(r)
        tiny = 1e-9 * pr.scale()
        if prev is not None and v > prev[1] * (1 + 1e-6) + tiny:
            raise Violation('worse', 'with %d iterations the solver returns a residual of %.3g, with %d it had %.3g' % (k, v, prev[0], prev[1]))
        prev = (k, v)
        if k >= n:
            continue
        ctx.probe('solves_compared')
        for kind in ('raise', 'nan'):
            b = pr.solve(n, at=r['n'] + 1, kind=kind)
            if not b['struck']:
                ctx.probe('solve_ended_before_breakdown')
                if not same(b['x'], r['x']) or not same(b['x'], full['x']):
                    raise Violation('inconsistent', 'solves that need %d factorisations return different solutions' % r['n'])
                continue
            ctx.fault('factorisation_raises' if kind == 'raise' else 'factorisation_yields_nan')
            ctx.nontrivial = True
            ctx.state(kind, k, pr.inputs[2].shape[1], pr.inputs[4].shape[1] if pr.inputs[4].numel() else 0)
            for name in ('x', 'lam', 's', 'nu'):
                if b[name] is not None and not bool(torch.isfinite(b[name]).all()):
                    raise Violation('not-finite', 'a factorisation that %s in iteration %d made the solver return %s values that are not finite'
                                    % ('failed' if kind == 'raise' else 'yielded NaN', k + 1, name))
            if kind == 'raise':
                for name in ('x', 'lam', 's', 'nu'):
                    if not same(b[name], r[name]):
                        raise Violation('breakdown', 'a factorisation that failed in iteration %d made the solver return other %s values than '
                                        'the completed iterations give: residual %.3g instead of %.3g' % (k + 1, name, pr.resid(b), v))
                if spec.get('grad') and k == ks[spec['grad'] % len(ks)]:
                    ga, gb = pr.gradient(k, None, kind, 1), pr.gradient(n, r['n'] + 1, kind, 1)
                    ctx.probe('gradients_compared')
                    for x, y in zip(ga, gb):
                        if not (x is None and y is None) and not torch.equal(torch.nan_to_num(x), torch.nan_to_num(y)):
                            raise Violation('gradient', 'after a factorisation that failed in iteration %d the derivatives differ from those of '
                                            'the completed iterations' % (k + 1))
            elif pr.resid(b) > v * (1 + 1e-6) + tiny:
                raise Violation('breakdown', 'a factorisation that yielded NaN in iteration %d made the solver return a residual of %.3g, the '
                                'completed iterations had %.3g' % (k + 1, pr.resid(b), v))


def run_world(plan, ctx, script=None, box=None, examine_fn=None):
    sim = Sim(plan, ctx)
    eng = sim.world.engine
    orig = eng.solve_dynamics
    taken = []
    cur = {'i': 0, 'q': []}

    def solve(world, dt):
        if script is not None and cur['q']:
            v = cur['q'].pop(0)
            if v is not None:
                from ..sim import Solve
                r = Solve()
                r.t, r.dt, r.v0 = fl(world.t), fl(dt), [fl(x) for x in world.get_v()]
                r.contacts, r.poses = [], []
                r.v1 = v
                sim.on_solve(r)
                return world.get_v().new_tensor(v)
        b0 = sim.seams.broke
        sim.seams.broke = False
        out = orig(world, dt)
        if script is None:
            taken.append([cur['i'], [fl(x) for x in out] if sim.seams.broke else None])
        sim.seams.broke = sim.seams.broke or b0
        return out
    eng.solve_dynamics = solve
    out = []
    for i, op in enumerate(plan['ops']):
        cur['i'] = i
        if script is not None:
            cur['q'] = [v for j, v in script if j == i]
            op = {k: v for k, v in op.items() if k != 'lu'}
        random.seed(plan['rs'] + i)
        if box is not None:
            del box[:]
        try:
            sim.do(op)
        except Truncated:
            break
        st = digest(sim)
        for x in sim.vels() + sim.poses():
            if any(y != y or y in (float('inf'), float('-inf')) for y in x):
                raise Violation('not-finite', 'velocities or poses of the world are not finite after a solve broke down')
        out.append(st)
        if examine_fn:
            sim.seams.lu_fail = None
            examine_fn(i, box)
    return sim, out, taken


def execute(plan, ctx):
    box = recorder(ctx)

    def look(i, box):
        spec = plan['examine'].get(str(i))
        if not spec or not box:
            return
        rng = random.Random(spec['seed'])
        for pr in rng.sample(list(box), min(len(box), spec['problems'])):
            ctx.op()
            examine(ctx, pr, spec)
        ctx.op()
    sim, out, taken = run_world(plan, ctx, None, box, look)
    for o in out:
        ctx.log(o)
    if any(v is not None for _, v in taken):
        ctx.nontrivial = True
        ctx.probe('worlds_with_broken_solves')

        def twin():
            recorder(None)
            return run_world(plan, Ctx(plan), taken)[1]
        r = forked(twin)
        if r[0] != 'ok':
            raise Violation('aftermath', 'a world that was handed the velocities of the broken solves failed: ' + ' '.join(map(str, r[1:])))
        m = min(len(out), len(r[1]))
        for i in range(m):
            if out[i] != r[1][i]:
                raise Violation('aftermath', 'operation %d of a world in which solves broke down differs from a world that was handed the same '
                                'velocities without a breakdown' % i)
        ctx.probe('operations_compared_with_twin', m)


def generate(rng, tier):
    strict = rng.random() < 0.6
    lu = rng.random() < 0.7
    smooth = rng.random() < 0.3
    sc = S.gen_busy(rng, eps=0.1, tol=1e-6, post_stab=not lu and rng.random() < 0.5, strict=strict, dt=rng.choice([1 / 30, 0.1]),
                    joints=0.5, n=rng.choice([1, 2, 3]))
    ops = gen_ops(rng, rng.choice([2, 4, 6]) if tier == 'quick' else rng.choice([4, 10, 20]), len(sc['bodies']), fixed=0.1, rej=0.1, kick=0.3, strict=strict)
    ex = {}
    for i, op in enumerate(ops):
        if op['op'] == 'kick':
            continue
        if lu and rng.random() < 0.4:
            op['lu'] = [rng.randint(4, 30)]
        if rng.random() < 0.35:
            ex[str(i)] = {'seed': rng.randrange(10 ** 6), 'ks': rng.choice([1, 3]), 'problems': 1, 'grad': rng.choice([0, 1, 2, 3])}
    return {'scene': sc, 'ops': ops, 'examine': ex}


def reduce(plan):
    for k in plan['examine']:
        yield dict(plan, examine={k: plan['examine'][k]})
        yield dict(plan, examine={j: v for j, v in plan['examine'].items() if j != k})
    if len(plan['ops']) > 1:
        for n in range(1, len(plan['ops'])):
            yield dict(plan, ops=plan['ops'][:n])
    for p in reduce_plan(plan):
        if len(p['ops']) == len(plan['ops']):
            yield p
