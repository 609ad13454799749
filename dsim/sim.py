"""The simulated world: the real World / engine / contact handler, with every nondeterministic or failing
surface behind a seam that the plan decides.

Seams (none needs a hook in /repo):
  broadphase   ode.HashSpace is replaced by SpaceProxy: the pairs come from the real ODE space, the order in which
               they are delivered and which geom comes first are decided by the plan.
  rejection    the same proxy can make an attempted sub-step come back as penetrating (a contact handler is user code).
  randomness   random.* is seeded per run; random.choice can be replaced by an adversarial picker.
  engine       World(engine=...) gets a recording subclass of the real engine.
  numerics     torch.linalg.lu_factor / torch.inverse can be made to break down at a chosen call.
  forces       user callbacks registered through ExternalForce.
"""
import copy
import random

import ode
import torch

from . import scene as S
from .core import Truncated, Violation

_REAL_SPACE = ode.HashSpace
_REAL_CHOICE = random.choice
_REAL_LU = torch.linalg.lu_factor
_REAL_INV = torch.inverse

CAP_STEP = 1200          # attempts in one plain step; the halved dt underflows long before
CAP_FIXED = 300          # attempts in one fixed-dt step, more is a (legal) Zeno run: truncated


class SpaceProxy:
    """ODE broadphase with plan-controlled delivery order."""
    current = None           # the Seams object in force

    def __init__(self, *a, **k):
        self._real = _REAL_SPACE(*a, **k)

    def __getattr__(self, n):
        return getattr(self._real, n)

    def collide(self, args, cb):
        pairs = []
        self._real.collide(None, lambda a, g1, g2: pairs.append((g1, g2)))
        # canonical order first: whatever order ODE's hash table produced is covered by the plan's permutation
        pairs = [(g1, g2) if g1.body <= g2.body else (g2, g1) for g1, g2 in pairs]
        pairs.sort(key=lambda p: (p[0].body, p[1].body))
        s = SpaceProxy.current
        if s is not None:
            pairs = s.deliver(pairs)
        for g1, g2 in pairs:
            cb(args, g1, g2)
        if s is not None:
            w = args[0] if isinstance(args, (list, tuple)) else args
            s.after_collide(w)


class Seams:
    """Everything that is decided by the plan while one operation runs."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.op = {}
        self.rng = random.Random(0)
        self.pick_n = 0
        self.reject_left = 0
        self.in_step = False
        self.lu_calls = 0
        self.lu_fail = None
        self.inv_fail = False

    def begin(self, op):
        self.op = op
        self.rng = random.Random(op.get('shuf') or 0)
        self.pick_n = 0
        self.reject_left = op.get('rej', 0)
        self.lu_calls = 0
        self.lu_fail = op.get('lu')
        self.broke = False
        self.inv_fail = op.get('inv', 0)

    # broadphase
    def deliver(self, pairs):
        if not self.op.get('shuf') or not pairs:
            return pairs
        pairs = list(pairs)
        self.rng.shuffle(pairs)
        pairs = [(b, a) if self.rng.random() < 0.5 else (a, b) for a, b in pairs]
        self.ctx.fault('pair_order_permuted')
        return pairs

    def after_collide(self, world):
        if self.reject_left > 0 and self.in_step:
            self.reject_left -= 1
            b = world.bodies[0]
            z = b.p.new_zeros(2)
            n = b.p.new_tensor([1.0, 0.0])
            world.contacts.append(((n, z, z, b.p.new_tensor(1e3)), 0, len(world.bodies) - 1))
            self.ctx.fault('substep_rejected')

    # randomness
    def choice(self, seq):
        p = self.op.get('pick')
        if p is None:
            return _REAL_CHOICE(seq)
        self.pick_n += 1
        self.ctx.fault('random_choice_forced')
        k = p if p >= 0 else (-p) * self.pick_n
        return seq[k % len(seq)]

    # numerics
    def lu(self, *a, **k):
        self.lu_calls += 1
        if self.lu_fail and self.lu_calls in self.lu_fail:
            self.ctx.fault('lu_breakdown')
            self.broke = True
            raise torch.linalg.LinAlgError('injected breakdown of the factorisation')
        return _REAL_LU(*a, **k)

    def inverse(self, *a, **k):
        if self.inv_fail and self.in_step:
            self.inv_fail -= 1
            self.ctx.fault('inverse_breakdown')
            self.broke = True
            raise torch.linalg.LinAlgError('injected breakdown of the inverse')
        return _REAL_INV(*a, **k)

    def install(self):
        SpaceProxy.current = self
        ode.HashSpace = SpaceProxy
        random.choice = self.choice
        torch.linalg.lu_factor = self.lu
        torch.inverse = self.inverse
        torch.linalg.inv = self.inverse

    def remove(self):
        SpaceProxy.current = None
        ode.HashSpace = _REAL_SPACE
        random.choice = _REAL_CHOICE
        torch.linalg.lu_factor = _REAL_LU
        torch.inverse = _REAL_INV
        torch.linalg.inv = _REAL_INV


def fl(x):
    return float(x.detach()) if isinstance(x, torch.Tensor) else float(x)


def contact_tuple(c):
    (n, p1, p2, pen), i, j = c
    return ([fl(n[0]), fl(n[1])], [fl(p1[0]), fl(p1[1])], [fl(p2[0]), fl(p2[1])], fl(pen), int(i), int(j))


class Solve:
    __slots__ = ('t', 'dt', 'v0', 'v1', 'contacts', 'poses')


def rec_engine(sim):
    from lcp_physics.physics import engines

    class RecEngine(engines.PdipmEngine):
        def solve_dynamics(self, world, dt):
            r = Solve()
            r.t, r.dt = fl(world.t), fl(dt)
            r.v0 = [fl(x) for x in world.get_v()]
            r.contacts = [contact_tuple(c) for c in (world.contacts or [])]
            r.poses = [S.pose(b) for b in world.bodies]
            r.v1 = None
            sim.on_solve(r)
            v = super().solve_dynamics(world, dt)
            z = sim.op and sim.op.get('noise')
            if z:
                # an inaccurate solution: whatever the velocities are, poses and clock have to be right
                g = random.Random(z[1] + 7919 * len(sim.solves))
                v = v + v.new_tensor([g.uniform(-z[0], z[0]) for _ in range(len(v))])
                sim.ctx.fault('inaccurate_velocity')
            z = sim.op and sim.op.get('graze')
            if z and len(sim.solves) == 1 and r.contacts:
                # one pair approaches a little too fast: it would overlap by depth z[1] at the end of the sub-step
                n, p1, p2, pen, i, j = r.contacts[z[0] % len(r.contacts)]
                v = v.detach().clone()
                a, b = v[3 * i:3 * i + 3], v[3 * j:3 * j + 3]
                rate = (n[0] * (a[1] - a[0] * p1[1] - b[1] + b[0] * p2[1]) + n[1] * (a[2] + a[0] * p1[0] - b[2] - b[0] * p2[0]))
                push = -(z[1] - pen) / r.dt - rate
                k = j if z[2] else i
                for c in (0, 1):
                    v[3 * k + 1 + c] += (push if k == i else -push) * n[c]
                sim.ctx.fault('grazing_approach')
            r.v1 = [fl(x) for x in v]
            return v

        def post_stabilization(self, world):
            r = Solve()
            r.t, r.dt, r.v0 = fl(world.t), None, [fl(x) for x in world.get_v()]
            r.contacts = [contact_tuple(c) for c in (world.contacts or [])]
            r.poses = [S.pose(b) for b in world.bodies]
            r.v1 = None
            sim.stabs.append(r)
            if sim.op and sim.op.get('rejs'):
                sim.seams.reject_left = 1           # the corrected pose is reported as penetrating
                sim.ctx.fault('correction_rejected')
            dp = super().post_stabilization(world)
            r.v1 = [fl(x) for x in dp.reshape(-1)]
            return dp
    return RecEngine


class Sim:
    """A world built from plan['scene'], driven by plan['ops']."""

    def __init__(self, plan, ctx, monitors=(), build_kw=None, body_kw=None, scene=None, builder=None):
        self.plan, self.ctx = plan, ctx
        self.sc = scene or plan['scene']
        if any(o.get('pre') for o in plan.get('ops', ())):
            self.sc = copy.deepcopy(self.sc)          # the user will change it
        self.seams = Seams(ctx)
        self.seams.install()
        self.monitors = list(monitors)
        self.solves, self.stabs = [], []
        self.op = None
        self.cap = CAP_STEP
        self.seams.begin(plan.get('build', {}))
        ctx.op()
        kw = dict(engine=rec_engine(self))
        kw.update(build_kw or {})
        self.world = builder(**kw) if builder else S.build_world(self.sc, body_kw, **kw)
        self.bodies = self.world.bodies
        self.nc = S.excluded(self.sc)
        for m in self.monitors:
            m.start(self)
        ctx.log('start', [S.pose(b) for b in self.bodies], [S.vel(b) for b in self.bodies])

    # ---- state readers
    @property
    def t(self):
        return fl(self.world.t)

    def poses(self):
        return [S.pose(b) for b in self.bodies]

    def vels(self):
        return [S.vel(b) for b in self.bodies]

    def contacts(self):
        return [contact_tuple(c) for c in self.world.contacts]

    def on_solve(self, r):
        self.solves.append(r)
        self.ctx.op()                     # the loop budget is per attempt
        if len(self.solves) > self.cap:
            if self.op['op'] == 'fixed':
                raise Truncated('zeno')
            if any(abs(c[3] - self.sc['tol']) < 1e-9 for c in self.solves[0].contacts):
                # the start is at the edge of the tolerance to the last bit: the same pose seen in another pair
                # order, or rounded once more, counts as penetrating
                raise Truncated('knife edge of the tolerance')
            raise Violation('no-progress', 'a single step made more than %d attempts' % self.cap)

    def accepted(self):
        """The solve that produced each accepted sub-step of the last operation, with its length."""
        out = []
        for k, r in enumerate(self.solves):
            nxt = self.solves[k + 1].t if k + 1 < len(self.solves) else self.t
            if nxt > r.t:
                out.append((r, nxt - r.t))
        return out

    # ---- driving
    def do(self, op):
        self.op = op
        self.solves, self.stabs = [], []
        self.seams.begin(op)
        self.ctx.op()
        self.t0 = self.t
        self.cap = CAP_FIXED if op['op'] == 'fixed' else CAP_STEP
        for x in op.get('pre', ()):
            self.intervene(x)
        for m in self.monitors:
            m.before(self, op)
        k = op['op']
        self.seams.in_step = True
        try:
            if k == 'step':
                self.world.step()
            elif k == 'fixed':
                self.world.step(fixed_dt=True)
            elif k == 'kick':
                v = self.world.get_v().detach().clone()
                i = op['b'] % len(self.bodies)
                for c in range(3):
                    v[3 * i + c] += op['dv'][c]
                self.world.set_v(v)
                self.ctx.fault('velocity_kick')
            else:
                self.act(op)
        except (Violation, Truncated):
            raise
        except Exception:
            if self.seams.broke:
                raise Truncated('step failed with an exception after an injected breakdown')
            raise
        finally:
            self.seams.in_step = False
        self.ctx.steps += 1
        self.ctx.sim_time += self.t - self.t0
        if k != 'kick':
            n = len(self.solves)
            if n > 1:
                self.ctx.probe('rejected_substeps', n - len(self.accepted()))
            if self.solves and self.solves[0].contacts:
                self.ctx.probe('steps_with_contacts')
            self.ctx.state(k, min(n, 12), tuple(sorted((c[4], c[5]) for c in self.world_contacts_pairs())),
                           tuple(1 if any(abs(x) > 1e-9 for x in v) else 0 for v in self.vels()))
        self.ctx.log(k, self.t, self.poses(), self.vels())
        for m in self.monitors:
            m.after(self, op)

    def act(self, op):
        raise AssertionError(op)

    def intervene(self, x):
        """Something the user changes between two steps."""
        i = x['b'] % len(self.bodies)
        b, spec = self.bodies[i], self.sc['bodies'][i]
        if x['do'] == 'force':
            spec['f'] = spec.get('f', []) + [x['f']]
            b.add_force(S.make_force(x['f']))
        elif x['do'] == 'mult':
            for f, o in zip(spec.get('f', []), b.forces):
                if f['t'] != 'gravity':
                    f['mult'] = x['m']
                    o.multiplier = b.p.new_tensor(x['m'])
        elif x['do'] == 'ask':
            n = len(S.FORCE_LOG)
            self.world.apply_forces(self.world.t)
            self.asked = float(self.world.t)
            del S.FORCE_LOG[n:]
        elif x['do'] == 'material':
            spec['e'], spec['mu'] = x['e'], x['mu']
            b.restitution, b.fric_coeff = b.p.new_tensor(x['e']), b.p.new_tensor(x['mu'])
        elif x['do'] == 'dt':
            self.sc['dt'] = self.world.dt = x['dt']
        elif x['do'] == 'exclude':
            j = x['c'] % len(self.bodies)
            if i != j:
                b.add_no_contact(self.bodies[j])
                self.sc['nc'] = self.sc['nc'] + [[min(i, j), max(i, j)]]
                self.nc = S.excluded(self.sc)
        else:
            raise AssertionError(x)
        self.ctx.fault('user_changes_' + x['do'])

    def world_contacts_pairs(self):
        return [(None, None, None, None, int(c[1]), int(c[2])) for c in self.world.contacts]

    def run(self):
        for op in self.plan['ops']:
            self.do(op)
        for m in self.monitors:
            m.finish(self)


class Monitor:
    def start(self, sim):
        pass

    def before(self, sim, op):
        pass

    def after(self, sim, op):
        pass

    def finish(self, sim):
        pass


# ---------------------------------------------------------------- generic plan pieces
def gen_ops(rng, n, nb, fixed=0.0, rej=0.1, shuf=0.3, pick=0.2, kick=0.05, lu=0.0, strict=True, vmax=60, noise=0.0, graze=0.0):
    """A sequence of operations with faults attached to them (swarm: each kind may be off for the whole run)."""
    on = {k: rng.random() < 0.6 for k in ('rej', 'shuf', 'pick', 'kick', 'lu')}
    mag = 10 ** rng.uniform(-5, 1) if noise and rng.random() < noise else 0
    gr = graze and rng.random() < graze
    ops = []
    for _ in range(n):
        if on['kick'] and rng.random() < kick:
            ops.append({'op': 'kick', 'b': rng.randrange(nb),
                        'dv': [rng.uniform(-1, 1), rng.uniform(-vmax, vmax), rng.uniform(-vmax, vmax)]})
        op = {'op': 'fixed' if rng.random() < fixed else 'step'}
        if on['rej'] and rng.random() < rej:
            op['rej'] = rng.choice([1, 1, 2, 3, 6]) if strict else rng.choice([1, 1, 2])
        if on['shuf'] and rng.random() < shuf:
            op['shuf'] = rng.randrange(1, 10 ** 6)
        if on['pick'] and rng.random() < pick:
            op['pick'] = rng.choice([0, 1, 2, 3, -1, -2, -3])
        if on['lu'] and lu and rng.random() < lu:
            op['lu'] = [rng.choice([5, 6, 7, 8, 9, 12, 20, 30])]
        if mag:
            op['noise'] = [mag, rng.randrange(10 ** 6)]
        elif gr and rng.random() < 0.4:
            op['graze'] = [rng.randrange(8), 10 ** rng.uniform(-6.3, -1), rng.randrange(2)]
        ops.append(op)
    return ops


def gen_pre(rng, plan, kinds, p=0.15):
    """Interventions of the user between steps, for some runs."""
    if rng.random() < 0.5:
        return plan
    sc = plan['scene']
    for n, o in enumerate(plan['ops']):
        if o['op'] == 'kick' or rng.random() > p:
            continue
        k = rng.choice(kinds)
        x = {'do': k, 'b': rng.randrange(len(sc['bodies']))}
        if k == 'force':
            x['f'] = rng.choice([{'t': 'gravity', 'g': rng.choice([10, 60, 0, -25, 0.5])}, {'t': 'ext', 'fn': rng.choice(['down', 'vert', 'hor', 'rot']), 'mult': rng.choice([-200.0, 50.0, 100.0])},
                                 {'t': 'user', 'id': 1000 + n, 'mult': rng.choice([1.0, 2.5]), 'c': [[0, 0, 0], [rng.uniform(-50, 50), rng.uniform(0, 60), rng.uniform(0, 6)], [20, 3, 0]]}])
        elif k == 'material':
            x.update(e=rng.choice([0.0, 0.5, 1.0]), mu=rng.choice([0.0, 0.1, 0.9]))
        elif k == 'mult':
            x['m'] = rng.choice([0.0, -3.0, 120.0])
        elif k == 'dt':
            x['dt'] = sc['dt'] * rng.choice([0.5, 2.0, 1.0, 0.7])
        elif k == 'exclude':
            x['c'] = rng.randrange(len(sc['bodies']))
        o['pre'] = [x]
        if k in ('mult', 'force') and 'ask' in kinds and rng.random() < 0.4:
            o['pre'] = [{'do': 'ask', 'b': 0}, x]
    return plan


def reduce_plan(plan):
    """Smaller plans: fewer operations, fewer faults, smaller scenes."""
    from .core import drop_each
    ops = plan['ops']
    for k in range(1, len(ops)):
        if k in (1, 2, 4, 8) or k == len(ops) - 1 or k == len(ops) // 2:
            yield dict(plan, ops=ops[:k])
    for o in drop_each(ops):
        if o:
            yield dict(plan, ops=o)
    for i, op in enumerate(ops):
        for f in ('rej', 'rejs', 'shuf', 'pick', 'lu', 'inv', 'pre', 'noise', 'graze'):
            if f in op:
                yield dict(plan, ops=ops[:i] + [{k: v for k, v in op.items() if k != f}] + ops[i + 1:])
    for s in S.reductions(plan['scene']):
        yield dict(plan, scene=s)
