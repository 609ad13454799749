"""C20: the learning programs (mass inference, gradient demo) descend the true gradient of what they simulate."""
import contextlib
import importlib.util
import io
import math
import os
import random
import re

import torch

from .. import gui
from ..core import Violation, Truncated, InjectedInterrupt
from ..env import REPO
from ..sim import SpaceProxy, fl

PROP = 'C20'
TECH = 'whole learning runs against a reference experiment (own scene, own loss, own derivative, own optimiser rule), under permuted pairs, displays, clocks and interrupts'
RUNS = {'quick': 140, 'thorough': 3000}
RULE = ('the real main() of the mass inference experiment, or the real gradient demo, runs with random initial guess, true value, scene size, forces, step and run '
        'length, until it stops by its own rule or is interrupted; pair order and random picks are decided by the plan, a display with a simulated clock in some runs; '
        'non-trivial: at least one update of the estimate was compared with the reference')
STATE_MEASURE = 'distinct (program, updates made, how it ended, contacts seen, gradient judged) hashed'
REAL = ['experiments/inference.py', 'demos/grad_demo.py', 'run_world', 'World and everything below it', 'torch autograd', 'torch.optim']
STUB = ['broadphase delivery order (a fixed permutation per run)', 'random.choice (fixed pick per run)', 'plots', 'wall clock, sleep, display (runs with a display)']
ASSUMPTIONS = ['run time, step length, chain length and stopping threshold are constants of the programs, set by the plan to keep runs short',
               'the derivative is that of the reference scene under the same engine; C13 holds the engine\'s derivatives against finite differences']


LIMIT = 3000  # collision queries per program (and per reference)


class Order:
    """Pair order and picks, the same function of what is asked in the program and in the reference."""
    op = {}

    def __init__(self, plan, ctx):
        self.k, self.pick, self.ctx = plan['order'], plan['pick'], ctx
        self.steps = 0
        self.stop = None
        self.touch = 0
        self.tries = 0
        self.live = False
        self.limit = LIMIT if plan['its'] < 100 else 10 * LIMIT

    def deliver(self, pairs):
        self.ctx.op()
        self.tries += 1
        if self.tries > self.limit:
            raise Program() if self.live else Truncated('too many substeps')
        if self.k and len(pairs) > 0:
            r = random.Random(self.k)
            r.shuffle(pairs)
            pairs = [(b, a) if r.random() < 0.5 else (a, b) for a, b in pairs]
            self.ctx.fault('pair_order_permuted')
        return pairs

    def after_collide(self, world):
        self.steps += 1
        if world.contacts:
            self.touch += 1
        if self.stop is not None and self.steps == self.stop:
            self.ctx.fault('interrupt')
            raise InjectedInterrupt('injected interrupt')

    def choice(self, seq):
        return seq[self.pick % len(seq)]


def load(rel, name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, *rel.split('/')))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def preload():
    import lcp_physics.physics.world  # noqa: F401
    import matplotlib  # noqa: F401


def tens(x):
    return torch.tensor(x, dtype=torch.double)


# ---------------------------------------------------------------- mass inference
def chain_positions(plan, mass):
    """The experiment, written down independently: poses of all bodies at every step."""
    from lcp_physics.physics.bodies import Circle, Rect
    from lcp_physics.physics.constraints import Joint
    from lcp_physics.physics.forces import ExternalForce, Gravity
    from lcp_physics.physics.world import World
    n = plan['links']
    m = mass / n
    bodies, joints = [], []
    for k in range(n):
        b = Rect([300, 50 + 50 * k], [20, 60], mass=m)
        joints.append(Joint(b, bodies[-1] if k else None, [300, 25 + 50 * k if k else 30]))
        if k:
            b.add_force(Gravity(g=100))
            b.add_no_contact(bodies[-1])
        bodies.append(b)
    c = Circle([50, 50 + 50 * (n - 1)], 20, restitution=1.)
    c.add_force(ExternalForce(push(plan), multiplier=1500))
    bodies.append(c)
    w = World(bodies, joints, dt=plan['dt'], post_stab=True)
    out = [torch.cat([b.p for b in bodies])]
    while w.t < plan['time']:
        w.step()
        out.append(torch.cat([b.p for b in bodies]))
    return torch.cat(out)


def push(plan):
    def f(t):
        return tens([0.0, plan['push'], 0.0]) if t < 0.1 else tens([0.0, 0.0, 0.0])
    return f


def prefix(a, b):
    k = min(len(a), len(b))
    return a[:k], b[:k]


def mse(a, b):
    a, b = prefix(a, b)
    return float(((a - b) ** 2).mean())


def reference(plan, truth, m):
    """Loss of the reference chain with mass m, and its derivative."""
    x = tens([m]).requires_grad_(True)
    a, b = prefix(chain_positions(plan, x), truth)
    loss = ((a - b) ** 2).mean()
    loss.backward()
    return float(loss), float(x.grad[0])


class Program(Exception):
    pass


def number(text, key):
    return [float(x) for x in re.findall(re.escape(key) + r'\s*(-?(?:[\d.]+(?:e[-+]?\d+)?|inf|nan))', text)]


def close(a, b, rel=1e-6, ab=1e-9):
    return abs(a - b) <= ab + rel * (abs(a) + abs(b)) or (math.isnan(a) and math.isnan(b))


def infer(plan, ctx, order):
    m = load('experiments/inference.py', 'inference')
    for t in (0.0, 0.05, 0.1 - 1e-12, 0.1, 0.2, 5.0):
        if not torch.equal(m.hor_impulse(t), tens([0, 1 if t < 0.1 else 0, 0])):
            raise Violation('force', 'the push at time %r is %r' % (t, m.hor_impulse(t)))
    m.NUM_LINKS, m.TOTAL_MASS, m.DT, m.STOP_DIFF = plan['links'], plan['true'], plan['dt'], plan['diff']
    m.hor_impulse = push(plan)
    plots = []
    m.plot = lambda y, *a: plots.append([float(v) for v in y])
    real, seen = m.positions_run_world, []

    def positions(world, *a, **k):
        if len(seen) > plan['its']:
            raise Program()
        k['run_time'] = plan['time']
        out = real(world, *a[:1], **k)
        seen.append(torch.cat([p.detach() for p in out]))
        return out
    m.positions_run_world = positions
    rw = getattr(m, 'run_world', None)

    def short(world, *a, **k):
        k['run_time'] = plan['time']
        return rw(world, **k)
    m.run_world = short
    torch.manual_seed(plan['pick'])
    rand = torch.rand_like
    given = []

    def rand_like(x, **k):
        ctx.fault('initial_guess')
        given.append(plan['init'])
        return torch.full_like(rand(x), plan['init']).requires_grad_(bool(k.get('requires_grad')))
    torch.rand_like = rand_like
    screen = None
    if plan.get('clock'):
        desk = gui.Desk(ctx, plan['clock'])
        desk.install()
        screen = desk.window((640, 480))
    text, ended = run(lambda: m.main(screen), plan, order)
    torch.rand_like = rand
    # ---- judgement
    order.stop = None
    truth = chain_positions(plan, tens([plan['true']])).detach()
    if seen and (len(seen[0]) != len(truth) or float((seen[0] - truth).abs().max()) > 1e-6):
        raise Violation('truth', 'the recorded ground truth is not the motion of the described chain with total mass %g' % plan['true'])
    first = number(text, 'Initial mass:')
    if seen and (len(first) != 1 or not close(first[0], given[0] if given else first[0])):
        raise Violation('start', 'the first guess is reported as %r, it is %r' % (first, given))
    if not first or not 0 < first[0] <= 1:
        raise Truncated('no first guess')
    losses, grads, nexts = number(text, '\nLoss:'), number(text, 'Gradient:'), number(text, 'Next mass:')
    its = min(len(losses), len(grads), len(nexts))
    mass, avg = first[0], 0.0
    masses = [mass]
    judged = 0
    for k in range(its):
        if mass <= 1e-3:
            raise Truncated('the optimiser left the range of masses')
        loss, d = reference(plan, truth, mass)
        if not math.isfinite(loss) or loss > 1e12:
            raise Truncated('the chain flew apart')
        if not close(losses[k], loss, 1e-5):
            raise Violation('loss', 'iteration %d: the loss at mass %.9g is %.9g, reported is %.9g' % (k, mass, loss, losses[k]))
        judged += 1
        ctx.probe('gradients_judged')
        if abs(d) > 1e-6:
            ctx.probe('gradients_not_zero')
        if math.isfinite(d) and not close(grads[k], d, 1e-4, 1e-7):
            raise Violation('gradient', 'iteration %d: the derivative of the loss at mass %.9g is %.9g, learning uses %.9g' % (k, mass, d, grads[k]))
        g = grads[k]
        if not math.isfinite(g):
            raise Truncated('gradient not finite')
        avg = 0.99 * avg + 0.01 * g * g
        new = mass - 0.5 * g / (math.sqrt(avg) + 1e-8)
        if not close(nexts[k], new, 1e-6):
            raise Violation('update', 'iteration %d: gradient %.9g takes the mass from %.9g to %.9g, the rule gives %.9g' % (k, g, mass, nexts[k], new))
        mass = nexts[k]
        masses.append(mass)
        ctx.nontrivial = True
        ctx.log(k, losses[k], grads[k], nexts[k])
        stop = abs((losses[k - 1] if k else 1e10) - losses[k]) < plan['diff']
        last = k == its - 1
        if stop and not last:
            raise Violation('stop', 'iteration %d changes the loss by less than %g, learning goes on' % (k, plan['diff']))
        if last and ended is None and not stop:
            raise Violation('stop', 'learning ends after iteration %d though the loss changed from %r to %.9g' % (k, losses[k - 1:k], losses[k]))
    ctx.steps += order.steps
    ctx.sim_time += plan['time'] * len(seen)
    ctx.state('inference', its, ended, order.touch > 0, judged)
    if ended is not None:
        return
    if mass <= 1e-3:
        raise Truncated('the optimiser left the range of masses')
    fm, flo = number(text, 'Final mass:'), number(text, 'Final loss:')
    want = mse(chain_positions(plan, tens([mass])).detach(), truth)
    if not fm or not close(fm[0], mass):
        raise Violation('final', 'the final mass is reported as %r, it is %.9g' % (fm, mass))
    if not flo or not close(flo[0], want, 1e-5):
        raise Violation('final', 'the final loss is reported as %r, at mass %.9g it is %.9g' % (flo, mass, want))
    if len(plots) == 2:
        for got, all_ in zip(plots, (losses, masses)):
            if len(got) < len(all_) - 1 or not all(close(a, b) for a, b in zip(got, all_)):
                raise Violation('plot', 'the plotted history is %r, the run went %r' % (got[:6], all_[:6]))
    ctx.probe('runs_to_the_end')


def run(fn, plan, order):
    """Runs a program under its seams; returns what it printed and how it ended (None: by itself)."""
    order.stop = plan.get('interrupt')
    order.steps = 0
    order.live = True
    buf = io.StringIO()
    ended = None
    try:
        with contextlib.redirect_stdout(buf):
            fn()
    except InjectedInterrupt:
        ended = 'interrupt'
    except Program:
        ended = 'enough'
    order.live, order.tries = False, 0
    if order.stop is not None and order.steps >= order.stop and ended != 'interrupt':
        raise Violation('swallowed', 'an interrupt of the program was swallowed')
    return '\n' + buf.getvalue().replace('\r', '\n'), ended


# ---------------------------------------------------------------- gradient demo
def demo_distance(plan, force):
    from lcp_physics.physics.bodies import Circle
    from lcp_physics.physics.forces import ExternalForce
    from lcp_physics.physics.world import World
    target, c1, c2 = Circle([500, 300], 30), Circle([250, 210], 30), Circle([400, 250], 30)
    zero = tens([0, 0, 0])
    c1.add_force(ExternalForce(lambda t: force if t < 0.1 else zero))
    c1.add_no_contact(target)
    c2.add_no_contact(target)
    w = World([target, c1, c2], [], dt=plan['dt'])
    while w.t < plan['time']:
        w.step()
    return (target.pos - c2.pos).norm()


def demo(plan, ctx, order):
    m = load('demos/grad_demo.py', 'grad_demo')
    m.TIME, m.DT = plan['time'], plan['dt']
    plots, fin = [], []
    m.plot = lambda y, *a: plots.append([fl(v) for v in y])
    make, rw = m.make_world, m.run_world
    forces, dists, grads = [], [], []
    box = {}

    def make_world(learned):
        f = learned(0.05)
        forces.append(f)
        box['w'] = make(learned)
        return box['w']

    def run_world(world, *a, **k):
        if len(dists) >= plan['its']:
            raise Program()
        r = rw(world, *a, **k)
        w, c, target = box['w']
        dists.append(fl((target.pos - c.pos).norm()))
        return r
    m.make_world, m.run_world = make_world, run_world
    screen = None
    if plan.get('clock'):
        desk = gui.Desk(ctx, plan['clock'])
        desk.install()
        screen = desk.window((640, 480))
    text, ended = run(lambda: m.grad_demo(screen), plan, order)
    order.stop = None
    for f in forces:
        grads.append(None if f.grad is None else f.grad.tolist())
    vals = [f.detach().tolist() for f in forces]
    if vals and vals[0] != [0.0, 3.0, 0.0]:
        raise Violation('start', 'the first force is %r' % vals[0])
    lr = 0.001
    printed = [float(x) for x in re.findall(r'\n?\s*\d+ / 100 (\S+)', text)]
    n = 0
    # simulation 0 is the demonstration, simulation 1 + k belongs to iteration k
    for k in range(len(vals)):
        if k >= len(dists):
            break
        with torch.no_grad():
            want = fl(demo_distance(plan, tens(vals[k])))
        if not close(dists[k], want, 1e-6):
            raise Violation('distance', 'simulation %d with force %r ends %.9g away from the target, the described scene %.9g' % (k, vals[k], dists[k], want))
        if k == 0:
            continue
        it = k - 1
        if len(printed) <= it:
            break
        if not close(printed[it], dists[k]):
            raise Violation('report', 'iteration %d reports the distance %.9g, it is %.9g' % (it, printed[it], dists[k]))
        stop = abs((printed[it - 1] if it else 1e10) - printed[it]) < 1e-5
        if it == 0 and vals[1] != vals[0]:
            raise Violation('start', 'the first iteration starts from %r instead of %r' % (vals[1], vals[0]))
        if k + 1 >= len(vals):
            break
        g = grads[k] or [0.0] * 3
        if not all(map(math.isfinite, g)):
            raise Truncated('gradient not finite')
        x = tens(vals[k]).requires_grad_(True)
        y = demo_distance(plan, x)
        d = [0.0] * 3
        if y.requires_grad:
            y.backward()
            d = x.grad.tolist() if x.grad is not None else d
        ctx.probe('gradients_judged')
        if max(map(abs, d)) > 1e-6:
            ctx.probe('gradients_not_zero')
        if all(map(math.isfinite, d)) and not all(close(a, b, 1e-4, 1e-7) for a, b in zip(g, d)):
            raise Violation('gradient', 'iteration %d: the derivative of the distance with respect to the force is %r, learning uses %r' % (it, d, g))
        new = [a - lr * b for a, b in zip(vals[k], g)]
        if not all(close(a, b, 1e-9) for a, b in zip(new, vals[k + 1])):
            raise Violation('update', 'iteration %d: gradient %r takes the force from %r to %r, the rule gives %r' % (it, g, vals[k], vals[k + 1], new))
        lr *= 0.9
        n += 1
        ctx.nontrivial = True
        ctx.log(it, dists[k], *g)
        if stop and it != len(printed) - 1:
            raise Violation('stop', 'iteration %d changes the distance by less than 1e-5, learning goes on' % it)
    if ended is None:
        if len(printed) < 100 and not (len(printed) > 1 and abs(printed[-1] - printed[-2]) < 1e-5):
            raise Violation('stop', 'learning ends after distances %r' % printed[-3:])
        tail = float(text.strip().split('\n')[-1].split()[-1])
        if not close(tail, dists[-1], 1e-12, 1e-9):
            raise Violation('report', 'the final distance is reported as %r, it is %.9g' % (tail, dists[-1]))
        if plots and (len(plots[0]) < len(printed) - 1 or not all(close(a, b) for a, b in zip(plots[0], printed))):
            raise Violation('plot', 'the plotted history is %r, the run went %r' % (plots[0][:6], printed[:6]))
        ctx.probe('runs_to_the_end')
    ctx.steps += order.steps
    ctx.sim_time += plan['time'] * len(dists)
    ctx.state('demo', n, ended, order.touch > 0)


def execute(plan, ctx):
    import ode
    ode.HashSpace = SpaceProxy
    order = Order(plan, ctx)
    SpaceProxy.current = order
    random.choice = order.choice
    ctx.op()
    {'inference': infer, 'demo': demo}[plan['program']](plan, ctx, order)


def generate(rng, tier):
    p = {'order': rng.choice([0, rng.randrange(1, 10 ** 6)]), 'pick': rng.randrange(4)}
    if rng.random() < 0.6:
        push_ = rng.choice([4.0, 6.0, 10.0])
        # the projectile flies 220 at 50 * push per second, starting within the first tenth
        hit = 0.05 + 220 / (50 * push_)
        p.update(program='inference', links=rng.choice([1, 2, 2, 3]), true=rng.choice([7.0, 3.0, rng.uniform(1, 9)]), dt=rng.choice([1 / 30, 1 / 60, 0.05]),
                 push=push_, init=rng.uniform(0.2, 1.0), time=hit + rng.choice([0.1, 0.2, 0.4, -0.1]), diff=10 ** rng.uniform(-2, 3), its=rng.choice([1, 2, 3, 5]))
        if rng.random() < 0.4:
            p.update(true=p['init'] * rng.uniform(0.7, 1.6), its=rng.choice([3, 5, 8]))
    else:
        p.update(program='demo', dt=rng.choice([1 / 30, 0.05, 0.1]), time=rng.choice([3.5, 4.0, 5.0, 7.0]), its=rng.choice([2, 3, 4, 6]))
        if rng.random() < 0.15:
            p.update(dt=0.2, its=200, time=rng.choice([3.6, 4.0, 5.0]))
    if rng.random() < 0.25:
        p['clock'] = dict(gui.gen_clock(rng), step=0)
    if rng.random() < 0.15:
        p['interrupt'] = int(math.exp(rng.uniform(0, 6)))
    return p


def reduce(plan):
    for k in ('clock', 'interrupt'):
        if plan.get(k):
            yield {a: b for a, b in plan.items() if a != k}
    if plan['order']:
        yield dict(plan, order=0)
    if plan.get('links', 1) > 1:
        yield dict(plan, links=plan['links'] - 1)
    if plan.get('its', 2) > 1:
        yield dict(plan, its=plan['its'] - 1)
    if plan['program'] == 'inference' and plan['diff'] < 50:
        yield dict(plan, diff=plan['diff'] * 10)
