"""C17: the breakout experiment plays by the rules of the game it models."""
import math
import random

import numpy as np
import torch

from .. import breakout as G, gui, geom, scene as S
from ..core import Violation, Truncated, InjectedInterrupt, InjectedFault, drop_each
from ..sim import Sim, Monitor, fl
from ..threads import forked
from .c01 import REAL, STUB
from .c08 import Response, rows

PROP = 'C17'
TECH = 'the real experiment plays against a simulated emulator and planner; predictions, actions and control steps judged against the game'
RUNS = {'quick': 900, 'thorough': 15000}
RULE = ('random layout of blocks, ball and paddle in one of three settings: control steps on one world with permuted pairs, forced random choices and '
        'refused sub-steps; the display loop under a simulated clock and window; whole episodes of the player against a simulated emulator with lost '
        'balls, hidden balls, early ends, interrupts and emulator failures; non-trivial: at least one control step was judged')
STATE_MEASURE = 'distinct (setting, faults that fired, contact pairs met, actions taken, how it ended) hashed'
REAL = REAL + ['experiments/breakout/encoder.py', 'experiments/breakout/run_breakout.py', 'experiments/breakout/learn_params.py']
STUB = STUB + ['gym (an emulator of the game)', 'mpc (asks for predictions and returns planned actions)', 'wall clock, sleep, display.update in the display loop']
ASSUMPTIONS = ['the emulator shows frames without overlaps (as the game does)',
               'fixed-length steps that need more than 300 attempts are cut off and counted as truncated']

MODS = None


def preload():
    global MODS
    MODS = G.modules()


def mods():
    if MODS is None:
        preload()
    return MODS


# ---------------------------------------------------------------- control steps
class Field(Sim):
    """make_world's world, driven by control steps."""

    def __init__(self, plan, ctx, monitors):
        sc = G.scene(plan['paddle'], plan['blocks'], plan['ball'], plan['vel'])
        self.enc = mods().encoder

        def build(engine, **k):
            w, self.ball, self.paddle, self.blocks, self.idx = self.enc.make_world(
                typed(plan['paddle'], plan['num']), [typed(b, plan['num']) for b in plan['blocks']], ball_arg(plan['ball'], plan['num']), vel_arg(plan['vel'], plan['num']))
            w.engine = engine()
            return w
        super().__init__(plan, ctx, monitors, scene=sc, builder=build)
        self.cap = 300

    def act(self, op):
        self.cap = 300
        vx, vy = op['pv']
        if op['op'] == 'ctl':
            self.enc.step_breakout(self.world, self.idx, op['a'], paddle_vel_x=vx, paddle_vel_y=vy)
        else:
            self.sn = mods().run_breakout.simulate_breakout(op['a'], self.world, self.ball, self.paddle, self.blocks, self.idx,
                                                            paddle_vel_x=vx, paddle_vel_y=vy)

    def on_solve(self, r):
        self.solves.append(r)
        self.ctx.op()
        if len(self.solves) > 300:
            raise Truncated('zeno')


def typed(pd, num):
    if num == 'tensor':
        return [torch.tensor(x, dtype=torch.double) for x in pd]
    return [list(x) for x in pd]


def ball_arg(b, num):
    if num == 'tensor':
        return [torch.tensor(b[0], dtype=torch.double), torch.tensor(float(b[1]), dtype=torch.double)]
    return [list(b[0]), b[1]]


def vel_arg(v, num):
    return torch.tensor(v, dtype=torch.double) if num == 'tensor' else list(v)


class Rules(Monitor):
    def start(self, sim):
        sc = sim.sc
        if sim.idx != 1 or sim.bodies[1] is not sim.paddle or sim.bodies[0] is not sim.ball:
            raise Violation('world', 'the paddle is body %r' % sim.idx)
        if len(sim.bodies) != len(sc['bodies']):
            raise Violation('world', 'the world has %d bodies, the game has %d' % (len(sim.bodies), len(sc['bodies'])))
        for k, (b, spec) in enumerate(zip(sim.bodies, sc['bodies'])):
            for x, y in zip(S.pose(b), spec['p']):
                if abs(x - y) > 1e-9 * (1 + abs(y)):
                    raise Violation('world', 'body %d starts at %r, the game has it at %r' % (k, S.pose(b), spec['p']))
            d = [fl(b.rad)] if spec['k'] == 'circle' else [fl(x) for x in b.dims]
            w = [spec['r']] if spec['k'] == 'circle' else spec['dims']
            if max(abs(x - y) for x, y in zip(d, w)) > 1e-9:
                raise Violation('world', 'body %d has dimensions %r, the game has %r' % (k, d, w))
        self.p0 = sim.poses()
        self.v = [fl(x) for x in sim.world.get_v()]
        v = list(map(float, sim.plan['vel']))
        want = [0.0] * (3 - len(v)) + v + [0.0] * (3 * len(sim.bodies) - 3)
        if max(abs(a - b) for a, b in zip(self.v, want)) > 1e-12:
            raise Violation('world', 'the ball starts with velocity %r instead of %r' % (self.v[:3], want[:3]))
        self.t = sim.t
        self.resp = Response()
        self.drift = 0

    def after(self, sim, op):
        ctx = sim.ctx
        ctx.nontrivial = True
        acc = sim.accepted()
        if abs(sim.t - (self.t + 1)) > 1e-9 * (1 + sim.t):
            raise Violation('interval', 'a control step took from t=%r to t=%r' % (self.t, sim.t))
        if not sim.solves:
            raise Violation('interval', 'a control step simulated nothing')
        want = list(self.v)
        want[4] = op['a'] * op['pv'][0]
        want[5] = op['a'] * op['pv'][1]
        got = sim.solves[0].v0
        if max(abs(a - b) for a, b in zip(got, want)) > 1e-12 * (1 + max(map(abs, want))):
            k = max(range(len(want)), key=lambda k: abs(got[k] - want[k]))
            raise Violation('command', 'action %r with paddle velocity %r: component %d of body %d starts the step at %.9g instead of %.9g'
                            % (op['a'], op['pv'], k % 3, k // 3, got[k], want[k]))
        p = sim.poses()
        for k in range(2, len(p)):
            if max(abs(a - b) for a, b in zip(p[k], self.p0[k])) > 1e-8 * (10 + ctx.steps):
                raise Violation('moved', 'body %d, a wall or block, moved from %r to %r' % (k, self.p0[k], p[k]))
        for r, h in acc:
            self.substep(sim, r, h)
        self.v = [fl(x) for x in sim.world.get_v()]
        self.t = sim.t
        self.inside(sim, p)
        if op['op'] == 'sim':
            self.vector(sim)

    def substep(self, sim, r, h):
        ctx = sim.ctx
        touch = {}
        for c in r.contacts:
            i, j = sorted((c[4], c[5]))
            if frozenset((i, j)) in sim.nc or i > 1:
                raise Violation('contact', 'bodies %d and %d are in contact' % (i, j))
            touch.setdefault(i, set()).add(j)
            touch.setdefault(j, set()).add(i)
        for k in (0, 1):
            a, b = r.v0[3 * k:3 * k + 3], r.v1[3 * k:3 * k + 3]
            if k not in touch:
                if max(abs(x - y) for x, y in zip(a, b)) > 1e-9 * (1 + max(map(abs, a))):
                    raise Violation('free', '%s touches nothing but changes its velocity from %r to %r' % (('the ball', 'the paddle')[k], a, b))
        if r.contacts:
            self.resp.judge(sim, r, h, False)
        if 0 in touch and 1 not in touch[0]:
            s0, s1 = math.hypot(*r.v0[1:3]), math.hypot(*r.v1[1:3])
            ctx.probe('bounces')
            if abs(s0 - s1) > 1e-4 * (1 + s0):
                raise Violation('speed', 'the ball bounces off bodies %r and its speed changes from %.9g to %.9g' % (sorted(touch[0]), s0, s1))
        if 0 in touch and 1 in touch[0]:
            ctx.probe('paddle_hits')
        if 1 in touch and touch[1] & {5, 6}:
            ctx.probe('stopper_hits')

    def inside(self, sim, p):
        c = sim.sc['bodies'][0]
        for k in [1] + list(range(2, len(p))):
            if frozenset((0, k)) in sim.nc:
                continue
            d = geom.shape_dist(S.spec_shape(c, p[0]), S.spec_shape(sim.sc['bodies'][k], p[k]))[0]
            if d < -2e-6:
                raise Violation('overlap', 'the ball overlaps body %d by %.3g' % (k, -d))

    def vector(self, sim):
        sn = sim.sn
        p = sim.poses()
        B = sim.sc['bodies']
        want = p[1][1:3] + B[1]['dims'] + [x for k in range(7, len(B)) for x in p[k][1:3] + B[k]['dims']] + p[0][1:3] + [B[0]['r']]
        if list(sn.shape) != [1, len(want)]:
            raise Violation('state', 'the predicted state has shape %r' % (list(sn.shape),))
        if max(abs(fl(a) - b) for a, b in zip(sn[0], want)) > 1e-12 * 3e4:
            raise Violation('state', 'the predicted state %r is not the one of the world, %r' % (sn[0].tolist(), want))
        sim.ctx.probe('states_compared')


def control(plan, ctx):
    sim = Field(plan, ctx, [Rules()])
    sim.run()
    ctx.state('control', tuple(sorted(ctx.faults)), tuple(sorted((k, min(v, 5)) for k, v in ctx.probes.items())))


# ---------------------------------------------------------------- the display loop
def loop_world(plan):
    return mods().encoder.make_world(typed(plan['paddle'], 'list'), [typed(b, 'list') for b in plan['blocks']], ball_arg(plan['ball'], 'list'), plan['vel'])


def hexes(w):
    return [[x.hex() for x in S.pose(b) + S.vel(b)] for b in w.bodies] + [float(w.t).hex()]


def cap_steps(w):
    solve, n = w.engine.solve_dynamics, [0]

    def f(*a, **k):
        n[0] += 1
        if n[0] > 300:
            raise Truncated('zeno')
        return solve(*a, **k)
    w.engine.solve_dynamics = f
    return n


def loop_twin(plan):
    """The same control steps without any loop around them."""
    random.seed(plan['rs'])
    w, _, _, _, idx = loop_world(plan)
    n = cap_steps(w)
    out = [hexes(w)]
    for k in range(plan['steps'] + 1):
        a = plan['actions'][k] if k < len(plan['actions']) else -0.1
        v = w.get_v().clone()
        v[3 * idx + 1] = plan['pv'] * a
        w.set_v(v)
        n[0] = 0
        w.step(fixed_dt=True)
        out.append(hexes(w))
    return out


def display(plan, ctx):
    r = forked(lambda: loop_twin(plan))
    if r[0] != 'ok':
        if r[1] == 'Truncated':
            raise Truncated('zeno')
        raise Violation('exception:' + r[1], 'the steps without the loop failed: ' + r[2])
    want = r[1]
    random.seed(plan['rs'])
    w, _, _, _, idx = loop_world(plan)
    sc = G.scene(plan['paddle'], plan['blocks'], plan['ball'], plan['vel'])
    n = cap_steps(w)
    desk = gui.Desk(ctx, plan['clock'], plan['fails'])
    desk.install()
    screen = desk.window((160, 210)) if plan['screen'] else None
    real, done, closed = w.step, [0], [None]

    def step(*a, **k):
        i = done[0]
        if i >= len(want) - 1 or (closed[0] is not None and i > closed[0]):
            raise Violation('end', 'the loop goes on after it should have ended, at t=%r' % fl(w.t))
        if plan.get('quit') == i and screen is not None:
            closed[0] = i
            desk.close_window()
        elif screen is not None:
            desk.noise()
        n[0] = 0
        ctx.op()
        desk.log.append(('begin', i))
        real(*a, **k)
        desk.spend(plan['clock'].get('step', 0))
        done[0] += 1
        ctx.steps += 1
        ctx.sim_time += 1
        ctx.nontrivial = True
        desk.log.append(('end', i, fl(w.t)))
        if hexes(w) != want[done[0]]:
            raise Violation('motion', 'control step %d does not take the world where the same step without the loop does' % i)
    w.step = step

    def frame():
        if screen is None:
            raise Violation('frame', 'a frame is drawn without a screen')
        if hexes(w) != want[done[0]]:
            raise Violation('motion', 'drawing changed the world')
        e = gui.frame_error(screen, sc, [S.pose(b) for b in w.bodies], 1)
        if e:
            raise Violation('frame', 'frame after control step %d: %s' % (done[0], e))
        ctx.probe('frames_judged')

    class Rec:
        def record(self, t):
            desk.log.append(('record', fl(t)))
            frame()
            if desk.strike('record'):
                raise OSError('injected: disk full')
    import pygame
    upd = pygame.display.update

    def update(*a):
        upd(*a)
        frame()
    pygame.display.update = pygame.display.flip = update
    acts = list(plan['actions'])
    given = list(acts)
    res = 'end'
    try:
        mods().encoder.run_breakout(w, idx, given, paddle_vel=plan['pv'], dt=plan['adt'], run_time=plan['run_time'], screen=screen,
                                    recorder=Rec() if plan['recorder'] else None)
    except (InjectedInterrupt, pygame.error, OSError) as e:
        if 'injected' not in str(e):
            raise
        res = 'fault'
    if given != acts:
        raise Violation('actions', 'the list of actions it was given changed')
    if hexes(w) != want[done[0]]:
        raise Violation('motion', 'the loop changed the world between steps')
    if res == 'end':
        must = closed[0] + 1 if closed[0] is not None else plan['steps']
        if done[0] != must:
            raise Violation('end', 'the loop made %d control steps instead of %d' % (done[0], must))
    log, it, last = desk.log, [], None
    for e in log:
        if e[0] == 'begin':
            it.append([])
        elif it:
            it[-1].append(e)
    for k, ev in enumerate(it):
        cut = (res == 'fault' and k == len(it) - 1) or closed[0] == k
        sl = [e[1] for e in ev if e[0] == 'sleep']
        if any(x < 0 for x in sl):
            raise Violation('sleep', 'the loop sleeps for %r' % min(sl))
        if (screen is None or plan['recorder']) and any(x > 0 for x in sl):
            raise Violation('sleep', 'the loop sleeps without showing anything in real time')
        if sum(sl) > plan['adt'] + 1e-6 and not ctx.faults.get('clock_jump'):
            raise Violation('sleep', 'the loop sleeps for %r, longer than a frame interval of %r' % (sum(sl), plan['adt']))
        recs = [e[1] for e in ev if e[0] == 'record']
        end = [e[2] for e in ev if e[0] == 'end']
        if screen is not None and plan['recorder'] and not cut and recs != end:
            raise Violation('record', 'after the control step ending at t=%r the recorder was given %r' % (end, recs))
        if screen is not None and not plan['recorder'] and k == 0 and not cut and not any(e[0] == 'update' for e in ev):
            raise Violation('frame', 'the first control step is not shown')
    ctx.state('display', tuple(sorted(ctx.faults)), done[0], res, closed[0])
    ctx.log([x for e in log for x in e])


# ---------------------------------------------------------------- the player
class Player:
    def __init__(self, plan, ctx, render):
        self.plan, self.ctx = plan, ctx
        self.log, self.actions = [], []
        self.m = mods()
        self.emu = G.Emulator(plan['game'], ctx, self.log)
        self.m.gym.maker = lambda name: self.emu
        self.m.mpc.planner = self.planner
        self.calls = self.planned = 0
        self.prev_u = None
        self.render = render
        self.rng = random.Random(plan['rs'])

    def frames(self):
        return [e[1] for e in self.log if e[0] == 'frame']

    def planner(self, solver, x_init, cost, dyn):
        """The simulated planner: looks at everything it was given, asks for predictions, returns the plan's controls."""
        ctx, plan = self.ctx, self.plan
        self.calls += 1
        ctx.op()
        self.log.append(('plan',))
        fr = self.frames()
        now = G.vector(fr[-1])
        T = plan['T']
        if solver.T != T or solver.nc != 1 or solver.ns != len(now):
            raise Violation('planner', 'asked for %r controls of %r over %r steps in a state of %d numbers' % (solver.nc, solver.ns, solver.T, len(now)))
        x = x_init.detach().reshape(-1).tolist()
        if x != now:
            k = next((k for k in range(min(len(x), len(now))) if x[k] != now[k]), None)
            raise Violation('state', 'planning starts from a state that the frame does not show (component %r: %r, the frame shows %r)'
                            % (k, x[k], now[k]) if k is not None else 'state of the wrong length')
        u0 = solver.k['u_init']
        if list(u0.shape)[:2] != [T, 1]:
            raise Violation('planner', 'starting controls of shape %r' % (list(u0.shape),))
        if self.prev_u is not None and self.prev_u[1:] != [float(z) for z in u0.reshape(-1)[:T - 1]]:
            raise Violation('planner', 'planning starts from %r, the rest of the last plan is %r' % (u0.reshape(-1).tolist(), self.prev_u[1:]))
        if self.prev_u is None and float(u0.abs().max()) > 0.2:
            raise Violation('planner', 'after a launch planning starts from %r' % u0.reshape(-1).tolist())
        if (float(solver.k['u_lower']), float(solver.k['u_upper'])) != (-1.0, 1.0):
            raise Violation('planner', 'controls between %r and %r' % (solver.k['u_lower'], solver.k['u_upper']))
        c0, c1 = self.prev_ball, now[-3:-1]
        vel = [c1[0] - c0[0], c1[1] - c0[1]]
        self.prev_ball = c1
        self.predict(x_init, now, vel, dyn)
        self.goal(cost, now, vel, T)
        ep = self.emu.n
        if plan.get('plan_fault') == self.calls:
            ctx.fault('interrupt_while_planning')
            self.prev_u = None
            raise KeyboardInterrupt
        u = [self.rng.choice([1.0, -1.0, 0.995, -0.995, 0.98, -0.98, 0.3, 0.0, 0.99, -0.99]) for _ in range(T)]
        self.prev_u = u
        self.u = u[0]
        self.nontriv()
        ut = torch.tensor(u, dtype=torch.double).reshape(T, 1, 1)
        return x_init.unsqueeze(0).repeat(T, 1, 1), ut, torch.zeros(1)

    def nontriv(self):
        self.ctx.nontrivial = True
        self.ctx.steps += 1
        self.ctx.sim_time += 1

    def predict(self, x_init, now, vel, dyn):
        pv = self.plan['pv']
        x = x_init.detach().clone()
        first = None
        for k in range(self.plan['ask']):
            u = torch.tensor([[self.rng.choice([1.0, -1.0, 0.0, 0.5, -0.37])]], dtype=torch.double, requires_grad=True)
            q = list(map(float, x.reshape(-1)))
            keep = x.clone()
            y = dyn(x, u)
            if not torch.equal(keep, x):
                raise Violation('predict', 'predicting changed the state it started from')
            if list(y.shape) != [1, len(now)]:
                raise Violation('predict', 'a prediction of shape %r' % (list(y.shape),))
            z = y.detach().reshape(-1).tolist()
            for c in range(2, len(q) - 3):
                if abs(z[c] - q[c]) > 1e-6:
                    raise Violation('predict', 'prediction changes component %d, the size or a block, from %r to %r' % (c, q[c], z[c]))
            if z[-1] != q[-1]:
                raise Violation('predict', 'prediction changes the radius of the ball')
            ball, pad = q[-3:-1], q[:2]
            w, hgt = q[2], q[3]
            du = float(u) * -1.0
            free_ball = self.clear(q, vel)
            if free_ball:
                self.ctx.probe('ball_predictions')
                if abs(z[-3] - ball[0] - vel[0]) > 1e-6 or abs(z[-2] - ball[1] - vel[1]) > 1e-6:
                    raise Violation('predict', 'the ball at %r moving %r per frame is predicted at %r' % (ball, vel, z[-3:-1]))
                x0, x1 = sorted((pad[0], pad[0] + du * pv[0]))
                if x0 - w / 2 > 8.3 and x1 + w / 2 < 159.7:
                    self.ctx.probe('paddle_predictions')
                    if abs(z[0] - pad[0] - du * pv[0]) > 1e-6 or abs(z[1] - pad[1] - du * pv[1]) > 1e-6:
                        raise Violation('predict', 'the paddle at %r under control %r is predicted at %r' % (pad, float(u), z[:2]))
                    g, = torch.autograd.grad(y[0, 0], u, retain_graph=True, allow_unused=True)
                    if g is None or abs(float(g) + pv[0]) > 1e-6:
                        raise Violation('predict', 'the prediction changes by %r with the control, the paddle moves %r per frame' % (None if g is None else float(g), -pv[0]))
            elif math.hypot(*vel) < 20 and not (7.9 < z[-3] < 152.1 and z[-2] > 30.9):
                raise Violation('predict', 'the ball at %r moving %r is predicted at %r, outside the field' % (ball, vel, z[-3:-1]))
            if k == 0:
                y2 = dyn(x, u.detach())
                if not torch.equal(y2.detach(), y.detach()):
                    raise Violation('predict', 'asking twice gives two predictions')
            x = y.detach()
            if k == 0:
                first = z
        return first

    def clear(self, q, vel):
        """Nothing is near the ball's path (nor the paddle's)."""
        bx, by, r = q[-3], q[-2], q[-1]
        obstacles = [(x0, y0, x1, y1) for name, x0, y0, x1, y1 in G.FIELD if 'stop' not in name]
        for i in range(4, len(q) - 3, 4):
            obstacles.append((q[i] - q[i + 2] / 2, q[i + 1] - q[i + 3] / 2, q[i] + q[i + 2] / 2, q[i + 1] + q[i + 3] / 2))
        m = 6 + abs(self.plan['pv'][0]) + abs(self.plan['pv'][1])
        obstacles.append((q[0] - q[2] / 2 - m, q[1] - q[3] / 2 - m, q[0] + q[2] / 2 + m, q[1] + q[3] / 2 + m))
        ex, ey = bx + vel[0], by + vel[1]
        box = (min(bx, ex) - r - 0.5, min(by, ey) - r - 0.5, max(bx, ex) + r + 0.5, max(by, ey) + r + 0.5)
        return not any(box[0] < x1 and box[2] > x0 and box[1] < y1 and box[3] > y0 for x0, y0, x1, y1 in obstacles)

    def goal(self, cost, now, vel, T):
        """What the controls are to achieve: the paddle under the falling ball until it gets there, with little effort."""
        ns = len(now)
        r = np.random.RandomState(5)
        z = r.uniform(-50, 50, ns + 1)
        d2 = (z[ns - 3] - z[0]) ** 2
        for t in range(T):
            q = cost.C[t].reshape(ns + 1, ns + 1).double().numpy()
            if float(cost.c[t].abs().max()) != 0:
                raise Violation('goal', 'a linear cost')
            got = float(z @ q @ z) - 1e-20 * z[ns] ** 2
            if vel[1] > 0:
                frames = (now[1] - now[-2]) / vel[1]
                on = int(frames) + 1 >= t
            else:
                on = self.plan['centering'] and now[-2] > 1000
            want = d2 if on else 0.0
            if abs(got - want) > 1e-9 * d2:
                raise Violation('goal', 'step %d of the plan: state with paddle %.4g off the ball costs %.6g instead of %.6g' % (t, math.sqrt(d2), got, want))
        self.ctx.probe('goals_judged')

    # ---- the whole run
    def play(self):
        plan = self.plan
        np.random.seed(plan['rs'] % 2 ** 32)
        self.prev_ball = None
        env_step = self.emu.step
        reset = self.emu.reset

        def wrapped_reset():
            f = reset()
            self.prev_u = None
            self.planned = self.calls
            return f

        def wrapped(action):
            launching = self.emu.launching
            if launching:
                if action != 1:
                    raise Violation('launch', 'the game is started with action %r' % action)
            else:
                if self.calls != self.planned + 1:
                    raise Violation('rhythm', '%d plans for one control step' % (self.calls - self.planned))
                self.planned = self.calls
                th = plan['threshold']
                want = (3 if self.u > 0 else 2) if abs(self.u) >= th else 0
                self.actions.append(int(action))
                if action != want:
                    raise Violation('action', 'control %r with threshold %r is played as action %r' % (self.u, th, action))
            lives = self.emu.lives
            out = env_step(action)
            if launching == 2:                 # the frame the launch velocity is measured from
                self.prev_ball = G.vector(self.emu.shown)[-3:-1]
            if self.emu.lives < lives:
                self.prev_u = None
            return out
        self.emu.step, self.emu.reset = wrapped, wrapped_reset
        try:
            avg = self.m.run_breakout.run_breakout(T=plan['T'], threshold=plan['threshold'], paddle_vel=list(plan['pv']), centering=plan['centering'],
                                                   render=self.render, num_episodes=plan['episodes'], verbose=plan['verbose'])
            return 'end', float(avg)
        except InjectedFault:
            return 'fault', None

    def judge(self, res, avg):
        plan, g = self.plan, self.plan['game']
        # what must have happened, from the plan alone
        resets = sum(1 for e in self.log if e[0] == 'reset')
        if res == 'fault':
            return
        if ('crashed',) in self.log:
            raise Violation('error', 'an error of the emulator was swallowed')
        if resets != 1 + plan['episodes']:
            raise Violation('episodes', '%d episodes were started instead of %d' % (resets - 1, plan['episodes']))
        total = 0.0
        calls = 0
        for ep in range(1, plan['episodes'] + 1):
            n = 0
            while True:
                calls += 1
                if plan.get('plan_fault') == calls:
                    break
                e = next((e for e in g['events'] if e['ep'] == ep and e['n'] == n), {})
                n += 1
                if e.get('do') == 'interrupt':
                    break
                total += e.get('reward', 0)
                if e.get('do') == 'stop' or n >= g['len']:
                    break
        if calls != self.calls:
            raise Violation('episodes', '%d control steps were planned, the games lasted %d' % (self.calls, calls))
        if abs(avg - total / plan['episodes']) > 1e-9:
            raise Violation('reward', 'an average reward of %r is reported, the games paid %r in %d episodes' % (avg, total, plan['episodes']))
        rend = sum(1 for e in self.log if e[0] == 'render')
        if not self.render and rend:
            raise Violation('render', 'the game is rendered although it should not be')
        if self.render and rend != len(self.actions) - self.log.count(('interrupted',)):
            raise Violation('render', '%d control steps, %d rendered' % (len(self.actions), rend))


def quiet(f):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def play(plan, ctx):
    random.seed(plan['rs'])
    a = Player(plan, ctx, plan['render'])
    ra = quiet(a.play)
    a.judge(*ra)
    ctx.log([repr(e) for e in a.log], ra, a.actions)
    if plan['twin'] and not plan['game'].get('render_fault'):
        random.seed(plan['rs'])
        b = Player(plan, ctx, not plan['render'])
        rb = quiet(b.play)
        b.judge(*rb)
        if [e for e in a.log if e[0] != 'render'] != [e for e in b.log if e[0] != 'render'] or a.actions != b.actions or ra != rb:
            raise Violation('render', 'the game goes differently with and without rendering')
        ctx.probe('twins')
    ctx.state('play', tuple(sorted(ctx.faults)), tuple(a.actions), ra[0])


# ---------------------------------------------------------------- learning the paddle's velocity from the game
def learn(plan, ctx):
    m = mods()
    lp = m.learn_params
    log = []
    emu = G.Emulator(dict(plan['game'], nolaunch=1), ctx, log)
    m.gym.maker = lambda name: emu
    real = torch.optim.RMSprop
    box = {'it': 0}
    reset = emu.reset

    class Done(BaseException):
        pass

    def wrapped():
        ctx.op()
        if box['it'] >= plan['iters']:
            raise Done
        del log[:]
        return reset()
    emu.reset = wrapped

    class Opt:
        def __init__(self, params, lr):
            self.p = list(params)
            self.o = real(self.p, lr=lr)
            if len(self.p) != 2:
                raise Violation('learn', '%d parameters are learned' % len(self.p))

        def zero_grad(self):
            self.o.zero_grad()

        def step(self):
            self.check()
            self.o.step()
            box['it'] += 1

        def check(self):
            fr = [G.vector(e[1])[:4] for e in log if e[0] == 'frame']
            acts = [{3: 1.0, 2: -1.0}.get(e[1]) for e in log if e[0] == 'env']
            if len(fr) != 11 or len(acts) != 10 or None in acts:
                raise Violation('learn', 'an iteration looked at %d frames of %d actions %r' % (len(fr), len(acts), acts))
            v = [float(p.detach()) for p in self.p]
            sums = np.concatenate([[0.0], np.cumsum(acts)])
            for c, name in ((0, 'x'), (1, 'y')):
                pred = fr[0][c] + v[c] * sums
                true = np.array([f[c] for f in fr])
                want = float(np.sum(2 * (pred - true) * sums) / 44)
                g = self.p[c].grad
                got = 0.0 if g is None else float(g)
                if abs(got - want) > 1e-7 * (1 + abs(want) + float(np.sum(sums ** 2))):
                    raise Violation('learn', 'iteration %d: the gradient with respect to the %s velocity of the paddle is %.9g, the game says %.9g'
                                    % (box['it'], name, got, want))
            ctx.probe('gradients_judged')
            ctx.nontrivial = True
            ctx.steps += 10
            ctx.sim_time += 10
            ctx.log(v, acts)
            ctx.state('learn', tuple(acts))
    old = lp.RMSprop
    lp.RMSprop = Opt
    np.random.seed(plan['rs'] % 2 ** 32)
    try:
        quiet(lp.infer_params)
    except Done:
        pass
    finally:
        lp.RMSprop = old
    if box['it'] < plan['iters']:
        raise Violation('learn', 'learning stopped after %d iterations' % box['it'])


def execute(plan, ctx):
    {'control': control, 'display': display, 'play': play, 'learn': learn}[plan['mode']](plan, ctx)


# ---------------------------------------------------------------- generation
def grid(rng):
    k = rng.choice(['full', 'holes', 'holes', 'few', 'none'])
    p = {'full': 1.0, 'holes': 0.8, 'few': 0.1, 'none': 0.0}[k]
    return [[1 if rng.random() < p else 0 for _ in range(G.COLS)] for _ in range(6)]


def layout(rng):
    """Paddle, blocks, ball and velocity of a world."""
    B = grid(rng)
    s = {'paddle': rng.choice([8, 144, rng.randrange(8, 145)]), 'blocks': B, 'ball': [0, 0]}
    paddle, runs, _ = G.reading(s)
    paddle = (list(paddle[0]), list(paddle[1]))
    kind = rng.choice(['any', 'paddle', 'paddle', 'wall', 'blocks', 'corner'])
    rad = rng.choice([1.0, 1.0, 0.5])
    for _ in range(200):
        if kind == 'paddle':
            pos = [paddle[0][0] + rng.uniform(-12, 12), rng.uniform(170, 189 - rad - 0.01)]
            vel = [rng.uniform(-4, 4), rng.uniform(1, 5)]
        elif kind == 'wall':
            pos = [rng.choice([8 + rad + rng.uniform(0, 4), 152 - rad - rng.uniform(0, 4)]), rng.uniform(100, 180)]
            vel = [rng.uniform(-5, 5), rng.uniform(-5, 5)]
        elif kind == 'blocks':
            pos = [rng.uniform(10, 150), rng.choice([93 + rad + rng.uniform(0, 6), 57 - rad - rng.uniform(0, 6)])]
            vel = [rng.uniform(-4, 4), rng.uniform(-5, 5)]
        elif kind == 'corner':
            pos = [rng.choice([8, 152]) + rng.choice([-1, 1]) * (rad + rng.uniform(0, 3)), 31 + rad + rng.uniform(0, 3)]
            vel = [rng.uniform(-5, 5), rng.uniform(-5, 0)]
        else:
            pos = [rng.uniform(10, 150), rng.uniform(33, 187)]
            vel = [rng.choice([0.0, rng.uniform(-5, 5)]), rng.uniform(-5, 5)]
        if rng.random() < 0.3:
            pos = [round(pos[0]), round(pos[1])]
        sc = G.scene(paddle, runs, (pos, rad), vel)
        c = S.spec_shape(sc['bodies'][0], sc['bodies'][0]['p'])
        if all(geom.shape_dist(c, S.spec_shape(b, b['p']))[0] > 1e-9 for k, b in enumerate(sc['bodies']) if k not in (0, 5, 6)):
            break
    else:
        pos, vel = [80.0, 120.0], [1.0, 2.0]
    if rng.random() < 0.1:
        vel = [0.0, *vel]
    return {'paddle': paddle, 'blocks': [(list(a), list(b)) for a, b in runs], 'ball': (list(pos), rad), 'vel': vel}


def generate(rng, tier):
    mode = rng.choice(['control', 'control', 'display', 'play', 'play']) if rng.random() > 0.04 else 'learn'
    if mode == 'learn':
        B = grid(rng)
        B[rng.randrange(6)][rng.randrange(G.COLS)] = 1
        return {'mode': mode, 'iters': rng.choice([1, 2, 3]), 'ops': [], 'rs': rng.randrange(10 ** 9),
                'game': {'blocks': B, 'paddle': rng.randrange(65, 81), 'pv': rng.choice([2, 3, 4]), 'ball': [0, 0], 'vel': [0, 0], 'len': 10 ** 6, 'events': []}}
    big = tier != 'quick'
    if mode == 'play':
        n = rng.choice([1, 2, 3, 6]) * (2 if big else 1)
        eps = rng.choice([1, 1, 2, 3])
        ev = []
        for ep in range(1, eps + 1):
            for k in range(n):
                q = rng.random()
                if q < 0.3:
                    ev.append({'ep': ep, 'n': k, 'reward': rng.choice([1, 4, 7]),
                               'do': rng.choice(['', '', '', 'life', 'fall', 'hide', 'stop', 'interrupt', 'error' if rng.random() < 0.3 else 'life'])})
        pv = rng.choice([3, 4])
        p = {'mode': mode, 'T': rng.choice([1, 2, 3]), 'threshold': rng.choice([0.99, 0.9]), 'pv': [rng.choice([3.74, pv]), 0.0 if rng.random() < 0.6 else rng.choice([0.01, -0.02, 0.3])],
             'centering': rng.random() < 0.5, 'episodes': eps, 'verbose': rng.choice([0, 1, 2]), 'render': rng.random() < 0.5, 'ask': rng.choice([1, 2]),
             'twin': rng.random() < 0.4, 'ops': [],
             'game': {'blocks': grid(rng), 'paddle': rng.randrange(8, 145), 'pv': pv, 'ball': [rng.randrange(20, 140), rng.randrange(100, 150)],
                      'vel': [rng.choice([-2, -1, 0, 1, 2, 3]), rng.choice([-3, -2, 2, 3, 4])], 'len': n, 'events': ev, 'seed': rng.randrange(10 ** 6)}}
        if rng.random() < 0.1:
            p['plan_fault'] = rng.randrange(1, 6)
        if p['render'] and rng.random() < 0.1:
            p['game']['render_fault'] = rng.randrange(1, 6)
        return dict(p, rs=rng.randrange(10 ** 9))
    p = dict(layout(rng), mode=mode, num=rng.choice(['list', 'tensor']), rs=rng.randrange(10 ** 9))
    n = rng.choice([3, 8, 20]) if not big else rng.choice([10, 30, 80])
    if mode == 'control':
        once = rng.random() < 0.3
        pv = [rng.choice([3.74, -3.74, 1.0]), rng.choice([0.0, 0.0, 0.0, 0.3])]
        ops = []
        for k in range(1 if once else n):
            op = {'op': 'sim' if once else 'ctl', 'a': rng.choice([0, 1.0, -1.0, rng.uniform(-1, 1)]), 'pv': pv}
            if rng.random() < 0.3:
                op['shuf'] = rng.randrange(1, 10 ** 6)
            if rng.random() < 0.15:
                op['rej'] = rng.choice([1, 1, 2, 4])
            if rng.random() < 0.15:
                op['pick'] = rng.choice([0, 1, 2, -1, -2])
            ops.append(op)
        if once and not p['blocks']:
            p['blocks'] = [([1000.0, 60.0], [1.0, 1.0])]          # how the experiment says that there are none
        return dict(p, ops=ops)
    steps = rng.choice([1, 3, 6, 12])
    fails = [{'k': f, 'n': rng.randrange(1, 6)} for f in rng.sample(['update', 'draw', 'sleep', 'record'], rng.choice([1, 2]))] if rng.random() < 0.25 else []
    p.update(steps=steps, run_time=rng.choice([steps, steps - 0.5, steps - 0.999]), actions=[rng.choice([0, 1, -1, 0.5]) for _ in range(rng.choice([0, 2, steps, steps + 2]))],
             pv=rng.choice([3.5, -2.0]), adt=rng.choice([1, 0.1, 0.03]), screen=rng.random() < 0.8, recorder=rng.random() < 0.3, clock=gui.gen_clock(rng), fails=fails, ops=[])
    if rng.random() < 0.2:
        p['quit'] = rng.randrange(0, steps)
    return p


def reduce(plan):
    if plan['mode'] == 'learn':
        if plan['iters'] > 1:
            yield dict(plan, iters=plan['iters'] - 1)
        return
    if plan['mode'] == 'play':
        g = plan['game']
        for e in drop_each(g['events']):
            yield dict(plan, game=dict(g, events=e))
        for k, v in (('episodes', 1), ('T', 1), ('ask', 1), ('twin', False), ('verbose', 0), ('render', False)):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        if g['len'] > 1:
            yield dict(plan, game=dict(g, len=g['len'] // 2))
        if any(map(any, g['blocks'])):
            yield dict(plan, game=dict(g, blocks=[[0] * G.COLS] * 6))
        return
    for b in drop_each(plan['blocks']):
        if not b and any(o['op'] == 'sim' for o in plan['ops']):
            continue
        yield dict(plan, blocks=b)
    if plan['mode'] == 'control':
        ops = plan['ops']
        for o in drop_each(ops):
            if o:
                yield dict(plan, ops=o)
        for i, op in enumerate(ops):
            for f in ('rej', 'shuf', 'pick'):
                if f in op:
                    yield dict(plan, ops=ops[:i] + [{k: v for k, v in op.items() if k != f}] + ops[i + 1:])
        return
    for fs in drop_each(plan['fails']):
        yield dict(plan, fails=fs)
    if plan.get('quit') is not None:
        yield {k: v for k, v in plan.items() if k != 'quit'}
    for k in ('stall', 'jump', 'over', 'cost', 'step', 'draw'):
        if plan['clock'].get(k):
            yield dict(plan, clock=dict(plan['clock'], **{k: 0}))
    if plan['actions']:
        yield dict(plan, actions=[])
