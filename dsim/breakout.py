"""The simulated game of breakout: an emulator that emits frames (stub of gym), a planner that asks for predictions (stub of mpc),
and the geometry of the playing field, all written from the game and not from the code under test.

Real: experiments/breakout/{encoder,run_breakout,learn_params}.py and the physics below them."""
import importlib.util
import os
import random
import sys
import types

import numpy as np

RED, ORANGE, BEIGE, YELLOW, GREEN, BLUE = (200, 72, 72), (198, 108, 58), (180, 122, 48), (162, 162, 42), (72, 160, 72), (66, 72, 200)
ROWS = (RED, ORANGE, BEIGE, YELLOW, GREEN, BLUE)
CYAN, GRAY = (66, 158, 130), (142, 142, 142)
W, H = 160, 210
COLS = 18                      # 18 blocks of 8 pixels between the walls at 8 and 152
FIELD = [('left', 0, 0, 8, 189), ('right', 152, 0, 160, 195), ('roof', 8, 0, 152, 31), ('lstop', 0, 189, 8, 195), ('rstop', 160, 189, 168, 195)]


class Emulator:
    """One game, deterministic in its plan."""

    def __init__(self, spec, ctx, log):
        self.spec, self.ctx, self.log = spec, ctx, log
        self.n = -1                              # episode
        self.steps = 0                           # control steps taken by the player since the launch
        self.total = 0
        self.launching = 0
        self.fresh()

    def fresh(self):
        s = self.spec
        self.blocks = [list(r) for r in s['blocks']]
        self.x = s['paddle']
        self.ball = None
        self.vel = None
        self.lives = 5
        self.rng = random.Random(s.get('seed', 0) + 7 * self.n)

    # ---- the gym interface
    def reset(self):
        self.n += 1
        self.fresh()
        self.steps = 0
        self.launching = 0 if self.spec.get('nolaunch') else 5
        self.log.append(('reset',))
        return self.emit()

    def render(self, *a, **k):
        self.log.append(('render',))
        if self.spec.get('render_fault') and self.total == self.spec['render_fault']:
            self.ctx.fault('render_failed')
            from .core import InjectedFault
            raise InjectedFault('injected: display gone')

    def event(self):
        for e in self.spec.get('events', ()):
            if e['ep'] == self.n and e['n'] == self.steps:
                return e
        return None

    def step(self, action):
        self.log.append(('env', int(action)))
        if self.launching:
            self.launching -= 1
            if self.ball is None and action == 1:
                self.ball = list(self.spec['ball'])
                self.vel = list(self.spec['vel'])
            else:
                self.move(0)
            return self.emit(), 0.0, False, {'ale.lives': self.lives}
        e = self.event() or {}
        self.steps += 1
        self.total += 1
        do = e.get('do')
        if do == 'interrupt':
            self.ctx.fault('interrupt')
            self.log.append(('interrupted',))
            raise KeyboardInterrupt
        if do == 'error':
            self.ctx.fault('environment_failed')
            from .core import InjectedFault
            self.log.append(('crashed',))
            raise InjectedFault('injected: emulator crashed')
        if self.ball is None and action == 1:
            self.ball, self.vel = list(self.spec['ball']), list(self.spec['vel'])
        else:
            self.move(action)
        r = float(e.get('reward', 0))
        if do == 'life':
            self.lives -= 1
            self.ball = None
            self.launching = 5
            self.ctx.fault('ball_lost')
        if do == 'fall' and self.ball is not None:
            self.ball[1] = self.rng.randrange(196, 209)
            self.ctx.fault('ball_falls_out')
        if do == 'hide':
            self.ctx.fault('ball_hidden_in_frame')
        stop = do == 'stop' or self.steps >= self.spec['len']
        return self.emit(hide=do == 'hide'), r, stop, {'ale.lives': self.lives}

    def move(self, action):
        v = self.spec['pv']
        self.x = min(max(self.x + {2: v, 3: -v}.get(action, 0), 8), 144)
        if self.ball is None:
            return
        b, w = self.ball, self.vel
        for k, lo, hi in ((0, 8, 150), (1, self.bottom(), 180)):
            b[k] += w[k]
            if b[k] < lo or b[k] > hi:
                w[k] = -w[k]
                b[k] = min(max(b[k], lo), hi)

    def bottom(self):
        return 96 if any(any(r) for r in self.blocks) else 34

    def emit(self, hide=False):
        self.shown = dict(ball=None if hide or self.ball is None else [int(round(self.ball[0])), int(round(self.ball[1]))],
                          paddle=self.x, blocks=[list(r) for r in self.blocks])
        f = draw(self.shown)
        self.log.append(('frame', self.shown))
        return f

    def close(self):
        pass


def draw(s, noise=None):
    f = np.zeros((H, W, 3), dtype=np.uint8)

    def rect(x0, y0, x1, y1, c):
        f[max(y0, 0):max(y1, 0), max(x0, 0):max(x1, 0)] = c
    rect(0, 17, W, 31, GRAY)
    rect(0, 31, 8, 189, GRAY)
    rect(152, 31, 160, 195, GRAY)
    rect(0, 189, 8, 195, CYAN)
    rect(152, 189, 160, 195, RED)
    if noise:                                          # score digits
        r = random.Random(noise)
        for _ in range(6):
            x = r.randrange(20, 130)
            rect(x, 5, x + r.randrange(2, 12), 15, GRAY)
    for k, row in enumerate(s['blocks']):
        for c, on in enumerate(row):
            if on:
                rect(8 + 8 * c, 57 + 6 * k, 16 + 8 * c, 63 + 6 * k, ROWS[k])
    rect(s['paddle'], 189, s['paddle'] + 16, 193, RED)
    if s['ball'] is not None:
        x, y = s['ball']
        rect(x, y, x + 2, y + 4, RED)
    return f


def reading(s):
    """What a frame shows: ((pos, dims) of the paddle, the same for every run of blocks, (pos, radius) of the ball)."""
    x1 = min(s['paddle'] + 16, W)
    paddle = ([(s['paddle'] + x1) / 2, 191.0], [float(x1 - s['paddle']), 4.0])
    runs = []
    for k, row in enumerate(s['blocks']):
        c = 0
        while c < COLS:
            if row[c]:
                e = c
                while e < COLS and row[e]:
                    e += 1
                runs.append(([8 + 4.0 * (c + e), 60.0 + 6 * k], [8.0 * (e - c), 6.0]))
                c = e
            c += 1
    if s['ball'] is None:
        return paddle, runs, None
    x, y = s['ball']
    w = min(x + 2, W) - max(x, 0)
    h = min(y + 4, H) - max(y, 0)
    return paddle, runs, ([max(x, 0) + w / 2, max(y, 0) + h / 2], min(min(w, h) / 2, 1))


def vector(s):
    p, runs, b = reading(s)
    out = [*p[0], *p[1]]
    for q in runs or [([1000.0, 60.0], [1.0, 1.0])]:
        out += [*q[0], *q[1]]
    if b is None:
        out += [80.0, 21000.0, 1.0]
    else:
        out += [*b[0], b[1]]
    return out


# ---------------------------------------------------------------- stubs
class Gym(types.ModuleType):
    def __init__(self):
        super().__init__('gym')
        self.maker = None
        self.wrappers = types.SimpleNamespace(Monitor=lambda env, *a, **k: env)

    def make(self, name, *a, **k):
        return self.maker(name)


class Cost:
    def __init__(self, C, c):
        self.C, self.c = C, c


def modules():
    """The experiment's modules, from the tree under test, on top of stub gym and mpc."""
    from .env import REPO
    d = os.path.join(REPO, 'experiments', 'breakout')
    gym = Gym()
    mpc = types.ModuleType('mpc')
    mm = types.ModuleType('mpc.mpc')
    mm.GradMethods = types.SimpleNamespace(AUTO_DIFF=1, FINITE_DIFF=2, ANALYTIC=3, ANALYTIC_CHECK=4)
    mm.QuadCost = Cost
    mm.planner = None

    class MPC:
        def __init__(self, n_state, n_ctrl, T=None, **k):
            self.ns, self.nc, self.T, self.k = n_state, n_ctrl, T, k

        def cuda(self):
            return self

        def __call__(self, x_init, cost, dynamics):
            return mm.planner(self, x_init, cost, dynamics)
    mm.MPC = MPC
    mpc.mpc = mm
    sys.modules.update({'gym': gym, 'mpc': mpc, 'mpc.mpc': mm})
    out = {}
    for n in ('encoder', 'run_breakout', 'learn_params'):
        spec = importlib.util.spec_from_file_location(n, os.path.join(d, n + '.py'))
        m = importlib.util.module_from_spec(spec)
        sys.modules[n] = m
        spec.loader.exec_module(m)
        out[n] = m
    return types.SimpleNamespace(gym=gym, mpc=mm, **out)


# ---------------------------------------------------------------- the world the frame stands for, as a scene
def scene(paddle, blocks, ball, vel, eps=0.1, tol=1e-6):
    def rect(pos, dims, e=1.0):
        w, h = dims
        return {'k': 'rect', 'dims': [w, h], 'verts': [(w / 2, h / 2), (-w / 2, h / 2), (-w / 2, -h / 2), (w / 2, -h / 2)],
                'p': [0.0, float(pos[0]), float(pos[1])], 'v': [0.0, 0.0, 0.0], 'm': 1.0, 'e': e, 'mu': 0.0, 'f': []}
    B = [{'k': 'circle', 'r': float(ball[1]), 'p': [0.0, float(ball[0][0]), float(ball[0][1])], 'v': [0.0, float(vel[-2]), float(vel[-1])],
          'm': 1.0, 'e': 1.0, 'mu': 0.0, 'f': []}, rect(*paddle)]
    for name, x0, y0, x1, y1 in FIELD:
        B.append(rect([(x0 + x1) / 2, (y0 + y1) / 2], [x1 - x0, y1 - y0], -1.0 if 'stop' in name else 1.0))
    B += [rect(*b) for b in blocks]
    nc = [[1, 2], [1, 3], [1, 4], [2, 4], [3, 4], [2, 5], [3, 6], [0, 5], [0, 6]]
    for k in range(7, len(B)):
        nc += [[2, k], [3, k]] + [[m, k] for m in range(7, k)]
    return {'bodies': B, 'joints': [{'k': 'total', 'a': k} for k in range(2, len(B))], 'nc': nc, 'eps': eps, 'tol': tol, 'dt': 1,
            'strict': True, 'post_stab': False}
