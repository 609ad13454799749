"""The simulated desktop: wall clock, sleeping, window events, display and drawing are all decided by the plan.

Real: pygame surfaces, drawing and the event queue (SDL's dummy driver).  Stub: the clock and everything that sleeps;
display.update only records what the screen showed."""
import hashlib
import math
import os
import random
import time

import pygame

from . import geom, scene as S
from .core import InjectedInterrupt, InjectedFault

REAL_SAVE = pygame.image.save
REAL_DRAW = {k: getattr(pygame.draw, k) for k in ('line', 'circle', 'polygon', 'rect', 'lines', 'aaline', 'ellipse', 'arc')}


class Desk:
    def __init__(self, ctx, spec, fails=()):
        self.ctx, self.spec = ctx, spec
        self.rng = random.Random(spec.get('seed', 0))
        self.now = 1.7e9 + self.rng.random()
        self.skew = 0.0                      # what jumps have done to the wall clock; monotonic clocks do not follow
        self.log = []                        # (kind, value...) in order of occurrence
        self.fails = {f['k']: f['n'] for f in fails}
        self.counts = {}
        self.on_event = None

    # ---- faults
    def strike(self, kind):
        n = self.counts[kind] = self.counts.get(kind, 0) + 1
        if self.fails.get(kind) == n:
            self.ctx.fault(kind + '_failed')
            return True
        return False

    # ---- clock
    def spend(self, mean):
        if mean:
            self.now += self.rng.expovariate(1.0 / mean)

    def read(self, name):
        s = self.spec
        self.spend(s.get('cost', 0))
        if s.get('stall') and self.rng.random() < s['stall']:
            self.now += self.rng.choice([0.05, 0.5, 5.0])
            self.ctx.fault('clock_stall')
        if s.get('jump') and self.rng.random() < s['jump']:
            self.skew += self.rng.choice([-1, 1]) * self.rng.choice([0.02, 0.3, 10.0, 3600.0])
            self.ctx.fault('clock_jump')
        v = self.now + (self.skew if name == 'time' else -1.6e9)
        self.log.append(('read', name, v))
        return v

    def sleep(self, x):
        self.log.append(('sleep', float(x)))
        if x < 0:
            raise ValueError('sleep length must be non-negative')
        if self.strike('sleep'):
            self.now += x * self.rng.random()
            raise InjectedInterrupt('injected interrupt of a sleep')
        self.now += x
        if x > 0 and self.spec.get('over') and self.rng.random() < self.spec['over']:
            self.now += self.rng.expovariate(10)
            self.ctx.fault('overslept')

    # ---- display
    def update(self, *a):
        self.log.append(('update',))
        if self.strike('update'):
            raise pygame.error('injected display error')
        self.spend(self.spec.get('draw', 0))

    def drawer(self, name):
        real = REAL_DRAW[name]

        def f(*a, **k):
            self.log.append(('draw',))
            if self.strike('draw'):
                raise pygame.error('injected drawing error')
            return real(*a, **k)
        return f

    def install(self):
        time.time = lambda: self.read('time')
        time.monotonic = lambda: self.read('monotonic')
        time.perf_counter = lambda: self.read('perf_counter')
        time.sleep = self.sleep
        pygame.time.wait = pygame.time.delay = lambda ms: self.sleep(ms / 1000.0)
        pygame.display.update = pygame.display.flip = self.update
        for k in REAL_DRAW:
            setattr(pygame.draw, k, self.drawer(k))

    def window(self, size):
        pygame.display.init()
        scr = pygame.display.set_mode(size)
        pygame.event.clear()
        return scr

    def close_window(self):
        self.ctx.fault('window_closed')
        pygame.event.post(pygame.event.Event(pygame.QUIT))

    def noise(self):
        for _ in range(self.rng.randrange(3)):
            pygame.event.post(pygame.event.Event(self.rng.choice([pygame.KEYDOWN, pygame.MOUSEMOTION, pygame.USEREVENT]), key=1))

    def elapsed_family(self):
        names = {e[1] for e in self.log if e[0] == 'read'}
        for n in ('time', 'monotonic', 'perf_counter'):
            if n in names:
                return n
        return None


class Failing:
    """Standard output that can break."""

    def __init__(self, desk):
        self.desk = desk

    def write(self, s):
        if self.desk.strike('print'):
            raise OSError('injected: broken pipe')
        return len(s)

    def flush(self):
        pass


# ---------------------------------------------------------------- what a frame must show
def frame_error(screen, sc, poses, ppm):
    """Independent judgement of a frame: every outline point well inside the screen is drawn, and nothing is drawn away from
    the bodies and joint markers."""
    import numpy as np
    w, h = screen.get_size()
    px = pygame.surfarray.array3d(screen)
    ink = (px != 255).any(axis=2)
    mask = pygame.Surface((w, h))
    mask.fill((0, 0, 0))
    circle, polygon, line = REAL_DRAW['circle'], REAL_DRAW['polygon'], REAL_DRAW['line']
    pts = []
    for b, p in zip(sc['bodies'], poses):
        x, y = p[1] * ppm, p[2] * ppm
        if b['k'] == 'circle':
            r = b['r'] * ppm
            circle(mask, (255, 255, 255), (x, y), r + 4)
            pts += [] if r < 1 else [(x + r * math.cos(a), y + r * math.sin(a)) for a in (0, math.pi / 2, math.pi, -math.pi / 2)]
            continue
        vs = [(vx * ppm, vy * ppm) for vx, vy in S.spec_shape(b, p)[1]]
        polygon(mask, (255, 255, 255), vs)
        for k in range(len(vs)):
            line(mask, (255, 255, 255), vs[k - 1], vs[k], 9)
            circle(mask, (255, 255, 255), vs[k], 5)
        circle(mask, (255, 255, 255), (x, y), 6)
        pts += vs
    for j in sc['joints']:
        a = poses[j['a']]
        if j['k'] == 'fixed':
            c = poses[j['b']]
            line(mask, (255, 255, 255), (a[1] * ppm, a[2] * ppm), (c[1] * ppm, c[2] * ppm), 9)
        elif j['k'] == 'joint':
            d = [j['pos'][0] - sc['bodies'][j['a']]['p'][1], j['pos'][1] - sc['bodies'][j['a']]['p'][2]]
            q = a[0] - sc['bodies'][j['a']]['p'][0]
            circle(mask, (255, 255, 255), ((a[1] + d[0] * math.cos(q) - d[1] * math.sin(q)) * ppm,
                                           (a[2] + d[0] * math.sin(q) + d[1] * math.cos(q)) * ppm), 10)
        else:
            circle(mask, (255, 255, 255), (a[1] * ppm, a[2] * ppm), 12)
            # constraints on a coordinate are drawn where they were created
            b = sc['bodies'][j['a']]['p']
            circle(mask, (255, 255, 255), (b[1] * ppm, b[2] * ppm), 12)
    stray = ink & (pygame.surfarray.array3d(mask) == 0).all(axis=2)
    if stray.any():
        x, y = np.argwhere(stray)[0]
        return 'pixel (%d, %d) is drawn although no body or joint is there' % (x, y)
    for x, y in pts:
        if not (4 <= x < w - 4 and 4 <= y < h - 4):
            continue
        x, y = int(x), int(y)
        if not ink[x - 3:x + 4, y - 3:y + 4].any():
            return 'nothing is drawn near (%d, %d), where the outline of a body is' % (x, y)
    return None


def shown(screen):
    return hashlib.sha1(pygame.image.tobytes(screen, 'RGB')).hexdigest()


def shift(sc, dx, dy):
    """The scene moved to where a window shows it."""
    sc = dict(sc, bodies=[dict(b, p=[b['p'][0], b['p'][1] + dx, b['p'][2] + dy]) for b in sc['bodies']],
              joints=[dict(j, pos=[j['pos'][0] + dx, j['pos'][1] + dy]) if j.get('pos') else j for j in sc['joints']])
    return sc


def gen_clock(rng):
    return {'seed': rng.randrange(10 ** 6), 'cost': rng.choice([0, 1e-6, 1e-3, 0.02]), 'step': rng.choice([0, 1e-3, 0.02, 0.2]),
            'draw': rng.choice([0, 0, 0.01, 0.1]), 'stall': rng.choice([0, 0, 0.1, 0.5]), 'jump': rng.choice([0, 0, 0.05, 0.3]),
            'over': rng.choice([0, 0.3])}
