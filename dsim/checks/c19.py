"""C19: the frames of the game are read into the parameters that produced them."""
import random

import numpy as np
import torch

from .. import breakout as G
from ..core import Violation, drop_each
from .c17 import grid, mods, preload, quiet  # noqa: F401

PROP = 'C19'
TECH = 'the real frame reader watches a simulated emulator whose state is the oracle'
RUNS = {'quick': 480, 'thorough': 20000}
RULE = ('random game played by the simulated emulator for many frames, with blocks knocked out, the ball lost, hidden or half behind a wall, frames '
        'read again later or in another order, and the paddle at the stops; non-trivial: at least one frame was read and compared')
STATE_MEASURE = 'distinct (what is near what: ball region, paddle at a stop, number of runs per row, faults) hashed'
REAL = ['experiments/breakout/encoder.py: extract_params', 'experiments/breakout/run_breakout.py: to_vector, from_vector']
STUB = ['gym (an emulator of the game that draws frames)']
ASSUMPTIONS = ['the ball neither touches the paddle in the rows of the paddle, nor overlaps a block, nor covers the first line of the red row '
               '(ball, paddle and red blocks share one colour there)']


def clear(s):
    """Frames that can be read without ambiguity."""
    if s['ball'] is None:
        return True
    x, y = s['ball']
    if y < 193 + 1 and y + 4 > 189 and x + 2 > s['paddle'] - 4 and x < s['paddle'] + 16 + 2:
        return False
    if y <= 57 < y + 4:
        return False
    if y < 195 and y + 4 > 189 and x + 2 > 151:
        return False
    for k, row in enumerate(s['blocks']):
        for c, on in enumerate(row):
            if on and x < 16 + 8 * c and x + 2 > 8 + 8 * c and y < 63 + 6 * k and y + 4 > 57 + 6 * k:
                return False
    return True


def flat(p, b, ball):
    f = lambda x: [float(v) for v in (x.tolist() if isinstance(x, (torch.Tensor, np.ndarray)) else list(x))]
    return [f(p[0]), f(p[1])], [[f(q[0]), f(q[1])] for q in b], None if ball is None else [f(ball[0]), float(ball[1])]


def judge(ctx, s, noise, when):
    m = mods()
    frame = G.draw(s, noise)
    keep = frame.copy()
    ctx.op()
    out = m.encoder.extract_params(frame)
    if not np.array_equal(keep, frame):
        raise Violation('frame', 'reading a frame changed it')
    got = flat(*out)
    want = flat(*G.reading(s))
    if got[0] != want[0]:
        raise Violation('paddle', '%s: the paddle is read as %r, the frame shows %r' % (when, got[0], want[0]))
    if got[1] != want[1]:
        miss = [b for b in want[1] if b not in got[1]]
        more = [b for b in got[1] if b not in want[1]]
        raise Violation('blocks', '%s: the frame shows blocks %r that are not read, and %r are read that it does not show' % (when, miss[:3], more[:3]))
    if want[2] is None:
        if got[2][0][1] < 10 * G.H:
            raise Violation('ball', '%s: a ball is read at %r, the frame shows none' % (when, got[2]))
    elif got[2] != want[2]:
        raise Violation('ball', '%s: the ball is read as %r, the frame shows %r' % (when, got[2], want[2]))
    v = m.run_breakout.to_vector(*out)
    if v.tolist() != G.vector(s):
        raise Violation('vector', '%s: the state vector is %r, the frame shows %r' % (when, v.tolist(), G.vector(s)))
    back = m.run_breakout.from_vector(v)
    bb = flat(*back)
    if (bb[0], bb[2]) != (got[0], got[2]) or bb[1] != (got[1] or [[[1000.0, 60.0], [1.0, 1.0]]]):
        raise Violation('vector', '%s: the state vector is taken apart into %r' % (when, bb))
    ctx.nontrivial = True
    ctx.probe('frames_read')
    ctx.steps += 1
    ctx.sim_time += 1
    ctx.log(when, v.tolist())
    b = s['ball']
    ctx.state(None if b is None else (b[0] < 10, b[0] > 148, b[1] // 12), s['paddle'] in (8,), s['paddle'] > 140, tuple(len([1 for q in want[1] if q[0][1] == 60 + 6 * k]) for k in range(6)))


def execute(plan, ctx):
    s = {'paddle': plan['paddle'], 'blocks': [list(r) for r in plan['blocks']], 'ball': plan['ball']}
    seen = []
    for n, ev in enumerate(plan['ops']):
        k = ev['do']
        if k == 'ball':
            s = dict(s, ball=ev['p'])
        elif k == 'lost':
            s = dict(s, ball=None)
            ctx.fault('ball_not_shown')
        elif k == 'paddle':
            s = dict(s, paddle=ev['x'])
        elif k == 'block':
            s = dict(s, blocks=[[0 if (r, c) == tuple(ev['rc']) else v for c, v in enumerate(row)] for r, row in enumerate(s['blocks'])])
        elif k == 'again':
            if seen:
                old = seen[ev['k'] % len(seen)]
                judge(ctx, old, plan['noise'], 'frame %d, read again after frame %d' % (ev['k'] % len(seen), n))
                ctx.fault('stale_frame')
            continue
        if ev.get('edge'):
            ctx.fault('ball_half_visible')
        if not clear(s):
            ctx.probe('ambiguous_frames')
            continue
        judge(ctx, s, plan['noise'], 'frame %d' % n)
        seen.append(s)


def place(rng, s):
    """A position of the ball, often where the reader may stumble."""
    k = rng.choice(['any', 'any', 'paddle', 'below', 'top', 'gap', 'wall', 'block'])
    x, y = rng.randrange(8, 151), rng.randrange(31, 186)
    if k == 'paddle':
        x, y = s['paddle'] + rng.randrange(-3, 18), rng.randrange(180, 187)
        if rng.random() < 0.3:
            x, y = rng.choice([s['paddle'] - rng.randrange(6, 30), s['paddle'] + 16 + rng.randrange(2, 20)]), rng.randrange(184, 194)
    elif k == 'below':
        y = rng.randrange(194, 207)
    elif k == 'top':
        y = rng.randrange(31, 54)
    elif k == 'gap':
        y = rng.randrange(58, 92)
    elif k == 'block':
        y = rng.choice([92, 93, 94, 53, 52])
    elif k == 'wall':
        x = rng.choice([8, 9, 150, 149])
    return [min(max(x, 8), 150), y]


def generate(rng, tier):
    B = grid(rng)
    s = {'paddle': rng.choice([8, 144, rng.randrange(8, 149)]), 'blocks': [list(r) for r in B], 'ball': None}
    s['ball'] = place(rng, s) if rng.random() < 0.8 else None
    ops = []
    for _ in range(rng.choice([5, 15, 30]) if tier == 'quick' else rng.choice([20, 60])):
        q = rng.random()
        if q < 0.5:
            p = place(rng, s)
            o = {'do': 'ball', 'p': p}
            if rng.random() < 0.1:
                o['p'] = [159, rng.randrange(100, 150)] if rng.random() < 0.5 else [p[0], 208]
                o['edge'] = 1
            s['ball'] = o['p']
        elif q < 0.6:
            o = {'do': 'lost'}
        elif q < 0.75:
            s['paddle'] = rng.choice([8, 9, 144, 140, 148, rng.randrange(8, 149)])
            o = {'do': 'paddle', 'x': s['paddle']}
        elif q < 0.92:
            o = {'do': 'block', 'rc': [rng.randrange(6), rng.randrange(G.COLS)]}
        else:
            o = {'do': 'again', 'k': rng.randrange(100)}
        ops.append(o)
    return {'paddle': rng.choice([8, 144, rng.randrange(8, 149)]), 'blocks': B, 'ball': s['ball'], 'ops': ops, 'noise': rng.choice([0, rng.randrange(1, 100)]), 'rs': 1}


def reduce(plan):
    for o in drop_each(plan['ops']):
        if o:
            yield dict(plan, ops=o)
    if plan['noise']:
        yield dict(plan, noise=0)
    for r in range(6):
        if any(plan['blocks'][r]):
            yield dict(plan, blocks=[[0] * G.COLS if k == r else q for k, q in enumerate(plan['blocks'])])
