"""C14: the real-time loop neither changes nor outlives the simulation."""
import contextlib
import math
import random
import sys

import pygame

from .. import scene as S, gui
from ..core import Violation, Truncated, InjectedInterrupt, Ctx, drop_each
from ..sim import Sim, gen_ops, reduce_plan
from ..threads import forked
from .c01 import REAL, STUB
from .c11 import snapshot, differs

PROP = 'C14'
TECH = 'the loop runs under a simulated wall clock, window and display; motion compared bit for bit with an undisplayed twin, sleeps and frames judged against the clock'
RUNS = {'quick': 1000, 'thorough': 12000}
RULE = ('random scene run by run_world (or positions_run_world) with or without screen and recorder while the clock stalls and jumps, sleeps overrun, '
        'drawing is slow, the window is closed, and display, drawing, printing or sleeping fail at chosen moments and the loop is started again; '
        'non-trivial: at least one step was compared with the twin')
STATE_MEASURE = 'distinct (loop, display, recorder, clock faults, where it ended, steps) hashed'
REAL = REAL + ['run_world', 'positions_run_world', 'pygame surfaces, drawing and event queue (dummy video driver)']
STUB = STUB + ['wall clock and sleep', 'display.update', 'recorder (an object that notes what it is given)']
ASSUMPTIONS = ['the loop measures time with the clocks of the time module']


def inference():
    import importlib.util
    import os
    from ..env import REPO
    spec = importlib.util.spec_from_file_location('inference', os.path.join(REPO, 'experiments', 'inference.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def hexed(s):
    return {k: [x.hex() if isinstance(x, float) else x for x in flat(v)] for k, v in s.items()}


def flat(v):
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return [float(v)]


class Stepper:
    """The k-th step of a world takes place under the k-th operation of the plan, whoever calls it."""

    def __init__(self, plan, ctx, sim):
        self.plan, self.ctx, self.sim, self.n = plan, ctx, sim, 0
        self.real = sim.world.step

    def __call__(self, *a, **k):
        sim = self.sim
        op = self.plan['ops'][self.n % len(self.plan['ops'])]
        sim.op, sim.solves, sim.stabs = op, [], []
        sim.seams.begin(op)
        sim.seams.in_step = True
        sim.cap = 300
        self.ctx.op()
        t0 = sim.t
        try:
            self.real(*a, **k)
        finally:
            sim.seams.in_step = False
        self.n += 1
        self.ctx.steps += 1
        self.ctx.sim_time += sim.t - t0


def twin(plan):
    random.seed(plan['rs'])
    ctx = Ctx(plan)
    sim = Sim(plan, ctx)
    st = Stepper(plan, ctx, sim)
    out = [(sim.t, hexed(snapshot(sim)))]
    for _ in range(plan['stop']['k'] + 1):
        st()
        out.append((sim.t, hexed(snapshot(sim))))
    return out


class Rec:
    """A recorder that notes what it is given, and when."""

    def __init__(self, run):
        self.run = run

    def record(self, t):
        r = self.run
        r.desk.log.append(('record', float(t), gui.shown(r.screen)))
        r.frame()
        if r.desk.strike('record'):
            raise OSError('injected: disk full')


class Run:
    def __init__(self, plan, ctx, want, run_time):
        self.plan, self.ctx, self.want, self.run_time = plan, ctx, want, run_time
        random.seed(plan['rs'])
        self.sim = Sim(plan, ctx)
        self.world = self.sim.world
        self.desk = gui.Desk(ctx, plan['clock'], plan['fails'])
        self.desk.install()
        self.screen = self.desk.window(tuple(plan['size'])) if plan['screen'] else None
        self.step = Stepper(plan, ctx, self.sim)
        self.world.step = self.on_step
        if plan.get('batched'):
            self.world.worlds = []
        self.closed = None
        self.last = self.check_state('before the first step')

    def check_state(self, when):
        s = hexed(snapshot(self.sim))
        for k in s:
            if s[k] != self.want[self.step.n][1][k]:
                raise Violation('motion', 'step %d, %s: the %s of the world differ from those of a world that is not displayed'
                                % (self.step.n, when, k))
        return s

    def on_step(self, *a, **k):
        n = self.step.n
        if n >= len(self.want) - 1:
            raise Violation('end', 'the loop went on at t=%r with a run time of %r' % (self.sim.t, self.run_time))
        if self.closed is not None and n > self.closed:
            raise Violation('end', 'the loop went on after the window was closed')
        self.check_state('after displaying it')
        q = self.plan.get('quit')
        self.desk.log.append(('begin', n))
        if q and q['n'] == n and self.screen is not None and not self.plan.get('batched'):
            self.closed = n
            self.desk.close_window()
        elif self.plan['screen']:
            self.desk.noise()
        self.step(*a, **k)
        self.desk.spend(self.plan['clock'].get('step', 0))
        self.desk.log.append(('end', self.step.n, self.sim.t))
        self.check_state('after it')
        self.ctx.nontrivial = True
        self.ctx.log(self.step.n, self.sim.t)

    def frame(self):
        if self.screen is None or self.plan.get('batched'):
            raise Violation('frame', 'a frame was drawn without a screen')
        e = gui.frame_error(self.screen, self.plan['scene'], self.sim.poses(), self.plan['ppm'])
        if e:
            raise Violation('frame', 'frame after step %d: %s' % (self.step.n, e))
        self.ctx.probe('frames_judged')

    def call(self):
        """One call of the loop; returns how it ended."""
        p, d = self.plan, self.desk
        d.log = []
        rec = Rec(self) if p['recorder'] else None
        upd = pygame.display.update

        def update(*a):
            upd(*a)
            self.frame()
        pygame.display.update = pygame.display.flip = update
        out = gui.Failing(d) if p['print'] else None
        old = sys.stdout
        if out:
            sys.stdout = out
        res = 'end'
        try:
            if p['loop'] == 'inference':
                self.positions = inference().positions_run_world(self.world, **dict({'dt': p['adt']} if p['adt'] else {}), run_time=self.run_time,
                                                                 screen=self.screen, recorder=rec)
            else:
                from lcp_physics.physics.world import run_world
                run_world(self.world, animation_dt=p['adt'], run_time=self.run_time, print_time=bool(p['print']), screen=self.screen,
                          recorder=rec, pixels_per_meter=p['ppm'])
        except Violation:
            raise
        except (InjectedInterrupt, pygame.error, OSError) as e:
            if 'injected' not in str(e):
                raise
            res = 'fault'
        finally:
            sys.stdout = old
            pygame.display.update = pygame.display.flip = upd
        self.check_state('after the loop')
        return res

    # ---- judging one call from its log
    def judge(self, res, first):
        p, log = self.plan, self.desk.log
        fam = self.desk.elapsed_family()
        t = lambda e: e[0] == 'read' and e[1] == fam
        head, its = [], []
        for e in log:
            if e[0] == 'begin':
                its.append({'n': e[1], 'e': [], 't': None})
            elif e[0] == 'end':
                its[-1]['t'] = e[2]
            elif its:
                its[-1]['e'].append(e)
            else:
                head.append(e)
        if any(e[0] in ('sleep', 'update', 'draw', 'record') for e in head):
            raise Violation('order', 'the loop slept or drew before its first step')
        shown = self.screen is not None and not p.get('batched')
        starts = [e[2] for e in head if t(e)]
        adt = p['adt'] or (1 / 30 if p['loop'] == 'inference' else p['scene']['dt'])
        last = None                         # clock readings at the last frame
        before = [0.0]                      # readings of the elapsed time that the next frame may be judged by
        for i, it in enumerate(its):
            ev = it['e']
            done = it['t'] is not None
            if not done:
                break
            cut = it is its[-1] and (res == 'fault' or self.closed == it['n'])
            sleeps = [e[1] for e in ev if e[0] == 'sleep']
            drew = any(e[0] in ('draw', 'update', 'record') for e in ev)
            recs = [e for e in ev if e[0] == 'record']
            if any(x < 0 for x in sleeps):
                raise Violation('sleep', 'the loop sleeps for %r' % min(sleeps))
            if not shown and (drew or any(x > 0 for x in sleeps)):
                raise Violation('headless', 'the loop draws or sleeps although nothing is displayed')
            if p['recorder'] and any(x > 0 for x in sleeps):
                raise Violation('sleep', 'the loop sleeps for %r while recording' % max(sleeps))
            if p['loop'] == 'inference' and any(x > 0 for x in sleeps):
                raise Violation('sleep', 'a loop that does not run in real time sleeps')
            if not shown:
                continue
            if p['recorder']:
                if not cut and [r[1] for r in recs] != [it['t']]:
                    raise Violation('record', 'after step %d at t=%r the recorder was given %r' % (it['n'], it['t'], [r[1] for r in recs]))
                continue
            k = next((j for j, e in enumerate(ev) if e[0] == 'sleep'), len(ev))
            now = [e[2] for e in ev[:k] if t(e)]
            # frames: one whenever a frame interval has passed since the last one
            if starts or i == 0:
                kd = next((j for j, e in enumerate(ev) if e[0] in ('draw', 'update')), None)
                seen = before + [x - s for x in [e[2] for e in ev[:kd] if t(e)] for s in starts] if i else [0.0]
                if not drew and kd is None:
                    seen = before + [x - s for x in now[:1] for s in starts]
                if drew and last is not None and max(seen) - min(last) < adt - 1e-9:
                    raise Violation('frame', 'a frame was drawn %.6g s after the last, the frame interval is %.6g' % (max(seen) - min(last), adt))
                if not drew and not cut and (last is None or min(seen) - max(last) >= adt + 1e-9):
                    raise Violation('frame', 'no frame was drawn after step %d although the last one is old' % it['n'])
                if drew:
                    last = seen
                    self.ctx.probe('frames')
                else:
                    self.ctx.probe('frames_skipped')
            # pacing: wait exactly until the clock has caught up
            if p['loop'] == 'world' and not cut and starts and now:
                tot = sum(sleeps)
                hi = max(0.0, it['t'] - min(now) + max(starts))
                lo = max(0.0, it['t'] - max(now) + min(starts))
                tol = 1e-6 * (1 + abs(it['t']))
                if tot > hi + tol:
                    raise Violation('sleep', 'at t=%.6g and %.6g s after the start the loop sleeps for %.6g s' % (it['t'], min(now) - max(starts), tot))
                if tot < lo - tol:
                    raise Violation('sleep', 'at t=%.6g and %.6g s after the start the loop only waits for %.6g s' % (it['t'], max(now) - min(starts), tot))
                self.ctx.probe('waits' if tot > 0 else 'behind_the_clock')
            elif p['loop'] == 'world' and not cut:
                raise Violation('sleep', 'the loop does not look at the clock')
            ks = max([j for j, e in enumerate(ev) if e[0] == 'sleep'] or [-1])
            before = [e[2] - s for e in ev[ks + 1:] if t(e) for s in starts] or before


def execute(plan, ctx):
    r = forked(lambda: twin(plan))
    if r[0] != 'ok':
        if r[1] == 'Truncated':
            raise Truncated('undisplayed run is truncated')
        raise Violation('exception:' + r[1], 'the undisplayed run failed: ' + r[2])
    want = r[1]
    k, mode = plan['stop']['k'], plan['stop']['mode']
    tk = want[k][0]
    run_time = {'exact': tk, 'above': math.nextafter(tk, math.inf), 'mid': (tk + want[k + 1][0]) / 2, 'none': -1.0}[mode]
    steps = {'exact': k, 'above': k + 1, 'mid': k + 1, 'none': 0}[mode]
    while steps and want[steps - 1][0] >= run_time:
        steps -= 1
    run = Run(plan, ctx, want, run_time)
    run.positions = None
    n0 = 0
    for c in range(len(plan['fails']) + 1):
        n0 = run.step.n
        res = run.call()
        run.judge(res, c == 0)
        if res == 'end':
            break
    if run.closed is not None:
        if run.step.n != run.closed + 1:
            raise Violation('end', 'the window was closed during step %d, the loop ended after step %d' % (run.closed + 1, run.step.n))
    elif run.step.n != steps:
        raise Violation('end', 'the loop made %d steps, the first that reaches the run time of %r is number %d' % (run.step.n, run_time, steps))
    if plan['loop'] == 'inference' and run.closed is None:
        got = [[float(x).hex() for x in q.detach()] for q in run.positions]
        if got != [want[i][1]['poses'] for i in range(n0, steps + 1)]:
            raise Violation('positions', 'the positions returned are not those of the world after every step')
    if run.screen is not None and not any(e[0] == 'update' for e in run.desk.log) and not plan['recorder'] and run.step.n > n0 + 1 and not plan.get('batched'):
        raise Violation('frame', 'no frame was shown')
    ctx.state(plan['loop'], bool(plan['screen']), bool(plan['recorder']), tuple(sorted(ctx.faults)), run.step.n, mode)
    ctx.log([x for e in run.desk.log for x in e if not isinstance(x, bool)])


def generate(rng, tier):
    ppm = rng.choice([1, 1, 1, 0.5, 0.7, 2, 3.5])
    sc = S.gen_mixed(rng, eps=0.1, tol=1e-6, strict=rng.random() < 0.8, post_stab=rng.random() < 0.2, dt=rng.choice([1 / 30, 1 / 60, 0.1]), vmax=40,
                     joints=0.5, n=rng.choice([1, 2, 3]))
    sc = gui.shift(sc, rng.choice([250, 400]), rng.choice([150, 250]))
    k = rng.choice([1, 3, 6, 10]) if tier == 'quick' else rng.choice([2, 10, 25])
    fails = []
    if rng.random() < 0.4:
        for f in rng.sample(['update', 'draw', 'sleep', 'print', 'record'], rng.choice([1, 1, 2, 3])):
            fails.append({'k': f, 'n': rng.randrange(1, 8)})
    plan = {'scene': sc, 'ops': gen_ops(rng, k + 1, len(sc['bodies']), rej=0.15, kick=0.0), 'stop': {'k': k, 'mode': rng.choice(['exact', 'above', 'mid', 'mid'])},
            'loop': 'inference' if rng.random() < 0.2 else 'world', 'screen': rng.random() < 0.85, 'recorder': rng.random() < 0.25, 'print': rng.random() < 0.5,
            'adt': rng.choice([None, None, 1 / 30, 0.01, 0.25, 1.0]), 'ppm': ppm, 'clock': gui.gen_clock(rng), 'fails': fails, 'size': [int(600 * ppm), int(400 * ppm)]}
    if plan['loop'] == 'inference':
        plan['ppm'] = 1
        plan['size'] = [600, 400]
    if rng.random() < 0.03:
        plan['stop']['mode'] = 'none'
    if rng.random() < 0.25:
        plan['quit'] = {'n': rng.randrange(0, k + 1)}
    if plan['loop'] == 'world' and rng.random() < 0.05:
        plan['batched'] = 1
    return plan


def reduce(plan):
    for fs in drop_each(plan['fails']):
        yield dict(plan, fails=fs)
    if plan.get('quit'):
        yield {k: v for k, v in plan.items() if k != 'quit'}
    for k in ('stall', 'jump', 'over', 'cost', 'step', 'draw'):
        if plan['clock'].get(k):
            yield dict(plan, clock=dict(plan['clock'], **{k: 0}))
    k = plan['stop']['k']
    for m in sorted({1, k // 2, k - 1}):
        if 0 < m < k:
            yield dict(plan, stop=dict(plan['stop'], k=m))
    for key, v in (('recorder', False), ('print', False), ('adt', None)):
        if plan[key]:
            yield dict(plan, **{key: v})
    for p in reduce_plan(plan):
        yield p
