"""C15: recordings are gapless, evenly timed and survive disk errors."""
import math
import os
import random
import shutil
import tempfile

import pygame

from .. import scene as S, gui
from ..core import Violation, Truncated, Ctx, drop_each
from ..sim import Sim, gen_ops, reduce_plan
from ..threads import forked
from .c01 import REAL, STUB
from .c11 import snapshot
from .c14 import Stepper, hexed

PROP = 'C15'
TECH = 'a disk that fills up, tears writes and loses its directory at chosen moments; the recorder is compared with a reference model call by call and frame by frame'
RUNS = {'quick': 1200, 'thorough': 20000}
RULE = ('a recorder called with a random sequence of simulated times (bursts, gaps, repeats) or by the real-time loop of a random world, with '
        'random frame intervals, while writes fail in different ways and the recording is resumed; non-trivial: at least one frame was due')
STATE_MEASURE = 'distinct (way of driving, fault kinds fired, frames written, calls) hashed'
REAL = ['Recorder', 'pygame surfaces and BMP encoder', 'file system (a scratch directory)', 'run_world and everything below it (half of the runs)']
STUB = ['pygame.image.save fails or tears the file when the plan says so', 'wall clock, sleep, display.update']
ASSUMPTIONS = ['frames due within a rounding error of the call time may come one call earlier or later']


class Disk:
    """Wraps the real write: full disk, torn write, missing directory, interrupted write."""

    def __init__(self, ctx, fails):
        self.ctx = ctx
        self.fails = {f['n']: f['k'] for f in fails}
        self.n = 0
        self.failed = None
        self.saved = []

    def save(self, surface, target, *a):
        self.n += 1
        k = self.fails.get(self.n)
        name = str(target)
        self.failed = k
        if k is None:
            self.saved.append(name)
            return gui.REAL_SAVE(surface, target, *a)
        self.ctx.fault('disk_' + k)
        if k == 'torn':
            gui.REAL_SAVE(surface, target, *a)
            with open(name, 'r+b') as f:
                f.truncate(os.path.getsize(name) // 2)
        elif k == 'empty':
            open(name, 'wb').close()
        raise (OSError if self.n % 2 else pygame.error)('injected: disk error (%s)' % k)


def encode(surface, path):
    gui.REAL_SAVE(surface, path)
    with open(path, 'rb') as f:
        b = f.read()
    os.remove(path)
    return b


class Model:
    """What a recording must look like."""

    def __init__(self, dt, exact=False):
        self.dt, self.frames, self.exact = dt, [], exact
        self.old = {}

    def due(self, t):
        """True / False / None (too close to call)."""
        d = t - (len(self.frames) + 1) * self.dt
        if self.exact:                 # the interval and all times are binary fractions: no rounding, a frame due now is due
            return d >= 0
        if abs(d) < 1e-9 * (1 + abs(t)) * (1 + len(self.frames)):
            return None
        return d > 0


def files(path):
    return sorted(os.listdir(path)) if os.path.isdir(path) else []


def compare(model, path, ctx, torn=None):
    """torn: the frame number whose last write failed; its file may hold anything."""
    want = ['%d.bmp' % k for k in range(len(model.frames))]
    got = files(path)
    extra = [f for f in got if f not in want and f != torn and f not in model.old]
    missing = [f for f in want if f not in got]
    if extra or missing:
        raise Violation('files', 'after %d frames the recording has files %s too much and lacks %s' % (len(want), extra[:5], missing[:5]))
    for f, b in model.old.items():
        if f not in want and f != torn:
            if f not in got:
                raise Violation('files', 'the file %s of an earlier recording disappeared' % f)
            with open(os.path.join(path, f), 'rb') as h:
                if h.read() != b:
                    raise Violation('files', 'the file %s of an earlier recording changed' % f)
    for k, b in enumerate(model.frames):
        with open(os.path.join(path, '%d.bmp' % k), 'rb') as f:
            if f.read() != b:
                raise Violation('content', 'frame %d does not show the screen at the time it was taken' % k)


def call(rec, t, model, disk, path, scratch, screen, ctx, fn=None):
    """One call of record, judged against the model."""
    due = model.due(t)
    before = files(path)
    n0 = disk.n
    disk.failed = None
    img = encode(screen, os.path.join(scratch, 'now.bmp'))
    err = None
    try:
        (fn or rec.record)(t)
    except (OSError, pygame.error) as e:
        if 'injected' not in str(e) and os.path.isdir(path):
            raise
        err = e
    k = len(model.frames)
    name = '%d.bmp' % k
    tried = disk.n > n0
    if due is True and not tried:
        raise Violation('missed', 'at t=%r frame %d is due (interval %r), the recorder writes nothing' % (t, k, model.dt))
    if due is False and tried:
        raise Violation('early', 'at t=%r frame %d is written, it is due at %r' % (t, k, (k + 1) * model.dt))
    if disk.n > n0 + 1:
        raise Violation('double', 'one call writes %d frames' % (disk.n - n0))
    if not tried:
        if err is not None:
            raise err
        return err
    if disk.failed or not os.path.isdir(path):
        if err is None:
            raise Violation('unreported', 'a failed write (%s) of frame %d was not reported' % (disk.failed or 'no directory', k))
        ctx.probe('failed_writes')
        return err
    if err is not None:
        raise err
    if name not in files(path):
        raise Violation('number', 'frame %d was not written under its number, the files are now %s (before: %s)' % (k, files(path)[-3:], before[-3:]))
    model.frames.append(img)
    ctx.probe('frames')
    return None


def paint(screen, rng):
    screen.fill((rng.randrange(256), rng.randrange(256), rng.randrange(256)))
    for _ in range(3):
        gui.REAL_DRAW['circle'](screen, (rng.randrange(256), 0, 0), (rng.randrange(40), rng.randrange(30)), rng.randrange(1, 9))


def direct(plan, ctx, scratch):
    from lcp_physics.physics.utils import Recorder
    rng = random.Random(plan['paint'])
    disk = Disk(ctx, plan['fails'])
    pygame.image.save = disk.save
    screen = pygame.Surface((40, 30))
    path = os.path.join(scratch, *plan['path'])
    pre = plan.get('exists')
    model = Model(plan['dt'], plan.get('exact'))
    if pre:
        os.makedirs(path)
        for k, f in enumerate(plan.get('old', ())):
            # what an earlier recording, or another program, left there
            model.old[f] = b'old %d' % k
            with open(os.path.join(path, f), 'wb') as h:
                h.write(model.old[f])
            ctx.fault('directory_has_old_files')
    real_makedirs = os.makedirs
    if plan.get('race') and not pre:
        # another program creates the directory between the check and the creation
        real = os.path.exists

        def exists(p):
            r = real(p)
            if not r and os.path.abspath(str(p)) == path:
                real_makedirs(path)
                ctx.fault('directory_created_concurrently')
            return r
        os.path.exists = exists
    recs = []
    if plan.get('default'):
        os.chdir(scratch)
        rec = Recorder(plan['dt'], screen)
        path = os.path.join(scratch, 'videos', 'frames')
    else:
        rec = Recorder(plan['dt'], screen, path)
    if not os.path.isdir(path):
        raise Violation('directory', 'the recorder did not create its directory')
    t = 0.0
    torn = None
    moved = None
    for i, c in enumerate(plan['calls']):
        t += c['d']
        paint(screen, rng)
        ctx.op()
        if c.get('lose') and moved is None:
            moved = path + '.away'
            os.rename(path, moved)
            ctx.fault('directory_missing')
        elif moved is not None:
            os.rename(moved, path)
            moved = None
        before = len(model.frames)
        if moved is not None:
            lost(rec, t, model, ctx)
            continue
        err = call(rec, t, model, disk, path, scratch, screen, ctx)
        torn = '%d.bmp' % before if err is not None else torn if before == len(model.frames) else None
        if not plan.get('long') or i % 200 == 0:
            compare(model, path, ctx, torn)
        ctx.log(i, t, len(model.frames), err is not None)
        ctx.steps += 1
    if moved is not None:
        os.rename(moved, path)
    compare(model, path, ctx, torn)
    ctx.sim_time += t
    ctx.nontrivial = bool(model.frames)
    ctx.state('direct', tuple(sorted(ctx.faults)), len(model.frames), len(plan['calls']))


def lost(rec, t, model, ctx):
    """A call while the directory is missing: a due frame must be reported as lost."""
    due = model.due(t)
    try:
        rec.record(t)
    except (OSError, pygame.error):
        if due is False:
            raise Violation('early', 'at t=%r frame %d is written, it is due at %r' % (t, len(model.frames), (len(model.frames) + 1) * model.dt))
        ctx.probe('failed_writes')
        return
    if due is True:
        raise Violation('unreported', 'frame %d was due at t=%r, the directory was missing, and nothing was reported' % (len(model.frames), t))


def world(plan, ctx, scratch):
    """A world recorded by the real-time loop, restarted after every failed write."""
    from lcp_physics.physics.utils import Recorder
    from lcp_physics.physics.world import run_world
    r = forked(lambda: twin(plan))
    if r[0] != 'ok':
        raise Truncated('world truncated') if r[1] == 'Truncated' else Violation('exception:' + r[1], 'the unrecorded run failed: ' + r[2])
    want = r[1]
    random.seed(plan['rs'])
    sim = Sim(plan, ctx)
    desk = gui.Desk(ctx, plan['clock'])
    desk.install()
    screen = desk.window(tuple(plan['size']))
    disk = Disk(ctx, plan['fails'])
    pygame.image.save = disk.save
    path = os.path.join(scratch, 'frames')
    rec = Recorder(plan['dt'], screen, path)
    model = Model(plan['dt'])
    st = Stepper(plan, ctx, sim)
    state = {'torn': None, 'calls': 0}
    record = rec.record

    def judged(t):
        state['calls'] += 1
        e = gui.frame_error(screen, plan['scene'], sim.poses(), plan['ppm'])
        if e:
            raise Violation('frame', 'after step %d: %s' % (st.n, e))
        if float(t) != sim.t:
            raise Violation('time', 'the recorder is told t=%r at t=%r' % (float(t), sim.t))
        before = len(model.frames)
        err = call(rec, t, model, disk, path, scratch, screen, ctx, fn=record)
        state['torn'] = '%d.bmp' % before if err is not None else state['torn'] if before == len(model.frames) else None
        compare(model, path, ctx, state['torn'])
        if err is not None:
            raise err
    rec.record = judged

    def step(*a, **k):
        if st.n >= len(want):
            raise Violation('end', 'the loop does not end')
        st(*a, **k)
        if hexed(snapshot(sim)) != want[st.n - 1][1]:
            raise Violation('motion', 'step %d of the recorded world differs from that of an unrecorded one' % st.n)
    sim.world.step = step
    end = want[-1][0]
    for _ in range(len(plan['fails']) + 1):
        try:
            run_world(sim.world, animation_dt=plan['adt'], run_time=end, print_time=False, screen=screen, recorder=rec, pixels_per_meter=plan['ppm'])
            break
        except (OSError, pygame.error) as e:
            if 'injected' not in str(e):
                raise
            ctx.probe('resumed')
    if any(e[0] == 'sleep' and e[1] > 0 for e in desk.log):
        raise Violation('sleep', 'the loop sleeps while recording')
    if st.n != len(want) or state['calls'] != st.n:
        raise Violation('calls', 'the world made %d of %d steps, the recorder was called %d times' % (st.n, len(want), state['calls']))
    compare(model, path, ctx, state['torn'])
    ctx.nontrivial = bool(model.frames)
    ctx.state('world', tuple(sorted(ctx.faults)), len(model.frames), st.n)


def twin(plan):
    random.seed(plan['rs'])
    ctx = Ctx(plan)
    sim = Sim(plan, ctx)
    st = Stepper(plan, ctx, sim)
    out = []
    for _ in range(plan['steps']):
        st()
        out.append((sim.t, hexed(snapshot(sim))))
    return out


def execute(plan, ctx):
    scratch = tempfile.mkdtemp(prefix='dsim-c15-', dir='/tmp')
    try:
        (direct if plan['how'] == 'direct' else world)(plan, ctx, scratch)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def generate(rng, tier):
    kinds = rng.sample(['full', 'torn', 'empty'], rng.choice([1, 2, 3]))
    fails = [{'n': n, 'k': rng.choice(kinds)} for n in sorted(rng.sample(range(1, 25), rng.choice([0, 1, 3, 8])))]
    dt = rng.choice([1 / 30, 1 / 60, 0.1, 0.25, 1.0, rng.uniform(0.01, 0.5)])
    if rng.random() < 0.7:
        n = rng.choice([5, 20, 60]) if tier == 'quick' else rng.choice([20, 100, 400])
        mode = rng.choice(['even', 'fast', 'slow', 'mixed', 'mixed'])
        calls = []
        for _ in range(n):
            d = {'even': dt, 'fast': dt * rng.choice([0.1, 0.5, 1 / 3]), 'slow': dt * rng.choice([1.5, 2.0, 3.7]),
                 'mixed': dt * rng.choice([0, 0.01, 0.5, 1, 1, 1, 2, 5])}[mode]
            c = {'d': d}
            calls.append(c)
        if rng.random() < 0.3:
            for i in rng.sample(range(n), min(n, 3)):
                calls[i]['lose'] = 1
        p = {'how': 'direct', 'dt': dt, 'calls': calls, 'fails': fails, 'paint': rng.randrange(10 ** 6), 'path': rng.choice([['a'], ['a', 'b', 'c']])}
        k = rng.choice(['exists', 'exists', 'race', 'default', 'new', 'new'])
        if k != 'new':
            p[k] = 1
        if k == 'exists':
            p['old'] = sorted(rng.sample(['0.bmp', '1.bmp', '3.bmp', '17.bmp', '400.bmp', 'notes.txt', '0.png', '00.bmp'], rng.choice([0, 1, 3, 5])))
        if rng.random() < 0.3:
            # binary fractions only
            p['exact'], p['dt'] = 1, rng.choice([0.25, 0.0625, 1.0, 2.0 ** -7])
            for c in calls:
                c['d'] = p['dt'] * rng.choice([0, 0.25, 0.5, 1, 1, 1, 1, 2, 5] if mode == 'mixed' else [1] if mode == 'even' else [0.5, 0.25] if mode == 'fast' else [1.5, 2, 3.75])
        if rng.random() < (0.02 if tier == 'quick' else 0.05):
            p['long'] = 1
            p['calls'] = [{'d': p['dt'] * 1.0001} if not p.get('exact') else {'d': p['dt']} for _ in range(1150)]
        return p
    ppm = rng.choice([1, 0.5])
    sc = S.gen_mixed(rng, eps=0.1, tol=1e-6, strict=True, post_stab=False, dt=rng.choice([1 / 30, 1 / 60, 0.1]), vmax=40, joints=0.3, n=rng.choice([1, 2]))
    sc = gui.shift(sc, rng.choice([250, 400]), rng.choice([150, 250]))
    n = rng.choice([4, 8, 12]) if tier == 'quick' else rng.choice([10, 30])
    return {'how': 'world', 'scene': sc, 'ops': gen_ops(rng, n, len(sc['bodies']), rej=0.2, kick=0.0), 'steps': n,
            'dt': sc['dt'] * rng.choice([1, 1, 0.5, 2, 0.25, 1.3]), 'fails': [f for f in fails if f['n'] <= n], 'clock': gui.gen_clock(rng),
            'ppm': ppm, 'size': [int(300 * ppm), int(200 * ppm)], 'adt': rng.choice([None, 0.5])}


def reduce(plan):
    for f in drop_each(plan['fails']):
        yield dict(plan, fails=f)
    if plan['how'] == 'direct':
        c = plan['calls']
        for k in sorted({1, 2, len(c) // 2, len(c) - 1}):
            if 0 < k < len(c):
                yield dict(plan, calls=c[:k])
        for cs in drop_each(c):
            if cs:
                yield dict(plan, calls=cs)
        for k in ('exists', 'race', 'default', 'old', 'long'):
            if plan.get(k):
                yield {a: b for a, b in plan.items() if a != k}
        return
    k = plan['steps']
    for m in sorted({1, k // 2, k - 1}):
        if 0 < m < k:
            yield dict(plan, steps=m)
    for p in reduce_plan(plan):
        yield p
