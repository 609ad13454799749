"""Regenerates properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], **({'observe_at': observe} if observe else {}),
                          **({'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]} if state else {}), 'hook_needed': None}})


W, B, C, K, E, F = ['lcp_physics/physics/%s.py' % n for n in ('world', 'bodies', 'constraints', 'contacts', 'engines', 'forces')]
L, D = 'lcp_physics/lcp/lcp.py', 'lcp_physics/lcp/solvers/pdipm.py'
TESTS = 'The existing tests that pass reliably build single bodies; the demo tests run a handful of scenes and assert nothing about the motion.'

p('C01', 'Strict worlds never let bodies interpenetrate',
  'In a world with strict non-penetration (the default), after every completed step every pair of bodies that may touch overlaps by no more than the '
  "world's tolerance, whatever happened before and however the step came about (fixed or free length, corrections on or off). "
  'A strict world refuses to be created from bodies that already overlap by more than the tolerance.',
  ['inputs', 'histories', 'configurations', 'fault_sequences'],
  'all scenes of circles, rectangles and convex hulls; all step sequences; all orders in which candidate pairs are reported; all refused sub-steps and solver breakdowns',
  'Overlap only appears for particular shapes, speeds and step histories. ' + TESTS,
  [W, K, B], [('step halving', 'World.step_dt'), ('start assertion', 'World.__init__'), ('narrow phase', 'DiffContactHandler.__call__')],
  ['poses of the bodies after World.step'])
p('C02', 'A step moves bodies by exactly its velocities; rejected attempts leave no trace',
  'After a step each body has moved from where it was by exactly the velocity the step computed times the time the step took (summed over its sub-steps), it carries that velocity, '
  'and its outline and every joint anchored on it moved with it rigidly. Attempts that were given up because they would have penetrated leave no trace in any pose, outline, joint or velocity.',
  ['inputs', 'histories', 'fault_sequences'],
  'all scenes and step sequences, any number of rejected attempts at any step',
  'Needs histories with rejected attempts in between; ' + TESTS,
  [W, B, C], [('reset to the start of the step', 'World.step_dt'), ('move/set_p', 'bodies.Body'), ('update_pos', 'constraints')],
  ['Body.p', 'Body.v', 'Body.verts', 'joint positions'])
p('C03', 'The clock advances by the time simulated, and only as cautiously as needed',
  'A plain step advances the clock by a positive amount no larger than the world step, a fixed step by exactly the world step, and nothing else moves the clock. '
  'A step is only shortened when the full motion would have penetrated beyond the tolerance, a non-strict step is never shortened below an eighth of the world step and lets bodies overlap only when it is shorter than a quarter of it, and no operation runs forever.',
  ['inputs', 'histories', 'fault_sequences'],
  'all scenes, step lengths and sequences, including refused sub-steps and solver breakdowns',
  'Depends on the collision history; a hang or a slow clock only shows in long or unlucky histories.',
  [W], [('halving loop', 'World.step_dt'), ('fixed-dt loop', 'World.step')], ['World.t'])
p('C04', 'External forces act at the right time, for the right time, on the right body',
  'Every external force is evaluated at the time its sub-step starts, and a body that touches nothing changes its velocity in each sub-step by exactly force times sub-step length over mass (torque over inertia), '
  'gravity being the mass times the given acceleration downwards. How a step is split up or retried does not change the impulse per simulated second.',
  ['inputs', 'histories', 'fault_sequences'],
  'all bodies, force functions of time, multipliers, step lengths, and all ways steps are split or retried',
  'Wrong impulses only show when steps are shortened or forces switch during a run; ' + TESTS,
  [F, B, E, W], [('apply_forces', 'bodies.Body / World'), ('impulse in the velocity equation', 'PdipmEngine.solve_dynamics')], ['Body.v'])
p('C05', 'Contacts are found exactly, whatever the order, the history and the dice',
  'For every arrangement of two bodies contacts are reported whenever they overlap or (for smooth contact) are within the contact distance, never for pairs further apart or excluded from contact; '
  'each has a unit normal pointing from the second body to the first along the direction of least overlap, a depth equal to the separation, and one common point on the two surfaces. '
  'The result does not depend on the order in which pairs are delivered, on random choices, or on earlier searches.',
  ['inputs', 'histories', 'schedules'],
  'all convex shapes, poses and placements (tangent, corner, parallel, deep), all pair orders, all random choices, all leftover search state',
  'The tests have no oracle for contacts and use one arrangement each; degenerate placements have measure zero under ordinary sampling.',
  [K, W, B], [('GJK / SAT / clipping', 'DiffContactHandler'), ('broad phase', 'World.find_contacts')], ['World.contacts'],
  [('last_sat_idx', 'cached separating edge of a hull', B)])
p('C06', 'Bodies stay rigid and their collision volumes follow them',
  'At all times a body keeps its size, shape and mass, its outline is its initial outline turned by its angle about its centre of mass, and its position, angle and pose agree. '
  'Its collision volume is centred on it, encloses every point within half the contact distance of its outline, and its mass matrix is the one of a uniform body of that shape and mass.',
  ['inputs', 'histories'],
  'all bodies, motions, teleports and retried steps',
  'Drift and stale collision volumes need long histories with rejected moves.',
  [B, W], [('set_p / move_geom / rotate_verts', B), ('inertia', B)], ['Body.verts', 'Body.geom', 'Body.M'])
p('C07', 'Joints and constraints hold throughout the motion',
  'Coordinates fixed by a constraint never change; the two sides of a joint always move with the same velocity at the joint, and a rigid joint also with the same angular velocity. '
  'A joint drifts apart by no more than the second-order error of the rotation in each step, and this holds whatever impacts, forces and retried steps occur.',
  ['inputs', 'histories', 'fault_sequences'],
  'all scenes with independent constraints (pins, hinges, rigid joints, fixed coordinates, chains), all step sequences',
  TESTS, [C, W, E], [('constraint Jacobians', C), ('Je', 'World.Je'), ('equality rows of the solve', 'PdipmEngine.solve_dynamics')], ['Body.p', 'Body.v', 'joint positions'])
p('C08', 'Contacts respond by restitution and Coulomb friction, and only by pushing',
  'In every solved sub-step each contact separates at least as fast as the mean restitution of its bodies times the approach speed demands, contact impulses only push and only at contacts that just meet this, '
  'and friction stays within the mean friction coefficient times the normal impulse and opposes sliding. Together with forces and joints these impulses account for the whole change of velocity.',
  ['inputs', 'histories', 'fault_sequences'],
  'all contact configurations reached by running scenes (with a solution), all materials, masses, speeds, forces',
  'The solver is iterative and only fails on particular configurations; no existing test looks at a response.',
  [E, L, D, W], [('LCP assembly', 'PdipmEngine.solve_dynamics, World.Jc/Jf/E/mu/restitutions'), ('interior point solver', D)], ['Body.v', 'World.contacts'])
p('C09', 'Momentum is conserved, and impacts never create energy',
  'Bodies that are not held by the world change their joint linear and angular momentum only by their external forces, in every sub-step. '
  'Without forces the kinetic energy never grows when friction is absent and all bodies share one restitution (and is kept exactly for restitution 1), nor when restitution is absent.',
  ['inputs', 'histories', 'fault_sequences'],
  'all scenes, histories, groupings by contacts and joints, retried steps',
  TESTS, [E, W, D, B], [('opposite impulses at one point', 'World.Jc, World.Jf, constraints J'), ('mass matrix', B)], ['Body.v', 'Body.p'])
p('C10', 'Worlds are independent, and runs repeat exactly',
  'A world evolves exactly the same alone as when other worlds are created, stepped (also from other threads), differentiated, or abandoned halfway at arbitrary points in between. '
  'Building and stepping a world again from the same description and random seed gives bit-identical motion, and running worlds changes none of the parameters or shared constants they were given.',
  ['schedules', 'crash_points', 'histories'],
  'all interleavings of two to three worlds at line granularity, all points at which one of them is interrupted',
  'Sharing shows only under particular interleavings; the tests run one world at a time.',
  [W, E, L, D, B, F, C], [('per-world engine', 'World.__init__'), ('per-call solver state', 'LCPFunction'), ('factorisation workspace', 'pdipm.factor_kkt')], ['poses and velocities of each world'])
p('C11', 'A step that fails while computing velocities leaves the world as it was',
  'When the velocity computation of a step fails or is interrupted (a force function raises, a factorisation breaks down, memory runs out, the user interrupts), in whichever attempt of the step, the error reaches the caller '
  'and poses, outlines, velocities, joints, contacts and clock are those from before the step (before the failing sub-step of a fixed-length step). '
  'An interrupt or an error of a force function is never swallowed. Trying again once the cause is gone gives the same motion as if nothing had happened.',
  ['fault_sequences', 'histories', 'crash_points'],
  'all scenes and histories; a failure at any force evaluation, factorisation or line of the velocity computation, of any attempt, repeated any number of times',
  'No test makes a step fail.',
  [W, E, B, D], [('velocities are computed before anything moves', 'World.step_dt'), ('what a solver breakdown absorbs', 'pdipm.forward')], ['the world after the exception'])
p('C12', 'A solver breakdown costs accuracy, not integrity',
  'If a factorisation breaks down in the middle of a contact solve, the solver returns what it would have returned with the iterations it had completed (its starting point if it had completed none), always finite, and a solver allowed more iterations never returns a '
  'worse solution. The world keeps working afterwards as if the breakdown had not touched it.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'all contact problems met by running scenes, breakdown at every iteration',
  'Breakdowns of a factorisation cannot be provoked by the scenes of the tests.',
  [D, L], [('best iterate', 'pdipm.forward')], ['returned velocities and multipliers'])
p('C13', 'Gradients match the motion, whenever and however often they are taken',
  'The derivative of a simulated outcome with respect to masses, friction, restitution, sizes, initial velocities or forces equals the finite-difference derivative wherever the outcome is smooth along the simulated path (the same contacts between the same features, a unique response). '
  'Taking it repeatedly, late, interleaved with other simulations or from another thread gives the same numbers.',
  ['inputs', 'histories', 'schedules'],
  'all scenes (free, jointed, in contact with and without friction), parameters and outcomes; all orders of forward and backward passes',
  'The gradient tests only check that an optimisation loop runs.',
  [L, D, E, W, B, K], [('implicit differentiation', 'LCPFunction.backward'), ('per-call solver copy', '_LCPApply')], ['Tensor.grad'])
p('C14', 'Running a world in real time neither changes nor outlives the simulation',
  'The motion of a world run by the real-time loop is the same with and without display, whatever the wall clock does. The loop ends at the first step that reaches the requested time or when the window is closed, '
  'with a display it waits, when it is ahead of the clock, until the clock has caught up with the simulated time and no longer, and shows a frame whenever the frame interval has passed; it never sleeps a negative time or when recording, and drawing leaves the world untouched.',
  ['schedules', 'configurations', 'fault_sequences'],
  'all clocks (stalls, jumps, slow drawing), event sequences, run times, frame rates and scenes',
  'Depends on the clock and on window events, which the tests neither control nor look at.',
  [W, 'lcp_physics/physics/utils.py', B], [('main loop', 'world.run_world'), ('draw', B)], ['World.t', 'sleep calls', 'frames drawn'])
p('C15', 'Recordings are gapless, evenly timed and survive disk errors',
  'A recording consists of frames numbered from zero without gaps, one for each frame interval of simulated time (late ones catching up one per call), each showing the screen at that moment. '
  'A failed write is reported, and the frame is written under the same number at the next opportunity.',
  ['fault_sequences', 'histories', 'schedules'],
  'all frame intervals, call times and sequences of disk errors (full, torn, missing directory)',
  'No test records anything.',
  ['lcp_physics/physics/utils.py', W], [('record', 'utils.Recorder')], ['files written'])
p('C16', 'Position correction moves bodies only, and only for the better',
  'With position correction on, a step leaves the velocities and the clock as it would without, and in a strict world it never causes overlap. '
  'It reduces the error that accumulates in joints instead of adding to it: each correction removes half of the violation by the smallest motion (weighted by mass) that does so, and has no effect where no constraint or contact is violated.',
  ['inputs', 'histories', 'configurations', 'fault_sequences'],
  'all scenes with joints and contacts, step sequences, retried steps',
  'No test enables it with an assertion.',
  [W, E], [('post stabilisation', 'World.step_dt, PdipmEngine.post_stabilization')], ['Body.p', 'Body.v', 'World.t'])
p('C17', 'The breakout experiment plays by the rules of the game it models',
  'The world built from a frame has walls, blocks, paddle and ball exactly where the game has them, at rest except for the ball. Walls and blocks never move. Every control step lasts exactly one control interval, starts with the paddle at '
  'the commanded velocity and nothing else changed, and the ball only changes its velocity by touching something, keeping its speed unless that is the paddle. Predictions are repeatable functions of state and control, with the right derivative. '
  'The display loop makes exactly the control steps that the run time asks for (or until the window is closed), one action each and then the default action, whatever is displayed. '
  'The player measures the ball velocity from successive frames, plans and takes one action per frame, restarts after each lost ball, starts the requested number of episodes, and reports the average of all rewards it was paid; '
  'an interrupt ends one episode, an error of the emulator is not swallowed, and rendering changes nothing. The gradient used to learn the paddle velocity is that of the observed motion.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'all layouts, action sequences, clocks and window events, environment answers and endings',
  'The experiments have no tests that run here (their dependencies are missing).',
  ['experiments/breakout/encoder.py', 'experiments/breakout/run_breakout.py', 'experiments/breakout/learn_params.py'],
  [('make_world / step_breakout / run_breakout', 'experiments/breakout/encoder.py'), ('simulate_breakout / mpc / get_action / run_breakout', 'experiments/breakout/run_breakout.py'),
   ('infer_params', 'experiments/breakout/learn_params.py')], ['world state per control step', 'actions sent to the environment'])
p('C18', 'Problems of a batch are solved independently',
  'Solving several contact problems in one batch gives for each the solution it has on its own, regardless of its neighbours.',
  ['inputs'], 'all batches of problems of equal size', 'No test solves more than one problem at once.',
  [D, L], [('batched linear algebra', D)], ['solutions'])
p('C19', 'Game frames are read into the parameters that produced them',
  'Reading a frame of the game recovers exactly the paddle, every run of blocks and the ball that the frame shows (a missing ball as one far below the field), in every unambiguous frame of every game: paddle at the stops, '
  'blocks knocked out, ball anywhere or partly out of sight, frames read again or out of order. Reading leaves the frame as it was, and packing the parameters into a state vector and back loses nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'all frames in which the ball does not touch the paddle beside it, a block, or cover the first line of the red row (one colour)',
  'No test reads a frame.',
  ['experiments/breakout/encoder.py', 'experiments/breakout/run_breakout.py'], [('extract_params', 'experiments/breakout/encoder.py'), ('to_vector / from_vector', 'experiments/breakout/run_breakout.py')], ['parameters'])
p('C20', 'The learning programs learn from the motion they simulate',
  'The mass inference experiment and the gradient demo build the same described scene in every iteration with only the learned quantity changed, record every step (with or without a display), and measure the loss on what was '
  'simulated over the time that both recordings cover. They change the learned quantity by the rule of their optimiser along the derivative of that loss, stop by their own rule and report the values that belong together, '
  'whatever the first guess, the order in which contacts are found, the display or the clock; an interrupt ends them.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'all first guesses and true values, chain lengths, steps and run lengths, contact orders, clocks and window events',
  'The experiments have no tests; whether they learn depends on every iteration of a long run.',
  ['experiments/inference.py', 'demos/grad_demo.py'], [('main / make_world / positions_run_world', 'experiments/inference.py'), ('grad_demo', 'demos/grad_demo.py')], ['printed report', 'recorded positions', 'estimates per iteration'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
