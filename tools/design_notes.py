"""Hand-written parts of DESIGN.md."""
INTRO = """# Model checking highway-env

highway-env is a sequential simulator: there are no threads, files or messages to reorder. What a user relies on ranges over
*action sequences, operation histories (seed, configure, reset, step, copy, render, close), random answers, road graphs,
relative placements and parameter values*. All checks explore such a space exhaustively, **on the real code** imported from /repo's
working tree, and judge every explored state against a reference model written independently from the documentation
(`vk/ref.py` and each `checks/cXX.py`), or against another run of the real code where the property is itself a comparison of runs
(determinism, independence of copies, rendering, reset).

There is no abstract model that could drift away from the code, hence no trace replay: every transition counted in the evidence is a
transition of the implementation, compared with its oracle. The last "model" left is the oracle; it is bound to the code by the comparison
itself, which happens on every transition of every run.

## Machinery

* `./check <id> <quick|thorough> [--replay F] [--jobs N]` runs a check (`vk/__main__.py`, `vk/core.py`).
  A check is split into tasks; each task runs in a freshly forked process (class attributes, global generators, pygame are not shared), with a
  time limit, over 8 processes. Tasks enumerate their space completely: a task that does not finish makes the check fail as inconclusive
  (exit 2), it never passes. Violations go to `evidence/replay/<id>.json`, which `--replay` re-runs.
* `vk/choice.py` (`explore`) turns random draws of the code under test into *choice points* and walks the whole tree of answers
  (stateless search with prefix replay). Used where a property must hold for every answer of the random source (next lane without a route, spawning,
  driver decisions at a threshold).
* `vk/freeze.py` gives a canonical value of any object graph (cycles, numpy arrays, generators, functions), used for state identity, to tell whether an
  operation changed the other environment, and for deduplication of explored states.
* `vk/hw.py`, `vk/envs.py` build roads, vehicles and light versions of the 12 registered environments through public constructors.
* `VERIF_SEED` shifts the seeds of the environments that are explored (the enumerated space is otherwise identical).
* No hooks in /repo are needed. No build: Python imports the working tree (`PYTHONDONTWRITEBYTECODE`, no cache).

Rules that keep the checks quiet on correct code: only public entry points and documented attributes are used; comparisons have tolerances and exact ties,
measure-zero boundaries and undocumented details (order of random draws, names of private helpers) are not judged; where the documentation leaves two answers
open both are accepted (listed under Assumptions).

Evidence (`evidence/<id>.json`): distinct states, transitions compared, traces (executions), distribution of outcomes and samples. A check whose outcomes are
trivial would show there: every check asserts or shows that both sides of its property occur (collision / none, yielding / not, available / unavailable...).

## Properties
"""

HOW = {
 "C01": """the reference is the same episode (seed, action sequence) run alone in the same process, compared by value (observation, reward, flag, info, positions of all bodies) after every step.
   Explored: histories of the same object, all interleavings with other environments, other answers of the global generators and of the clock, other configurations of the traffic, other
   hash seeds (separate processes).""",
 "C02": """a twin which was never copied gives the expected behaviour of both original and copy; the whole object graph of the other side is compared before and after every operation;
   a reference of each preprocessor says which vehicles and fields change.""",
 "C03": """an independent membership test (structure, shape, dtype and bounds of the declared space, NaN rejected) on every observation returned, for all observation types and options, with traffic placed
   adversarially (none, many, overlapping, far, fast, crashed).""",
 "C04": """a reference Kinematics observation: sorted candidates, relative coordinates, mapping, clipping, padding. Positions closer than the tolerance to a tie or to the perception limit are not judged.""",
 "C05": """a reference grid computed with floor arithmetic from the relative position and the configured ranges.""",
 "C06": """a reference prediction at constant speed and lane gives the cost grid, transitions, terminal states and rewards of the MDP; the observation is the window of that grid with padding 1.
   finite_mdp is not installed: a stub class of the same signature receives the arrays.""",
 "C07": """a reference of each environment's documented reward formula, evaluated on the state reached and the action; plus range checks along all action sequences.""",
 "C08": """a reference of each environment's ending condition, evaluated on the state reached, and of the info dictionary.""",
 "C09": """a reference clock (frames = simulation_frequency // policy_frequency), a reference configuration (defaults merged with the deltas given) and a fresh environment of this configuration, with
   which the environment is compared after every history followed by seed and reset.""",
 "C10": """a reference automaton (target lane, target speed index) for all meta-action sequences; the sets of available actions from the network and the range of speeds; the effect of
   unavailable actions is compared with IDLE on a copy.""",
 "C11": """a reference linear map with clipping; the command held is read at each frame of the step.""",
 "C12": """a reference Euler step of the bicycle model; clipping and crash rules; closest lane by brute force.""",
 "C13": """an independent separating axis test on the footprints decides overlaps; pairs whose separation is within 1e-3 of zero, and pairs overlapping only outside of a frame's end, are not judged. All orders of the road's list are tried.""",
 "C14": """closed forms of straight, sine and circular frames, finite differences for headings, arc lengths by quadrature, brute force for the closest lane.""",
 "C15": """breadth-first distances by Floyd-Warshall on every graph of the bounded family; reference next lane (route first, else any successor over all random answers) and connected lanes.""",
 "C16": """brute-force search over all placements.""",
 "C17": """the documented IDM formula and the linear features, and a monitor (no overlap, gap positive, speed non-negative, convergence) over all sequences of leader accelerations with state deduplication.""",
 "C18": """a reference decision (MOBIL) for every configuration of neighbours; thresholds within a margin accept both answers.""",
 "C19": """a monitor on every frame (steering within its limit, speed error monotone, lateral bounds) and the final state.""",
 "C20": """a reference conflict predictor (positions along the routes at constant speed) with an inner and an outer envelope, and a reference of who yields; monitored at every frame of episodes.""",
 "C21": """single-agent projections of the same environment, the observation seen by each vehicle when asked alone, means and flags recomputed from the state.""",
 "C22": """reference weighted p-norms and success; relabelling of all pairs of goals seen.""",
 "C23": """inclusion of exact results over all vertices and lattices of the intervals; for vehicles, simulations for every parameter vertex;
   worst-case collisions are compared with separating axes between the swept box and the other body, over all boxes, positions and headings of a lattice.""",
 "C24": """a never-rendered twin for every interleaving of rendering and simulation; a pixel oracle on pictures (rectangles of bodies, wheels, lane lines, background); a reference of the stack of frames.""",
 "C25": """key events are posted to pygame on SDL's dummy display; a twin without a window receives the expected commands directly at the same frames and must stay equal; the picture after view keys
   must be the one of an environment configured with the expected scaling and centering.""",
 "C26": """all lanes, junctions, entry-exit pairs and choices at junctions of all networks are enumerated and compared with a network rebuilt from the documentation (lane centres, widths, headings,
   lines, priorities, speed limits); vehicles are then driven with the real controllers along every planned route and every sequence of choices.""",
 "C27": """every random draw of a reset is answered by the explorer (extremes, middle, all indices): all answer sequences that deviate from a default in at most k draws, and all per-kind constant
   answers; the resulting scene is judged by the documented conditions.""",
 "C28": """a reference Euler step of Rajamani's equations (2.21)-(2.28) gives the next state; the linear models are compared with finite differences of the reference; lane-keeping episodes are compared
   with the reference driven by the same steering, with the answers of the noise chosen by the explorer.""",
 "C29": """each prediction is compared with the real vehicle, copied alone on a road, driven through the same actions; constant-speed predictions are compared with arc lengths integrated
   along the lanes of the route.""",
 "C30": """datasets over menus of features are enumerated; a direction which separates a parameter of the ellipsoid from the polytope is a violation; twins of traffic that record and do not must stay equal;
   the possible routes are compared at every frame with the planned one; models of regression vehicles are compared with the real parameters along separating directions.""",
 "C31": """the product of environments, action types and observation types is enumerated; each combination is played with all short sequences and all constant sequences; the motion of the
   ego-vehicle is compared with the bicycle model, or with a lone copy of the vehicle.""",
}

QUIRKS = """## Behaviour deliberately not judged

* Features without a configured range, or `heading` without one, may leave the bounds of a Kinematics space; `merge-v0`'s reward needs an MDPVehicle; parking and summon need goal observations (C03).
* Lane-keeping draws noise whenever `state` or `derivative` is read, does not count steps, and observes before simulating (C09 and C01 compare accordingly).
* The time-to-collision grid skips vehicles with exactly the observer's speed (C06). SummonEnv with more than 15 vehicles may fail to place them.
* Two-way rewards after the end of the road, stepping after the end of an episode, `get_lane` without an identifier on roads with several lanes, plain Vehicles on regulated roads.
* Traffic of intersections is cleared and spawned after the observation was taken (C21 judges the state, not the observation, for that).
* Rendering: borders of circular lanes are drawn up to a distance, a continuous line of a sine lane is a chord, the window keeps the size of its first rendering.
* `LPV.x_t`, the nominal trajectory, is a by-product and is not judged (C23).
* Worst-case collisions use the nearest position of the interval only: for bodies which are not along the axes this may overlook an overlap elsewhere in the interval, so C23 asks for it along the axes only.
* `IDMVehicle.maximum_speed` (recurses forever when given a front vehicle) and `recover_from_stop` are used by nothing and are not judged.
* Empty rows may lie between vehicles in a shuffled Kinematics observation; objects whose width is not their length would be drawn off-centre (there are none); agents beyond the fourth of an
  intersection would displace those which start from the same approach; the last step before the time limit of an intersection stops after one frame.
"""

MISSED = {"C01-linear-global-random", "C01-route-random-global", "C07-merge-lane-change", "C13-precheck-object", "C13-landmark-after-crash", "C17-gap-own-lane", "C20-priority-target", "C27-destination-zero", "C28-stale-linear", "C02-goal-landmark", "C03-grid-alias", "C04-shuffle-slice", "C05-range-not-feature", "C08-mean-agent", "C09-act-once-per-second", "C15-pop-route-always", "C20-limit-of-target", "C24-rear-wheels", "C24-heading-threshold", "C09-no-early-stop", "C24-trail-spacing", "C18-last-lane-of-route", "C06-state-of-target-lane", "C19-right-angle", "C23-worst-case-precheck", "C23-worst-case-traffic", "C27-summon-goal-across", "C02-copy-on-film"}
