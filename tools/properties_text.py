TESTS = "The 44 existing tests solve about sixteen fixed QPs in total and inject no failure; "
P("P01", "Kinematics steps respect limits and masks, and state follows the step",
  "Whenever the kinematics solver returns a step, the joints it moves end inside their position limits and move no more than "
  "their velocity limit times dt (each when enabled), masked joints and a masked floating base do not move, and this holds "
  "whatever tasks, priorities and constraints are installed. A solve that applies moves the configuration by exactly the "
  "returned step and, when dt is set, the velocity and acceleration are the finite differences of the applied motion; a solve "
  "that does not apply leaves the state untouched.",
  ["histories", "inputs", "fault_sequences"],
  "every history of task, constraint, mask, limit, dt and robot-state edits interleaved with solves, some of which fail",
  TESTS + "limits are only exercised at rest, never through a history of edits and failures.",
  [K + "kinematics_solver.cpp", K + "kinematics_solver.h", "src/placo/problem/problem.cpp"],
  [("limit inequalities and mask equalities rebuilt at each solve", K + "kinematics_solver.cpp: compute_limits_inequalities, solve")],
  note="Seeded histories on three robots (humanoid, quadruped, mobile arm); every successful solve is checked against the limits. "
       "Tolerance 2e-3 (Problem::solve promises 1e-3).")
P("P02", "Kinematics step is the optimum of the current tasks, whatever the history",
  "The step the kinematics solver returns satisfies the hard tasks and hard constraints installed at that moment, linearised at the "
  "current configuration, and minimises the weighted squared errors of the soft ones (scaled tasks share one factor in [0,1] as close "
  "to 1 as possible). It depends only on the current configuration, targets, priorities, weights, masks and limits, never on how the "
  "solver came to that state, and when standing still satisfies all the hard requirements the solve succeeds.",
  ["histories", "inputs", "configurations"],
  "every history of adding, removing, re-targeting, re-weighting and re-prioritising tasks and constraints, and every robot state",
  TESTS + "they check targets reached by a few fixed task sets, not what each step optimises, and never compare with a fresh solver.",
  [K + "kinematics_solver.cpp", K + "position_task.cpp", K + "orientation_task.cpp", K + "relative_position_task.cpp",
   K + "relative_orientation_task.cpp", K + "com_task.cpp", K + "distance_task.cpp", K + "axis_align_task.cpp", K + "joints_task.cpp",
   K + "gear_task.cpp", K + "wheel_task.cpp", K + "regularization_task.cpp", K + "manipulability_task.cpp",
   K + "kinetic_energy_regularization_task.cpp", K + "centroidal_momentum_task.cpp", "src/placo/tools/axises_mask.cpp"],
  [("each task recomputes its A and b from the robot's state", K + "*_task.cpp: update"),
   ("constraints are cleared and rebuilt at each solve", K + "kinematics_solver.cpp: solve")],
  note="Every successful solve of a seeded history is judged by a KKT certificate against the harness' own linearisation of each task "
       "(recomputed from pinocchio) and compared with a fresh solver given the same description.")
P("P03", "A failed kinematics solve changes nothing and the solver recovers",
  "When the kinematics solver reports a failure (infeasible or numerically broken QP, missing dt, ill-formed constraint, failure inside "
  "the QP solver), the robot's configuration, velocity and acceleration are exactly what they were and the solver's tasks are unchanged. "
  "A failing QP is always reported, never returned as a success, and the next solve behaves like that of a fresh solver with the same tasks.",
  ["fault_sequences", "histories"],
  "every sequence of failing and succeeding solves in every solver state",
  TESTS + "no test makes a kinematics solve fail.",
  [K + "kinematics_solver.cpp", "src/placo/problem/problem.cpp"],
  [("the state is only written after problem.solve() returned", K + "kinematics_solver.cpp: solve")],
  note="QP failures are injected behind eiquadprog's entry point (infeasible, garbage, NaN, throwing), and user errors are injected at the API.")
P("P04", "Closed-loop kinematics converges to reachable targets once faults stop",
  "Repeated solve, apply and model update brings the error of every task to zero within a bounded number of steps when the targets are "
  "jointly reachable near the current configuration and no limit stands in the way. Earlier failures, teleports, re-targeting, and tasks "
  "added or removed before that do not prevent it.",
  ["histories", "fault_sequences", "inputs"],
  "every set of compatible tasks, start configuration and prelude of faults; convergence within 60 steps when plain Gauss-Newton needs at most 15",
  TESTS + "a few fixed targets are checked, from one initial pose, without faults.",
  [K + "kinematics_solver.cpp", K + "position_task.cpp", K + "orientation_task.cpp", K + "frame_task.cpp", K + "com_task.cpp", K + "axis_align_task.cpp"],
  [("each tick linearises at the current configuration", K + "kinematics_solver.cpp: solve")],
  note="Bounded liveness: the reference (the harness' Gauss-Newton on its own linearisation) decides which cases are judged.")
P("P05", "Hard geometric constraints hold along the motion and never interfere when slack",
  "After each successful solve and application, every hard CoM-polygon (or DCM), cone, yaw, distance, joint half-space and "
  "self-collision constraint is satisfied by the new configuration, up to the second-order effect of the step, including when something "
  "else had pushed the robot out of it. Constraints satisfied with a margin do not alter the motion.",
  ["histories", "fault_sequences", "inputs"],
  "every closed-loop run with moving targets, external pushes, failing solves, and constraints added and removed on the way",
  TESTS + "each constraint is at most checked at the end of one motion.",
  [K + "com_polygon_constraint.cpp", K + "cone_constraint.cpp", K + "yaw_constraint.cpp", K + "distance_constraint.cpp",
   K + "joint_space_half_spaces_constraint.cpp", K + "avoid_self_collisions_constraint.cpp", "src/placo/problem/polygon_constraint.cpp"],
  [("each constraint is linearised at the current configuration at every solve", K + "*_constraint.cpp: add_constraint")],
  note="The margins are evaluated by the harness on the real (nonlinear) geometry; the second-order remainder is measured, not assumed.")
D = "src/placo/dynamics/"
P("P06", "Dynamics results obey the equation of motion and the actuator limits",
  "Whenever the dynamics solver reports success, the accelerations, torques and contact torques it returns satisfy the robot's equation of "
  "motion (inertia with rotors, bias or gravity-only terms, damping, extra force, active contacts), an unmasked floating base has no torque and a masked one "
  "no acceleration, and every enabled torque, velocity, velocity-versus-torque and joint-position (braking) limit holds. With integration, "
  "the state becomes exactly the previous one integrated with the returned acceleration; without it, the state is untouched.",
  ["histories", "inputs", "fault_sequences"],
  "every history of tasks, contacts, limits, options, pushes, teleports and failing solves",
  TESTS + "the dynamics tests solve a few problems at rest and never with limits, damping, extra forces or failures.",
  [D + "dynamics_solver.cpp", D + "dynamics_solver.h", D + "contacts.cpp", "src/placo/model/robot_wrapper.cpp"],
  [("tau is an expression of qdd and the contact forces", D + "dynamics_solver.cpp: solve"), ("limits", D + "dynamics_solver.cpp: compute_limits_inequalities")],
  note="The mass matrix and the bias are recomputed by the harness with the recursive Newton-Euler algorithm on its own model data.")
P("P07", "Contact forces are physically admissible",
  "In every successful dynamics solve, the force of each active unilateral contact pushes, stays in its friction pyramid in the contact's "
  "surface frame, and keeps the center of pressure of planar and line contacts in their surface; external wrenches are exactly the given "
  "ones, and inactive or removed contacts exert nothing. The reported wrenches and centers of pressure are those that enter the equation of motion, and the contact force, tangential and moment "
  "weights penalise the quantities they name.",
  ["histories", "inputs", "configurations"],
  "every set of contacts, parameters and surface orientations, switched, edited and removed while the solver runs",
  TESTS + "contacts are only tested on one static posture.",
  [D + "contacts.cpp", D + "contacts.h", D + "dynamics_solver.cpp"],
  [("contact constraints on the wrench variables", D + "contacts.cpp: add_constraints")],
  note="Friction, center of pressure and unilaterality are evaluated on the returned wrenches; the objective by a KKT certificate.")
P("P08", "A failed dynamics solve is reported, changes nothing and is recovered from",
  "When a dynamics QP is infeasible or numerically broken, solve() returns success = false, and misuses (no dt, scaled task, masked point contact, planar "
  "contact without size) raise; in all cases the robot's state is exactly what it was. A well-formed problem never raises, the next solve behaves like that of "
  "a fresh solver with the same tasks and contacts, and a problem with nothing hard in it is never refused.",
  ["fault_sequences", "histories"],
  "every sequence of failing and succeeding solves, in every solver state",
  TESTS + "no test makes a dynamics solve fail.",
  [D + "dynamics_solver.cpp", "src/placo/problem/problem.cpp"],
  [("QPError caught, state written after success only", D + "dynamics_solver.cpp: solve")],
  note="QP failures are injected behind eiquadprog's entry point, misuses at the API.")
P("P09", "Dynamics solution is the optimum of the current tasks, whatever the history",
  "A successful dynamics solve makes every hard task's acceleration equal to its PD law (position, velocity and feed-forward targets, in the documented frame), and "
  "minimises the weighted squared errors of the soft ones plus the torque cost. The result depends only on the robot's state and on the "
  "tasks, gains, contacts, limits and options installed at that moment.",
  ["histories", "inputs", "configurations"],
  "every history of adding, removing, re-targeting, re-weighting and re-prioritising tasks, at every robot configuration and velocity",
  TESTS + "task accelerations are never checked on a moving robot.",
  [D + "dynamics_solver.cpp", D + "position_task.cpp", D + "orientation_task.cpp", D + "relative_position_task.cpp", D + "com_task.cpp",
   D + "joints_task.cpp", D + "torque_task.cpp", D + "gear_task.cpp", D + "task.cpp"],
  [("each task recomputes A and b from the state", D + "*_task.cpp: update")],
  note="KKT certificate against the harness' own task accelerations (from pinocchio's accelerations at null qdd), and comparison with a fresh solver. "
       "Relative orientation tasks are only judged by P10: their law is not an exact PD law far from the target.")
P("P10", "Closed-loop dynamics converges to reachable targets once faults stop",
  "Repeated solve with integration and model update brings every task's error to zero and the robot to rest within the time its gains "
  "announce, when the targets are jointly reachable near the current posture. Earlier failed solves, pushes, task churn, contact "
  "switching and gain changes do not prevent it.",
  ["histories", "fault_sequences", "inputs"],
  "every compatible task set and prelude of faults; within 14 time constants of the slowest task",
  TESTS + "no test closes the loop of the dynamics solver.",
  [D + "dynamics_solver.cpp", D + "task.cpp", D + "position_task.cpp", D + "orientation_task.cpp", D + "relative_orientation_task.cpp", D + "joints_task.cpp"],
  [("PD law of each task", D + "*_task.cpp: update"), ("semi-implicit integration", "src/placo/model/robot_wrapper.cpp: integrate")],
  note="Bounded liveness, on a masked base and on a humanoid standing on fixed contacts.")
P("P28", "Dynamics self-collision avoidance brakes in time and pushes bodies apart",
  "With a hard avoidance constraint, after every solved step the monitored pairs closer than the trigger approach no faster than the safe "
  "joint decelerations can stop before the margin, pairs inside the margin get a separating acceleration, and a motion that started apart "
  "does not run through the margin. The accelerations stay the optimum of the tasks under that law, pairs beyond the trigger (or a removed "
  "constraint) change nothing, a soft avoidance never brings bodies closer than none, and failed solves move nothing.",
  ["histories", "fault_sequences", "inputs"],
  "every posture, velocity, margin, trigger, priority and edit history; spheres as bodies",
  TESTS + "no test uses the avoidance constraint of the dynamics solver.",
  [D + "avoid_self_collisions_constraint.cpp", D + "dynamics_solver.cpp", "src/placo/model/robot_wrapper.cpp"],
  [("avoidance rows", D + "avoid_self_collisions_constraint.cpp: add_constraint"), ("distances", "src/placo/model/robot_wrapper.cpp: distances")],
  note="Inside the margin the code leaves the curvature of the motion out, so the depth reached there is not judged.")
H = "src/placo/humanoid/"
P("P11", "Solvers free what they own, once, and never what the user owns",
  "Tasks, constraints and contacts a kinematics or dynamics solver creates live until they are removed, the solver is cleared or destroyed, and are then freed exactly once; those "
  "the user created and added are never freed or altered by removal, clear, destruction or a failing solve, and can be added again elsewhere. Variables and constraints of a problem "
  "live until they are cleared or the problem is destroyed, removing walk tasks leaves the solver as it was, and removing one object takes out that object and no other. Running any history of these operations again leaves no memory behind.",
  ["histories", "fault_sequences"],
  "every history of additions, removals, clears, destructions and solves, some of which fail",
  TESTS + "objects are created and leave with the process.",
  [K + "kinematics_solver.cpp", K + "kinematics_solver.h", "src/placo/dynamics/dynamics_solver.cpp", "src/placo/dynamics/dynamics_solver.h",
   "src/placo/problem/problem.cpp", H + "walk_tasks.cpp", "src/placo/tools/prioritized.h"],
  [("ownership flag", K + "kinematics_solver.cpp, src/placo/dynamics/dynamics_solver.cpp: remove_task, remove_constraint, remove_contact, clear"),
   ("problem", "src/placo/problem/problem.cpp: clear_constraints, clear_variables, ~Problem")],
  note="The allocator seam knows every live block; each history is run three times and the last run must leave no block.")
P("P12", "A walk plan is a feasible, continuous walk over its footsteps",
  "Every trajectory plan() returns starts from the given CoM state, follows the given supports with the configured timings, keeps the ZMP inside each "
  "support polygon by the margin, ends at rest on the last support, and its CoM motion is the one that tracks the reference ZMP best. The CoM, feet, "
  "trunk, DCM and ZMP it answers are continuous and consistent with each other, support feet stay on their footsteps, and the swing foot goes "
  "from its footstep to the next one at the configured height without residual velocity.",
  ["histories", "inputs", "fault_sequences"],
  "every parameter set, footstep sequence, initial CoM state and history of plans, replans and failures",
  TESTS + "walk plans are only checked on a couple of fixed footstep sequences.",
  [H + "walk_pattern_generator.cpp", H + "lipm.cpp", H + "swing_foot_cubic.cpp", H + "swing_foot.cpp", H + "footsteps_planner.cpp", H + "kick.cpp",
   H + "humanoid_parameters.cpp", "src/placo/tools/cubic_spline.cpp", "src/placo/tools/cubic_spline_3d.cpp"],
  [("CoM jerk QP", H + "walk_pattern_generator.cpp: plan_com, constrain_lipm"), ("feet splines", H + "walk_pattern_generator.cpp: plan_feet_trajectories")],
  note="Plans over seeded parameters and footsteps; CoM judged by integrating the jerks independently and by a KKT certificate of the reference QP.")
P("P13", "Replanning a walk in motion never makes the robot jump",
  "Replanning at any time during a step, with any new command, keeps the support foot, the landing place and time of the current step, and "
  "the CoM, feet and trunk positions and velocities are those of the old trajectory at the replan time. The old trajectory is unchanged, and when the QP "
  "fails the result reports it and is the rest of the old trajectory; replanning is refused exactly in double support and before the last step.",
  ["histories", "fault_sequences", "schedules"],
  "every replan time in every support of every plan, including chains of replans, adaptations and failing QPs",
  TESTS + "no test replans a walk during a step nor makes a replan fail.",
  [H + "walk_pattern_generator.cpp", H + "swing_foot_cubic.cpp", H + "lipm.cpp"],
  [("replan", H + "walk_pattern_generator.cpp: replan, replan_supports, can_replan_supports, trim_old_trajectory")],
  note="A walking loop in simulated time replans at seeded instants; QP failures injected; the state on both sides of the switch is compared.")
P("P14", "A walk trajectory answers queries consistently and without side effects",
  "Asking a walk trajectory anything, in any order and at any time, never changes its answers; supports, next and previous supports, part times, sides, "
  "flying feet, and the CoM and DCM seen from the support foot agree with the supports it was planned from and with its world-frame answers. "
  "Applying a rigid transform to a trajectory (odometry correction) moves every answer, footstep, support polygon and target DCM by exactly that transform.",
  ["histories", "inputs", "schedules"],
  "every sequence of queries and odometry corrections interleaved with plans, replans and adaptations",
  TESTS + "queries are made once, in time order, on fresh trajectories.",
  [H + "walk_pattern_generator.cpp", H + "footsteps_planner.cpp"],
  [("queries", H + "walk_pattern_generator.cpp: Trajectory::get_*"), ("odometry", H + "walk_pattern_generator.cpp: Trajectory::apply_transform")],
  note="A snapshot of all answers at seeded times is compared before and after random sequences of queries and corrections.")
P("P15", "Footstep planners honour the command, the limits and the target",
  "Planned footsteps start from the current feet, alternate sides, keep every step within the walk limits (elliptic norm, feet not overlapping), stay flat, and are the "
  "same when planned again. The repetitive planner makes exactly the asked number of clipped command steps and then returns to the neutral spacing; the naive "
  "planner reaches its targets unless its step budget runs out; make_supports gives the documented alternation of supports.",
  ["inputs", "histories"],
  "every command, parameter set, feet placement and replan in the middle of a step",
  TESTS + "two fixed commands are tested.",
  [H + "footsteps_planner.cpp", H + "footsteps_planner_naive.cpp", H + "footsteps_planner_repetitive.cpp", H + "humanoid_parameters.cpp"],
  [("planners", H + "footsteps_planner*.cpp: plan_impl"), ("supports", H + "footsteps_planner.cpp: make_supports"), ("limits", H + "humanoid_parameters.cpp: ellipsoid_clip")],
  note="Each planned step is recomputed from the command by the harness and compared.")
P("P25", "Adapting a step to a push is optimal, reachable and consistent",
  "update_supports() returns supports whose landing place stays in the foot's operational space and whose remaining duration is positive and within bounds, and "
  "they minimise the documented cost of bringing the measured DCM to the next support. Nothing else changes: other footsteps stay, the moved foot is moved "
  "in every support that holds it, cached polygons follow, and a failing QP is reported without touching the given supports.",
  ["fault_sequences", "histories", "inputs"],
  "every push (measured DCM), instant of a step, side, parameter set and failing QP",
  TESTS + "no test calls update_supports().",
  [H + "walk_pattern_generator.cpp", H + "lipm.cpp", H + "footsteps_planner.cpp"],
  [("step adaptation QP", H + "walk_pattern_generator.cpp: update_supports")],
  note="Pushes are injected at seeded instants of a simulated walk; the result is judged by a KKT certificate of the documented QP.")
P("P16", "The humanoid stays on its support through any sequence of updates",
  "The support pose is always flat on the floor where the new support foot stood when it became the support, re-announcing the same support changes nothing, and placing "
  "the robot on the floor puts the support frame exactly there without moving a joint. Orientation updates give the trunk exactly the measured orientation while the support "
  "position stays, whatever sensor faults (spikes, stale or repeated readings, flapping supports) came before. The CoM velocity, torques, DCM, ZMP, camera and frame "
  "queries agree with the robot's rigid-body model for any number of joints and leave the state untouched.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of joint readings, support changes, floor and orientation updates and sensor faults",
  TESTS + "support switching and orientation updates are not tested.",
  [H + "humanoid_robot.cpp", H + "humanoid_robot.h", "src/placo/model/robot_wrapper.cpp", "src/placo/tools/utils.cpp"],
  [("support and odometry", H + "humanoid_robot.cpp: update_support_side, ensure_on_floor, update_from_imu")],
  note="The harness keeps its own odometry from pinocchio's forward kinematics; two humanoids with different numbers of joints.")
P("P17", "Walk tasks make the robot follow the walk trajectory",
  "At every tick the walk tasks ask the kinematics solver for exactly the feet, trunk orientation and CoM (or trunk, in trunk mode) of the trajectory at that time, "
  "with the configured delay, offsets and DCM PID correction, which starts from zero whatever the memory held; mode switches swap the task, initialising adds and removing "
  "removes exactly the walk's tasks. Solved each tick, the robot then follows the trajectory closely once disturbances and failing solves stop and no joint limit stands in the way, "
  "reaches its initial pose from a bent posture, and task errors are reported under their own names.",
  ["histories", "fault_sequences", "schedules"],
  "every history of ticks, late ticks, mode and gain changes, replans, re-initialisations, pushes, noisy DCM measurements and failing solves",
  TESTS + "one test walks a fixed plan without disturbance.",
  [H + "walk_tasks.cpp", H + "walk_tasks.h", H + "walk_pattern_generator.cpp", K + "kinematics_solver.cpp"],
  [("targets", H + "walk_tasks.cpp: update_tasks, update_tasks_and_pid"), ("task set", H + "walk_tasks.cpp: initialize_tasks, update_com_task, remove_tasks")],
  note="Closed loop of the real planner, walk tasks and solver in simulated time; a reference PID and the real configuration are compared at each tick.")
P("P24", "The dummy walk steps consistently and can be moved anywhere",
  "Each step of the dummy walk alternates supports, keeps the support foot in place, and swings the other one from its footstep to the planned one over the floor with "
  "the configured lift, at any order of phases, and the robot reaches each pose within a few updates inside its joint limits. Moving the support in the world moves "
  "everything rigidly and puts the robot's support foot exactly there, a reset forgets the past and uses the current parameters, and a failing solve is reported and "
  "leaves the step intact.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of steps, phases, re-placements, resets, pushes and failing solves",
  TESTS + "the dummy walk is not tested.",
  [H + "dummy_walk.cpp", H + "dummy_walk.h", H + "footsteps_planner_repetitive.cpp", "src/placo/tools/cubic_spline.cpp", "src/placo/tools/utils.cpp"],
  [("steps", H + "dummy_walk.cpp: next_step, update, update_T_world_support")],
  note="A reference model of the feet, compared after each event; the robot's real configuration decides tracking.")
M = "src/placo/model/"
P("P18", "Loading a robot or collision pairs is all or nothing, whatever storage does",
  "Constructing a RobotWrapper from a URDF or MJCF file, a directory, or URDF text gives exactly the described robot (joints, limits with 0/0 meaning unlimited, inertias, "
  "geometries and collision pairs as collisions.json and the flags say, at rest in its neutral state with its kinematics up to date) or throws; it never yields part of one. "
  "load_collision_pairs() installs exactly the listed pairs or throws and leaves the pairs as they were, invalid entries are refused, interrupted or short reads "
  "change nothing, no file stays open, and the same load succeeds once the fault is gone.",
  ["fault_sequences", "inputs", "crash_points"],
  "every description and pair list, and every open, read or stat of its files failing, coming short, or the file having lost its end",
  TESTS + "robots are only loaded from intact files.",
  [M + "robot_wrapper.cpp", M + "robot_wrapper.h", "src/placo/tools/utils.cpp"],
  [("loading", M + "robot_wrapper.cpp: RobotWrapper, load_collision_pairs")],
  note="Random robots in a simulated file system (seam on fopen/open/read/stat); what was written is the oracle.")
P("P19", "Model queries answer for the current state whatever was done before",
  "Once update_kinematics() has been called, every kinematic and dynamic query of a RobotWrapper (frame and relative placements, frame, joint, relative-position and CoM "
  "Jacobians in every reference and their time variations, Hessians, CoM, centroidal map, mass matrix with rotor inertia, gravity and non-linear effects, static and fixed-frame "
  "torques, self-collisions and distances) equals what rigid-body mechanics gives for the current state and model parameters. This holds in whichever order and however often queries are made, "
  "after any history of edits, stale queries and garbage readings since overwritten, and a query never alters the state or the model.",
  ["histories", "inputs"],
  "every history of state and parameter edits, updates and queries on three robots, with and without a placed root joint",
  TESTS + "a few queries are compared with stored numbers in fixed postures.",
  [M + "robot_wrapper.cpp", M + "robot_wrapper.h"],
  [("queries on the shared pinocchio data", M + "robot_wrapper.cpp: update_kinematics and the query methods")],
  note="Reference values from body twists, inertias and numeric derivatives computed by the harness on its own data.")
P("P26", "Edits of the robot change exactly what they say",
  "Setting a joint's position, velocity, acceleration, limits, rotor inertia or gear ratio changes that entry and nothing else and reads back; placing the floating base or any "
  "frame moves the base alone so that the frame is exactly there; reset gives the neutral state; integrate(dt) first adds the acceleration to the velocity and then moves "
  "the base along its twist and the joints along their velocities. add_q_noise only moves limited joints, towards a configuration inside their limits. An unknown joint, frame or reference name is refused and changes nothing.",
  ["histories", "inputs"],
  "every history of edits, updates and queries, with unknown names and garbage readings",
  TESTS + "setters are used in fixed sequences.",
  [M + "robot_wrapper.cpp", M + "robot_wrapper.h"],
  [("setters", M + "robot_wrapper.cpp: set_*, reset, integrate, add_q_noise")],
  note="A shadow of the state and model parameters is compared after every event; rand() is seeded.")
P("P22", "Objects that share nothing do not influence each other, in any thread",
  "Problems, robots, kinematics and dynamics solvers, walk planners and splines that share no object give each the results they give alone, however their use is interleaved in one or several threads, "
  "including when one of them fails, stalls, or is destroyed half way. No global state is shared between them and no memory is corrupted.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving, at allocations, QP solves and contended locks, of independent uses of the library",
  TESTS + "every test runs one object at a time in one thread.",
  ["src/placo/problem/problem.cpp", "src/placo/problem/integrator.cpp", K + "kinematics_solver.cpp", "src/placo/dynamics/dynamics_solver.cpp", "src/placo/model/robot_wrapper.cpp",
   H + "walk_pattern_generator.cpp", H + "footsteps_planner_repetitive.cpp", "src/placo/tools/cubic_spline.cpp"],
  [("no static or global mutable state", "src/placo: all of the library")],
  note="Real threads under a seeded baton scheduler; each job's results are compared with the same job run alone.")
P("P20", "A QP problem's solution is the optimum of its current constraints",
  "Whenever solving a problem succeeds, the values of its variables satisfy every hard constraint currently in it and minimise the "
  "weighted sum of its soft ones plus the regularisation, whatever sequence of variables, constraints, weights, options and clears led "
  "there and whichever internal rewriting options are enabled. It succeeds when the hard constraints can be satisfied and fails when "
  "they contradict each other; integrators built on the variables then report the trajectory of the solved values, and inequalities "
  "whether they are active.",
  ["histories", "inputs", "configurations"],
  "every history of a problem object, with and without the sparsity and equality-rewriting options",
  TESTS + "the problem tests are a handful of fixed problems, each solved once or twice.",
  ["src/placo/problem/problem.cpp", "src/placo/problem/expression.cpp", "src/placo/problem/constraint.cpp", "src/placo/problem/variable.cpp",
   "src/placo/problem/integrator.cpp", "src/placo/problem/sparsity.cpp", "src/placo/problem/qp_error.cpp", "src/placo/problem/polygon_constraint.cpp"],
  [("QP assembled from the constraints at each solve; equalities eliminated by QR", "src/placo/problem/problem.cpp: solve")],
  note="KKT certificate against the harness' own record of the constraints.")
P("P21", "A failed QP solve keeps the last solution and the problem usable",
  "When solving a problem fails (infeasible, numerically broken, or refused because a constraint does not fit the problem), every "
  "variable keeps the value and version of the last success, the reported solution vector too, no memory is corrupted, and a later solve "
  "of a feasible problem gives its optimum.",
  ["fault_sequences", "histories"],
  "every point of every history at which the solve can fail, and every failure kind of the QP solver",
  TESTS + "failures are only checked to raise.",
  ["src/placo/problem/problem.cpp", "src/placo/problem/variable.cpp"],
  [("values are published after all checks passed", "src/placo/problem/problem.cpp: solve")],
  note="Failures injected behind eiquadprog's entry point; heap canaries and double-free detection in the allocator seam.")
P("P23", "Expressions, comparisons and integrators mean what they say",
  "An expression built from variables, constants, vectors and matrices by any sequence of the offered operators (sums, differences, "
  "products, slices, stacks, sums and means of rows, comparisons, integrator states and commands at a step or a time, polynoms, LIPM "
  "quantities) is worth, at any value of the variables, what the same formula gives (and a column sparsity pattern covers exactly the columns given); "
  "combinations that do not exist are refused. After a "
  "solve, values and trajectories (and copies kept of them) give the state integrated from the solved commands, and a failed solve, a "
  "change of the start time or queries in any order do not make them stale.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of operations on shared expressions and integrators, interleaved with solves that succeed or fail",
  TESTS + "a handful of expressions and one integrator of each order are evaluated right after one solve.",
  ["src/placo/problem/expression.cpp", "src/placo/problem/variable.cpp", "src/placo/problem/integrator.cpp",
   "src/placo/problem/problem_polynom.cpp", "src/placo/problem/sparsity.cpp", "src/placo/problem/constraint.cpp", "src/placo/humanoid/lipm.cpp"],
  [("affine algebra on (A, b)", "src/placo/problem/expression.cpp: operators"),
   ("keyframes recomputed when the variable's version changed", "src/placo/problem/integrator.cpp: update_trajectory")],
  note="Reference affine algebra in the harness and a series matrix exponential; failures injected behind eiquadprog's entry point.")
P("P27", "Splines and swing curves pass where told, whatever the edits and queries",
  "A spline passes at each of its points with the asked value and slope, is continuous, a cubic between points, and clamps outside; its "
  "duration is that of its points, and refused points, clears, copies and queries in any order of time do not alter the others. A swing "
  "foot leaves and lands at the given places and times without sliding, with the asked height in between, also when it is retargeted during the "
  "flight (it then continues from the current position and velocity).",
  ["histories", "inputs"],
  "every sequence of additions, refusals, clears, copies, queries and retargets",
  TESTS + "one spline and one polynom are sampled after a single construction.",
  ["src/placo/tools/cubic_spline.cpp", "src/placo/tools/cubic_spline_3d.cpp", "src/placo/tools/polynom.cpp",
   "src/placo/humanoid/swing_foot.cpp", "src/placo/humanoid/swing_foot_cubic.cpp", "src/placo/humanoid/swing_foot_quintic.cpp"],
  [("segments recomputed when dirty", "src/placo/tools/cubic_spline.cpp: interpolation"),
   ("retargeting in flight", "src/placo/humanoid/swing_foot.cpp: remake_trajectory")],
  note="Reference Hermite interpolation and finite differences in the harness.")
P("P29", "Geometry helpers are exact for every input",
  "Segment queries (intersection, parallelism, projections), the alignment of two point clouds, the frame with a given axis, angle wrapping and "
  "frame interpolation return the mathematically defined result for every non-degenerate input.",
  ["inputs"],
  "every non-degenerate input of each function",
  TESTS + "a few inputs each.",
  ["src/placo/tools/segment.cpp", "src/placo/tools/utils.cpp", "src/placo/tools/directions.cpp"],
  [("closed-form geometry", "src/placo/tools/segment.cpp, src/placo/tools/utils.cpp")],
  na="Pure functions of their arguments: no state, history, schedule, clock, I/O or failing component that a simulator could control; "
     "deciding them is input testing or proof, not deterministic simulation.")
