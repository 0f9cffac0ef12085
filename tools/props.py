"""What each property's check runs. Seeds per tier are fixed counts (a wall-clock budget only bounds a slow machine)."""
REAL_PB = ["placo problem layer (Problem, Expression, Variable, constraints, Integrator, Sparsity, QR rewriting)", "eiquadprog"]
STUB_PB = ["memory allocator (seeded addresses and contents)", "failing QP solver when a fault is injected"]
REAL_KIN = ["placo kinematics solver, tasks and constraints", "placo robot model", "placo problem layer", "eiquadprog", "pinocchio, coal"]
REAL_DYN = ["placo dynamics solver, tasks and contacts", "placo robot model", "placo problem layer", "eiquadprog", "pinocchio"]
STUB_KIN = STUB_PB + ["the physical robot (the simulation applies the steps, pushes and teleports it)"]

REAL_WALK = ["placo walk pattern generator, footsteps planners, LIPM, swing feet", "placo problem layer", "eiquadprog"]
STUB_WALK = STUB_PB + ["the walking loop: time, odometry drift, pushes"]

REAL_HUM = ["placo humanoid robot, walk tasks, dummy walk, walk pattern generator", "placo kinematics solver", "placo robot model", "eiquadprog", "pinocchio"]
STUB_HUM = STUB_PB + ["the physical robot, its joint, IMU and pressure sensors", "rand() (seeded)"]

REAL_MOD = ["placo robot model (RobotWrapper)", "pinocchio, coal"]
STUB_MOD = ["memory allocator (seeded addresses and contents)", "rand() (seeded)", "the sensors feeding the state"]
REAL_IO = ["placo robot model (RobotWrapper constructor, load_collision_pairs)", "pinocchio's and urdfdom's parsers, jsoncpp, boost.filesystem, libstdc++ streams"]
STUB_IO = ["file system under /simfs (in memory, seeded failures of open, read, stat)", "memory allocator (seeded addresses and contents)"]

REAL_OWN = ["placo kinematics and dynamics solvers, tasks, constraints, contacts", "placo problem layer", "placo walk tasks", "eiquadprog", "pinocchio, coal"]
REAL_THR = ["placo problem layer, kinematics and dynamics solvers, robot model, walk planner, tools", "eiquadprog", "pinocchio, coal, urdfdom"]
STUB_THR = ["thread scheduler (real threads, one running at a time, seeded hand-overs at allocations, QPs and contended locks)", "memory allocator (seeded addresses and contents)"]

REAL_FORM = ["placo problem layer (Expression, Variable, ProblemConstraint, Integrator, ProblemPolynom)", "placo LIPM", "eiquadprog"]
REAL_CURV = ["placo cubic splines, polynoms, cubic and quintic swing feet"]
STUB_CURV = ["memory allocator (seeded addresses and contents)", "the user of the curves: edits, queries in any order of time, retargets, copies"]


def S(exe, name, quick, thorough, **kw):
    return dict(exe=exe, name=name, quick=quick, thorough=thorough, **kw)


PROPS = {
    "P01": dict(level="exploration", real=REAL_KIN, stub=STUB_KIN, scenarios=[S("sim_kin", "kin_limits", 30000, 600000)]),
    "P02": dict(level="exploration", real=REAL_KIN, stub=STUB_KIN, scenarios=[S("sim_kin", "kin_opt", 24000, 600000)]),
    "P03": dict(level="fault_enumeration", real=REAL_KIN, stub=STUB_KIN, scenarios=[S("sim_kin", "kin_fail", 24000, 600000)]),
    "P04": dict(level="exploration", real=REAL_KIN, stub=STUB_KIN, scenarios=[S("sim_kin", "kin_conv", 14000, 400000)]),
    "P05": dict(level="exploration", real=REAL_KIN, stub=STUB_KIN, scenarios=[S("sim_kin", "kin_constr", 14000, 400000)]),
    "P06": dict(level="exploration", real=REAL_DYN, stub=STUB_KIN, scenarios=[S("sim_dyn", "dyn_eom", 24000, 500000)]),
    "P07": dict(level="exploration", real=REAL_DYN, stub=STUB_KIN, scenarios=[S("sim_dyn", "dyn_contacts", 20000, 500000)]),
    "P08": dict(level="fault_enumeration", real=REAL_DYN, stub=STUB_KIN, scenarios=[S("sim_dyn", "dyn_fail", 24000, 500000)]),
    "P09": dict(level="exploration", real=REAL_DYN, stub=STUB_KIN, scenarios=[S("sim_dyn", "dyn_opt", 20000, 500000)]),
    "P10": dict(level="exploration", real=REAL_DYN, stub=STUB_KIN, scenarios=[S("sim_dyn", "dyn_conv", 8000, 150000)]),
    "P28": dict(level="exploration", real=REAL_DYN, stub=STUB_KIN, scenarios=[S("sim_dyn", "dyn_collide", 9000, 200000)]),
    "P11": dict(level="exploration", real=REAL_OWN, stub=STUB_PB, scenarios=[S("sim_own", "own", 40000, 2000000)]),
    "P12": dict(level="exploration", real=REAL_WALK, stub=STUB_WALK, scenarios=[S("sim_walk", "walk_plan", 4000, 120000)]),
    "P13": dict(level="fault_enumeration", real=REAL_WALK, stub=STUB_WALK, scenarios=[S("sim_walk", "walk_replan", 6000, 200000)]),
    "P14": dict(level="exploration", real=REAL_WALK, stub=STUB_WALK, scenarios=[S("sim_walk", "walk_query", 6000, 200000)]),
    "P15": dict(level="exploration", real=REAL_WALK, stub=STUB_WALK, scenarios=[S("sim_walk", "walk_steps", 2400, 60000)]),
    "P16": dict(level="exploration", real=REAL_HUM, stub=STUB_HUM, scenarios=[S("sim_human", "human_odom", 24000, 1000000)]),
    "P17": dict(level="exploration", real=REAL_HUM, stub=STUB_HUM, scenarios=[S("sim_human", "human_tasks", 2000, 80000)]),
    "P18": dict(level="fault_enumeration", real=REAL_IO, stub=STUB_IO, scenarios=[S("sim_io", "io_load", 12000, 600000)]),
    "P19": dict(level="exploration", real=REAL_MOD, stub=STUB_MOD, scenarios=[S("sim_model", "model_query", 30000, 1500000)]),
    "P20": dict(level="exploration", real=REAL_PB, stub=STUB_PB, scenarios=[S("sim_problem", "problem", 8000, 400000)]),
    "P21": dict(level="fault_enumeration", real=REAL_PB, stub=STUB_PB, scenarios=[S("sim_problem", "problem_fault", 8000, 400000)]),
    "P22": dict(level="exploration", real=REAL_THR, stub=STUB_THR, scenarios=[S("sim_threads", "threads", 4000, 200000)]),
    "P23": dict(level="fault_enumeration", real=REAL_FORM, stub=STUB_PB, scenarios=[S("sim_tools", "formula", 16000, 1000000)]),
    "P24": dict(level="exploration", real=REAL_HUM, stub=STUB_HUM, scenarios=[S("sim_human", "human_dummy", 16000, 600000)]),
    "P25": dict(level="fault_enumeration", real=REAL_WALK, stub=STUB_WALK, scenarios=[S("sim_walk", "walk_adapt", 6000, 200000)]),
    "P26": dict(level="exploration", real=REAL_MOD, stub=STUB_MOD, scenarios=[S("sim_model", "model_edit", 40000, 2000000)]),
    "P27": dict(level="exploration", real=REAL_CURV, stub=STUB_CURV, scenarios=[S("sim_tools", "curves", 16000, 1000000)]),
}
