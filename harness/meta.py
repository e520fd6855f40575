"""Texts of the properties; harness/gen.py writes properties.jsonl and MANIFEST.json from them."""

META = {}


def P(id, title, statement, over, text, why, files, mechanism, observe, state=(), note=""):
    META[id] = dict(title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()), files=files,
                    mechanism=mechanism, observe=observe, state=list(state), note=" ".join(note.split()))


QPF = ["src/placo/problem/problem.cpp", "src/placo/problem/constraint.cpp", "src/placo/problem/expression.cpp", "src/placo/problem/sparsity.cpp"]

P("C01", "A successful solve satisfies the hard constraints; infeasibility is reported",
  """When solving an optimization problem succeeds, the published solution satisfies every hard equality and inequality.
  A problem whose hard constraints contradict each other, or that is ill-formed (mismatching sizes, more equalities than variables),
  is reported as an error instead of giving a solution.""",
  ["inputs", "histories", "configurations"],
  "Any sequence of variables, constraints (hard or soft, added, reconfigured, cleared) and solves, with any solver option (rewriting, sparsity, regularization).",
  "Tests solve a dozen fixed problems; feasibility must hold for every combination of constraints, options and histories of solves.",
  QPF, [("constraint assembly and QP solve", "Problem::solve"), ("equality elimination", "Problem::solve (rewrite_equalities)"), ("infeasibility report", "QPError")],
  ["Problem::solve", "Problem::x", "Variable::value"],
  [("variables, constraints, solution", "the problem being edited and its last solution", "Problem")])
P("C02", "The solution is the weighted least-squares optimum, whatever the solver options",
  """Among the points satisfying the hard constraints, the solution minimizes the weighted sum of the squared violations of the soft constraints plus
  the regularization. Enabling or disabling the rewriting of equalities and the use of sparsity is not observable in the solution.""",
  ["inputs", "histories", "configurations"],
  "Any strictly convex problem made of hard/soft equalities and inequalities with any positive weights, block structures and option combinations.",
  "Optimality is a statement about all feasible points; tests compare a few solutions by hand and hardly use sparsity.",
  QPF, [("objective assembly", "Problem::solve"), ("column blocks", "Sparsity::detect_columns_sparsity, Sparsity::operator+"), ("slack variables of soft inequalities", "Problem::solve")],
  ["Problem::x", "Sparsity"])
P("C03", "Solutions and constraint statuses are published consistently",
  """After a successful solve, each variable's value is its part of the solution, and an inequality is flagged active when it holds the solution back, and never when the solution is strictly inside it.
  A failed solve leaves the previously published solution in place, and later changes to the problem are taken into account by the next solve only.""",
  ["histories"], "Any interleaving of edits, successful and failed solves.",
  "Tests read values after one solve; they never interleave failing solves with edits.",
  QPF + ["src/placo/problem/variable.cpp"], [("publication of the solution", "Problem::solve"), ("active flags", "ProblemConstraint::is_active"), ("version of values", "Variable::version")],
  ["Problem::x", "Variable::value", "ProblemConstraint::is_active"],
  [("x, is_active, versions", "last published solution and statuses", "Problem")])
P("C04", "Expressions and constraint builders mean what their algebra says",
  """Evaluating an expression built from variables, constants, slices, sums, products and stacking gives the same value as doing the same operations on the values;
  ill-sized operations are refused. A comparison or a polygon/polynomial helper builds the constraint that holds exactly for the values for which the stated relation holds.""",
  ["programs", "inputs"], "Any program of expression operations over any variables, evaluated at any decision vector.",
  "The space of programs is unbounded; tests exercise each operator once or twice with compatible sizes.",
  ["src/placo/problem/expression.cpp", "src/placo/problem/polygon_constraint.cpp", "src/placo/problem/problem_polynom.cpp", "src/placo/problem/constraint.cpp", "src/placo/problem/variable.cpp"],
  [("affine expressions", "Expression"), ("comparison operators", "Expression::operator>=, operator<=, operator=="), ("helpers", "PolygonConstraint, ProblemPolynom")],
  ["Expression::value", "ProblemConstraint"])
P("C05", "Integrated variables follow their linear dynamics exactly",
  """An integrated decision variable gives, at every step and every time, the state reached by its linear system under the piecewise-constant command from its initial state.
  After a solve the values agree with the expressions at the solution, are held constant outside the time range and honour the start time; detached trajectories keep the solution they were taken from.""",
  ["inputs", "histories"], "Any system matrix or order, step, number of steps, start time, initial state (constant or expression), time and derivative, over successive solves.",
  "Tests sample one or two integrators at a few steps.",
  ["src/placo/problem/integrator.cpp"], [("discretization", "Integrator::Integrator"), ("expressions", "Integrator::expr, expr_t"), ("values", "Integrator::value, Integrator::Trajectory")],
  ["Integrator::expr", "Integrator::value", "Integrator::get_trajectory"])
P("C06", "Linear inverted pendulum segments are consistent and chain continuously",
  """Position, velocity, acceleration, jerk, ZMP, ZMP velocity and DCM of a pendulum segment satisfy the linear inverted pendulum relations, both as expressions and on the solved trajectory.
  A segment built from a previous one starts in the final state of that one.""",
  ["inputs", "histories"], "Any number of segments, steps, durations, initial states, commands, times and pendulum frequencies.",
  "No unit test covers pendulum segments; the relations must hold for every command and time.",
  ["src/placo/humanoid/lipm.cpp", "src/placo/problem/integrator.cpp"], [("pendulum expressions", "LIPM::zmp, dcm, dzmp"), ("trajectory", "LIPM::Trajectory"), ("chaining", "LIPM::build_LIPM_from_previous")],
  ["LIPM", "LIPM::Trajectory"])
P("C07", "Splines and polynomials interpolate their data exactly",
  """A cubic spline passes through every point it was given with the given derivative, is the unique cubic between consecutive points, and is held constant before the first and after the last point.
  Points that do not come after the previous one are refused without effect, clearing forgets everything, and angular splines join consecutive angles by the shortest turn.
  A polynomial and its derivatives evaluate to their mathematical value.""",
  ["inputs", "histories"], "Any sequence of added (or refused) points, clears and evaluations at any time; any polynomial, derivative order and abscissa.",
  "Tests check one spline; continuity and interpolation must hold for every sequence of points interleaved with evaluations.",
  ["src/placo/tools/cubic_spline.cpp", "src/placo/tools/cubic_spline_3d.cpp", "src/placo/tools/polynom.cpp"],
  [("knots and lazily rebuilt cubics", "CubicSpline::add_point, compute_splines, interpolation"), ("polynomials", "Polynom::value")],
  ["CubicSpline::pos/vel/acc/duration", "CubicSpline3D", "Polynom::value"], [("points, dirty flag", "given knots and the cubics built from them", "CubicSpline")])
P("C08", "Swing foot trajectories leave, fly and land as requested",
  """A swing foot trajectory starts at the start position and lands at the target at the requested times with zero horizontal velocity, and goes through the requested height (at one and three quarters of the flight, or on the requested plateau).
  The quintic swing also has zero vertical velocity at both ends and zero horizontal acceleration; the spline swing honours the initial velocity and a flight already partly elapsed.
  Replanning the landing keeps the current position and velocity and the vertical motion.""",
  ["inputs", "histories"], "Any times, height, positions, initial velocity, elapsed ratio and plateau ratio; any sequence of replannings.",
  "Tests check a couple of trajectories at a few instants.",
  ["src/placo/humanoid/swing_foot.cpp", "src/placo/humanoid/swing_foot_quintic.cpp", "src/placo/humanoid/swing_foot_cubic.cpp"],
  [("polynomial coefficients", "SwingFoot::make_trajectory, remake_trajectory; SwingFootQuintic::make_trajectory"), ("spline knots", "SwingFootCubic::make_trajectory")],
  ["SwingFoot::Trajectory::pos/vel", "SwingFootQuintic::Trajectory", "SwingFootCubic::Trajectory"])
P("C09", "Geometry helpers compute what they state",
  """Plane segment predicates (parallel, aligned, containing a point, crossing, crossed by a line or half line) and intersections are geometrically exact; intersections of parallel segments are refused.
  Axis masks select the requested axes in the requested frame. Angle wrapping, yaw extraction, flattening on the floor, frame interpolation, rotations from an axis, best rigid alignment of points and sets of directions satisfy their defining equations, and invalid arguments are refused.""",
  ["inputs"], "Any segments, masks, frames, points and angles (away from the documented numerical tolerances).",
  "Tests use a dozen hand-picked segments and frames; the predicates must agree with geometry for all of them.",
  ["src/placo/tools/segment.cpp", "src/placo/tools/utils.cpp", "src/placo/tools/axises_mask.cpp", "src/placo/tools/directions.cpp"],
  [("segment predicates", "Segment"), ("masks", "AxisesMask::set_axises, apply"), ("frames", "frame_yaw, flatten_on_floor, interpolate_frames, rotation_from_axis, optimal_transformation")],
  ["Segment", "AxisesMask::apply", "tools functions"])

RW = ["src/placo/model/robot_wrapper.cpp", "src/placo/model/robot_wrapper.h", "bindings/expose-robot-wrapper.cpp"]
P("C10", "Robot state and frames follow the model's forward kinematics",
  """Whatever the robot model and the history of state changes, reading back a joint, velocity, acceleration, limit or the floating base gives what was last set (unknown joint or frame
  names are refused), the placements of frames after update_kinematics are those of the forward kinematics of the model (URDF or MJCF) at the current state, placing a frame moves the
  floating base so that this frame is where asked without touching the joints, and integrate applies accelerations to velocities then velocities to positions on the group of rigid motions.""",
  ["inputs", "histories"], "Any robot tree (URDF or MJCF, any root placement), any configuration, and any interleaving of state changes, updates and queries.",
  "Tests check a handful of configurations of two robots; kinematics must be right for every robot, configuration and order of calls.",
  RW, [("state accessors", "RobotWrapper::set_joint, get_joint_offset..."), ("forward kinematics", "RobotWrapper::update_kinematics"), ("floating base", "RobotWrapper::set_T_world_fbase, set_T_world_frame, get_T_world_fbase"),
       ("integration", "RobotWrapper::integrate")],
  ["RobotWrapper::state", "RobotWrapper::get_T_world_frame", "RobotWrapper::get_T_a_b", "RobotWrapper::get_joint_limits"],
  [("configuration", "state q, qd, qdd", "RobotWrapper::state"), ("kinematics", "placements of the last update", "RobotWrapper::data")])
P("C11", "Jacobians are the derivatives of the kinematics",
  """Frame and joint jacobians map velocities to the velocity of the frame in the requested reference (world, local, local world aligned); their time variation is the derivative of the jacobian along the
  current velocities; the relative position jacobian, CoM jacobian and its time variation, frame hessians and centroidal map are the derivatives or momenta they are named after,
  whatever other queries were made before.""",
  ["inputs", "histories"], "Any robot tree, configuration, velocity, frame, reference, and order of queries.",
  "Derivative identities hold for every configuration and velocity; tests cover single samples and skip the time variations.",
  RW, [("frame jacobians", "RobotWrapper::frame_jacobian, frame_jacobian_time_variation"), ("joint jacobians", "RobotWrapper::joint_jacobian"), ("relative, CoM, centroidal", "RobotWrapper::relative_position_jacobian, com_jacobian, centroidal_map"),
       ("hessians", "RobotWrapper::get_frame_hessian")],
  ["RobotWrapper::frame_jacobian", "RobotWrapper::com_jacobian", "RobotWrapper::centroidal_map"])
P("C12", "Mass, gravity and torques satisfy the rigid-body equations of the model",
  """The total mass, center of mass, mass matrix (with the reflected rotor inertias), generalized gravity and non-linear effects are those of the Newton-Euler equations of the model's bodies; static gravity compensation gives torques
  that, with a wrench at the contact frame, balance gravity with nothing on the floating base; torques for a given acceleration with a fixed frame satisfy the equation of motion with that frame not accelerating.""",
  ["inputs", "histories"], "Any robot tree with any inertias, gravity vector, rotor inertias and gear ratios, configuration and velocity.",
  "These are identities over all configurations; tests only check shapes and one or two robots at rest.",
  RW, [("mass matrix", "RobotWrapper::mass_matrix"), ("gravity and bias", "RobotWrapper::generalized_gravity, non_linear_effects"), ("static compensation", "RobotWrapper::static_gravity_compensation_torques"),
       ("fixed frame torques", "RobotWrapper::torques_from_acceleration_with_fixed_frame")],
  ["RobotWrapper::mass_matrix", "RobotWrapper::com_world", "RobotWrapper::static_gravity_compensation_torques"])
P("C13", "Collisions and distances are those of the allowed pairs at the current state",
  """self_collisions reports exactly the allowed pairs of collision objects that overlap at the current state (one of them if asked to stop at the first), and distances gives for every allowed pair the separation and the
  nearest points, with the right objects and parent joints. The allowed pairs are all pairs of objects on different joints, or those of the collisions file (by link names or object numbers); unknown links are refused.""",
  ["inputs", "histories"], "Any robot with sphere collision objects, any set of allowed pairs (default, file next to the model, loaded later, none), any state.",
  "Which pairs collide depends on the state and the pairs; tests check one robot in one position.",
  RW, [("pairs", "RobotWrapper::load_collision_pairs"), ("collisions", "RobotWrapper::self_collisions"), ("distances", "RobotWrapper::distances")],
  ["RobotWrapper::self_collisions", "RobotWrapper::distances"])
K = "src/placo/kinematics/"
P("C14", "IK solutions respect masks and limits, failures leave the robot unchanged",
  """A displacement returned by the kinematics solver keeps every joint within its limits (when joint limits are enabled) and within dt times its velocity limit (when enabled), and does not move masked
  degrees of freedom nor a masked floating base. Applying it moves the configuration along the displacement and sets velocities and accelerations consistently with dt. A problem whose hard requirements contradict each other
  is refused and one that has a solution is not; after a refusal the robot is exactly as before.""",
  ["inputs", "histories"], "Any robot, configuration, set of tasks and constraints with any priorities, masks, limits and time step, over sequences of solves.",
  "Limits bind only for particular targets and configurations; tests solve a few problems where they are inactive.",
  [K + "kinematics_solver.cpp"], [("limits and masks", "KinematicsSolver::compute_limits_inequalities, solve"), ("application", "KinematicsSolver::solve")],
  ["KinematicsSolver::solve", "RobotWrapper::state"], [("masked_dof, masked_fbase, dt, joint_limits, velocity_limits", "configuration of the solver", "KinematicsSolver")])
P("C15", "IK solutions honour priorities and are the optimum of the soft tasks",
  """Hard tasks are met exactly at first order; scaled tasks are all met up to one common scale in [0, 1], which is 1 whenever possible at no cost; among the displacements allowed by the hard
  requirements, the one returned minimises the weighted sum of the squared residuals of the soft tasks (including regularization and kinetic energy tasks).""",
  ["inputs", "histories"], "Any robot and configuration, any combination of tasks, priorities and weights, with or without binding limits.",
  "Optimality must hold against all displacements; tests check convergence of a few soft problems.",
  [K + "kinematics_solver.cpp", K + "regularization_task.cpp", K + "kinetic_energy_regularization_task.cpp"],
  [("priorities", "KinematicsSolver::solve"), ("weights", "Prioritized::configure")], ["KinematicsSolver::solve", "KinematicsSolver::scale"])
P("C16", "The matrices of IK tasks are the first-order model of the task error",
  """For every type of task, mask, target and configuration, A and b are such that A dq = b is the first-order condition for the task to be reached: b is the current error of the task and A its derivative with respect to the
  configuration, in the axes selected by the mask. Errors and error norms reported to the user are those. Joint, gear, regularization and manipulability tasks follow every change of their parameters.""",
  ["inputs", "histories"], "Any robot, configuration, task type and parameters, with targets, masks and parameters edited between solves.",
  "A wrong jacobian still converges in most examples, and derivative identities hold at every configuration.",
  [K + x for x in ("position_task.cpp", "orientation_task.cpp", "relative_position_task.cpp", "relative_orientation_task.cpp", "com_task.cpp", "joints_task.cpp", "gear_task.cpp", "distance_task.cpp",
                   "axis_align_task.cpp", "wheel_task.cpp", "manipulability_task.cpp", "centroidal_momentum_task.cpp")],
  [("task matrices", "Task::update"), ("masks", "AxisesMask::apply")], ["Task::A", "Task::b", "Task::error"])
P("C17", "IK constraints hold at first order, without preventing the optimum",
  """Hard constraints (distance, CoM or DCM polygon, joint space half spaces, relative yaw, cone, self-collision avoidance) hold at first order for the displacement returned; soft ones cost the square of their violation only;
  a constraint never forbids a displacement which satisfies it, so that the solution is the optimum of the tasks within the constraints, and a problem with a solution is not refused.""",
  ["inputs", "histories"], "Any robot, configuration and parameters of the constraints, together with tasks, masks and limits.",
  "Inequalities matter only where they bind, on the side and with the sign given by the configuration.",
  [K + x for x in ("distance_constraint.cpp", "com_polygon_constraint.cpp", "joint_space_half_spaces_constraint.cpp", "yaw_constraint.cpp", "cone_constraint.cpp", "avoid_self_collisions_constraint.cpp")],
  [("constraint rows", "Constraint::add_constraint")], ["KinematicsSolver::solve"])
P("C18", "Solvers act on exactly the tasks and constraints currently in them",
  """A solution depends on the tasks and constraints added and not yet removed, with their current parameters, priorities and weights, and on nothing else: removing or clearing leaves no effect, a removed task owned by the user can be
  added again, removing a frame task removes both its parts, masks stay until unmasked, and a refused addition (unknown frame or joint, unknown type) changes nothing.""",
  ["inputs", "histories"], "Any history of additions, removals, clears, reconfigurations, edits, masks and solves.",
  "The state is reached through unbounded histories of edits; tests add tasks once and solve.",
  [K + "kinematics_solver.cpp", "src/placo/problem/problem.cpp"], [("ownership", "KinematicsSolver::add_task, remove_task, clear, add_constraint, remove_constraint")],
  ["KinematicsSolver::solve", "KinematicsSolver::tasks_count"], [("tasks, constraints", "sets of the solver", "KinematicsSolver")])
D = "src/placo/dynamics/"
P("C19", "ID solutions satisfy the equation of motion and the conditions of the contacts",
  """A successful solve gives accelerations, torques and contact forces such that M qdd + h + damping v + extra force = tau + sum of J^T f, with h the gravity or the full non-linear effects as configured, only active contacts counting. No torque
  acts on the floating base unless it is masked, in which case it does not accelerate. Unilateral contacts only push, within the friction pyramid, with the ZMP inside the contact; external wrenches are those asked. Integration applies the accelerations over
  dt. Contradictory problems are reported as failures and others are not; after a failure or an error the robot is as before.""",
  ["inputs", "histories"], "Any robot, state, set of tasks and contacts of every type with any parameters, damping, extra forces, over sequences of solves.",
  "The equation must hold for every state and combination of contacts, and contact conditions matter only where they bind; tests solve a few static problems.",
  [D + "dynamics_solver.cpp", D + "contacts.cpp"], [("equation of motion", "DynamicsSolver::solve"), ("contacts", "Contact::update, add_constraints"), ("ZMP", "Contact6D::zmp, LineContact::zmp")],
  ["DynamicsSolver::solve", "Contact::wrench", "RobotWrapper::state"], [("contacts", "contacts of the solver and whether they are active", "DynamicsSolver")])
P("C20", "ID solutions respect the limits on torques, velocities, positions and distances",
  """When enabled: torques stay within the limits of the model or those set by the user; velocities after dt stay within their limits, reduced in proportion of the torque when velocity versus torque limits are used; a joint never goes faster towards a
  position limit than what it can stop from with its safe acceleration, and one beyond its limit comes back with at least this acceleration; pairs of bodies closer than the trigger do not approach faster than what they can stop from, and those closer than the margin
  are pushed apart. Limits that are not enabled, or not bounded, do not constrain the solution.""",
  ["inputs", "histories"], "Any robot, state (also beyond the limits), time step, safe accelerations, torque limits, together with tasks and contacts.",
  "Each limit binds only in particular states and on one side; tests check one joint in one direction.",
  [D + "dynamics_solver.cpp", D + "avoid_self_collisions_constraint.cpp"], [("limits", "DynamicsSolver::compute_limits_inequalities"), ("collisions", "AvoidSelfCollisionsConstraint::add_constraint")],
  ["DynamicsSolver::solve"], [("qdd_safe, overriden_torque_limits, *_limits, dt", "configuration of the solver", "DynamicsSolver")])
P("C21", "ID tasks ask for the right accelerations and the solution is their optimum",
  """For every type of dynamics task, the rows are the acceleration of its quantity (jacobian times accelerations plus drift), asked to equal kp error + kd error rate + target acceleration in the axes of its mask, with critical damping by default; torque
  tasks ask for torques. Hard tasks are met; among the motions allowed, the solution minimises the weighted squared residuals of the soft tasks, contact weights and torque cost.""",
  ["inputs", "histories"], "Any robot, state with velocities, task type, gains, targets and their derivatives, masks, priorities and weights.",
  "Drift terms vanish at rest, where tests check; the identities hold for every state.",
  [D + x for x in ("position_task.cpp", "orientation_task.cpp", "relative_position_task.cpp", "relative_orientation_task.cpp", "com_task.cpp", "joints_task.cpp", "gear_task.cpp", "torque_task.cpp", "dynamics_solver.cpp")],
  [("task matrices", "Task::update"), ("gains", "Task::get_kd"), ("priorities", "DynamicsSolver::solve")], ["Task::A", "Task::b", "DynamicsSolver::solve"])
H = "src/placo/humanoid/"
P("C22", "Planned footsteps alternate, respect step limits, avoid overlaps, reach goals",
  """Footsteps planners start from the given feet (flying foot first) and alternate sides. A step is the requested one, spaced when turning, scaled down to the configured step limits when it exceeds them (ellipsoid, box or conic clipping; a step within the
  limits is kept), then reduced while the soles would overlap. The repetitive planner makes the asked number of steps and finally brings the feet together; the naive planner heads to its target and stops when, and only when, both feet are placed on it
  (or after its maximum number of steps).""",
  ["inputs", "configurations"], "Any walk parameters, initial feet, requested steps (also far beyond the limits), targets.",
  "Limits and overlaps bind for particular combinations of the three components of a step; tests plan one straight walk.",
  [H + x for x in ("footsteps_planner.cpp", "footsteps_planner_naive.cpp", "footsteps_planner_repetitive.cpp", "humanoid_parameters.cpp")],
  [("step limits", "HumanoidParameters::ellipsoid_clip, conic_clip, box_clip, *_overlap_clip"), ("one step", "FootstepsPlanner::clipped_opposite_footstep"),
   ("planners", "FootstepsPlannerRepetitive::plan_impl, FootstepsPlannerNaive::plan_impl")], ["FootstepsPlanner::plan"])
P("C23", "Supports follow the footsteps, with correct frames, polygons and durations",
  """Supports made from footsteps go through them one by one: standing on a foot while the other one flies to its next placement, with double supports in between when asked, and the starting and ending double supports when asked; truncating keeps the first
  ones and closes the walk when asked. The frame of a support is its foot, or the middle of both feet; its polygon is the convex hull (clockwise) of its soles, whatever edits the feet went through; overlap and containment tests agree with the geometry.
  Phase durations follow from the parameters.""",
  ["inputs", "histories"], "Any footsteps and options, followed by truncations and edits (offsets, new placements of feet) of the supports.",
  "Caches and off-by-one errors show only for particular lengths, options and edit histories.",
  [H + "footsteps_planner.cpp", H + "humanoid_parameters.cpp", H + "walk_pattern_generator.cpp"],
  [("supports", "FootstepsPlanner::make_supports, truncate_supports"), ("polygons", "Footstep::support_polygon, Support::support_polygon"), ("overlaps", "Footstep::overlap, polygon_contains"),
   ("durations", "HumanoidParameters::double_support_duration, ...")], ["FootstepsPlanner::make_supports", "Support::support_polygon"], [("computed_polygon", "cached polygons", "Footstep, Support")])
P("C24", "Planned walks keep the ZMP in the supports, end at rest, with an optimal CoM",
  """A planned trajectory of the centre of mass has constant jerk during each planning step, starts from the given position at rest, and is continuous across phases, each lasting what remains of it. At every planning step the ZMP stays inside the polygon of
  the current support with the margin, and the walk ends over its last support, at rest; among those the trajectory minimises the weighted distances of the ZMP to its references. In soft mode these are weighted costs. A walk is refused only when impossible, or
  ill-formed (no supports, or not from and to double supports). Queries (position, velocity, acceleration, jerk, ZMP, DCM) agree with it at every time.""",
  ["inputs", "configurations"], "Any parameters, supports (also partially elapsed or with scaled durations), initial CoM and starting time, queried at any time, also outside of the trajectory.",
  "The optimum of a constrained program depends on every phase; tests only check that planning runs.",
  [H + "walk_pattern_generator.cpp", H + "lipm.cpp", "src/placo/problem/polygon_constraint.cpp"],
  [("program", "WalkPatternGenerator::plan_com, constrain_lipm"), ("phases", "WalkPatternGenerator::support_default_duration"), ("queries", "Trajectory::get_p_world_CoM, ...")],
  ["WalkPatternGenerator::plan", "WPGTrajectory.get_p_world_CoM"], [("parts", "phases of the trajectory", "WalkPatternGenerator::Trajectory")])
P("C25", "Walk trajectories move feet and trunk step to step; queries are consistent",
  """At any time of a planned walk, feet of the current support are still and placed where the support says, the flying foot goes from where it was to its next placement through the configured height and lands with zero velocity, yaws of feet and trunk
  interpolate those of the steps (shortest way). Current, next and previous supports, their times, sides, target DCM and the CoM and DCM relative to them describe the same walk. Transforming a trajectory moves everything it returns.""",
  ["inputs", "histories"], "Any planned walk, any sequence of transformations, any query time, also at phase changes and outside of the trajectory.",
  "Queries at phase changes, with transformations and over several phases involve combinations that tests do not sample.",
  [H + "walk_pattern_generator.cpp", H + "swing_foot_cubic.cpp", H + "footsteps_planner.cpp", "src/placo/tools/cubic_spline.cpp"],
  [("feet", "WalkPatternGenerator::plan_feet_trajectories"), ("queries", "Trajectory::get_T_world_left, get_support, ..."), ("transformation", "Trajectory::apply_transform")],
  ["WPGTrajectory.get_T_world_left", "WPGTrajectory.get_support", "WPGTrajectory.get_R_world_trunk"], [("parts, T", "phases and transformation", "WalkPatternGenerator::Trajectory")])
P("C26", "Replanning goes on from the current state, or keeps the end of the previous walk",
  """Supports can be replanned exactly during single supports that are not followed by the end of the walk; they start with the current support, its elapsed part taken into account, and follow the footsteps planned from it. A replanned trajectory starts from
  the position, velocity and acceleration of the CoM, the placement and velocity of the flying foot and the yaws of the previous one at that time, and satisfies what a planned walk does. When the new walk is impossible, the rest of the previous one is returned
  and marked so. Adapting supports to a measured DCM changes the landing and the duration optimally within their bounds, and nothing else; the ZMP leading to a DCM is the closest one of the support.""",
  ["inputs", "histories", "failures"], "Any sequence of plans, transformations, replannings at any time (successful or not), measured DCM.",
  "Continuity must hold after any history of successful and failed replannings; the elapsed part of phases accumulates over them.",
  [H + "walk_pattern_generator.cpp"],
  [("supports", "WalkPatternGenerator::can_replan_supports, replan_supports"), ("trajectory", "WalkPatternGenerator::replan, trim_old_trajectory"), ("measured DCM", "WalkPatternGenerator::update_supports, get_optimal_zmp")],
  ["WalkPatternGenerator::replan", "WPGTrajectory.replan_success"], [("elapsed_ratio, t_start, time_ratio", "progress of a phase", "FootstepsPlanner::Support")])
P("C27", "Walk tasks and the quasi-static walk make the robot follow the steps",
  """Walk tasks put in the solver one task per foot position and orientation, the trunk orientation, and the centre of mass or the trunk position (as asked at the last update), whose targets are those of the last update (shifted by the configured offset in the
  trunk axes), whose errors are reported by name, and which are all removed at the end. Reaching the initial pose puts the feet side by side, the centre of mass above their middle at the asked height and the trunk at the asked pitch. The quasi-static walk
  alternates supports, lands each foot on the (limited) requested step while the support foot stays in place, lifts the flying foot as configured, and moves as a whole when its support is moved.""",
  ["inputs", "histories"], "Any biped in reach of the asked poses, any sequence of updates, mode changes, removals, steps, resets and moves of the support.",
  "Which tasks exist and where the feet are depend on the whole history of mode changes, steps and moves; tests do not exercise these classes.",
  [H + "walk_tasks.cpp", H + "dummy_walk.cpp", "bindings/expose-walk-pattern-generator.cpp"],
  [("tasks", "WalkTasks::update_tasks, update_com_task, get_tasks_error"), ("initial pose", "WalkTasks::reach_initial_pose"), ("steps", "DummyWalk::next_step, update, update_T_world_support")],
  ["WalkTasks::get_tasks_error", "DummyWalk::T_world_next", "RobotWrapper::get_T_world_frame"],
  [("com_task, trunk_task, targets", "tasks in the solver", "WalkTasks"), ("support_left, T_world_*", "feet of the current step", "DummyWalk")])
P("C28", "Humanoids stand on their support; velocities, DCM, ZMP and torques follow",
  """Changing the support (foot or any frame) keeps where it is, laid flat on the floor, and moves nothing; putting the robot on the floor places its support exactly there for any joint configuration; using the IMU turns the robot around its support until its
  trunk has the measured orientation. The centre of mass velocity is the one for which the given support does not translate and the trunk turns as measured; DCM and ZMP are those of the linear inverted pendulum; torques are those for which, with the given
  contact forces and joint accelerations, the equation of motion holds with a free base.""",
  ["inputs", "histories"], "Any biped, joint configuration and velocities, sequence of support changes, floor placements and IMU orientations.",
  "The placement of the robot accumulates over a history of support changes; tests check one change.",
  [H + "humanoid_robot.cpp", "src/placo/model/robot_wrapper.cpp"],
  [("support", "HumanoidRobot::update_support_side, ensure_on_floor, update_from_imu"), ("velocity", "HumanoidRobot::get_com_velocity"), ("torques", "HumanoidRobot::get_torques")],
  ["HumanoidRobot::get_T_world_left", "HumanoidRobot::get_com_velocity", "HumanoidRobot::get_torques"],
  [("support_side, support_frame, T_world_support", "current support", "HumanoidRobot")])
