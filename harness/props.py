AREAS = {
    "qp": dict(trace="TraceQP"),
    "expr": dict(trace="TraceExpr"),
    "integ": dict(trace="TraceInteg"),
    "curves": dict(trace="TraceCurves"),
    "geom": dict(trace="TraceGeom"),
    "robot": dict(trace="TraceRobot", cfg="TraceRobot.cfg"),
    "ik": dict(trace="TraceIK", cfg="TraceIK.cfg"),
    "id": dict(trace="TraceID", cfg="TraceID.cfg"),
    "walk": dict(trace="TraceWalk"),
    "wpg": dict(trace="TraceWpg"),
    "humanoid": dict(trace="TraceHumanoid", cfg="TraceHumanoid.cfg"),
}

QP_ASSUME = ["hard equalities are linearly independent", "strictly convex objective (positive regularization)",
             "contradictory hard constraints are generated with a regularization of at least 1e-3 (see known finding F01)"]
ROBOT_ASSUME = ["robots are random trees of revolute and prismatic joints with a floating base",
                "kinematic queries are made when the state has not changed since the last update_kinematics (their documented precondition)"]
QP = [dict(area="qp", name="histories", quick=480, thorough=20000),
      dict(area="qp", name="options", quick=240, thorough=6000),
      dict(area="qp", name="large", quick=64, thorough=2000),
      dict(area="qp", name="replay", beh="MCQP")]
IK_ASSUME = ["robots are random trees of revolute and prismatic joints with a floating base", "hard equalities are linearly independent",
             "solves are made after update_kinematics (documented precondition), away from the singular configurations of the tasks",
             "contradictory problems are generated with a regularization of 1e-2 (known finding F01)"]
ID_ASSUME = ["robots are random trees of revolute and prismatic joints with a floating base", "hard equalities are linearly independent",
             "solves are made after update_kinematics (documented precondition)", "speeds up to 1.5 rad/s or m/s (derivatives of jacobians are taken by finite differences)",
             "the gain kp of torque tasks is zero", "collision avoidance is specified for spheres, at rest or between translating bodies"]
WALK_ASSUME = ["feet are on a flat floor", "requests exactly on a limit, or soles that exactly touch, may be decided either way"]
WPG_ASSUME = ["feet are on a flat floor", "replanning times are not exactly at a change of phase or of the number of planning steps",
              "soft programs are generated with weights within four orders of magnitude (accuracy of the QP solver)",
              "the areas given to update_supports are symmetric rectangles"]
HUM_ASSUME = ["bipeds with six joints per leg, whose neutral configuration has bent knees where poses are to be reached (straight legs are singular)", "the yaw of a support is defined (its x axis is not vertical)",
              "kinematic queries are made when the state has not changed since the last update_kinematics"]
PROPS = {
    "C01": dict(mc=["MCQP"], scenarios=QP + [dict(area="qp", name="findings", quick=1, thorough=1)], assumptions=QP_ASSUME),
    "C02": dict(mc=["MCQP", "MCCols"], scenarios=QP + [dict(area="expr", name="sparsity", quick=600, thorough=20000),
                                                       dict(area="expr", name="replay", beh="MCCols")], assumptions=QP_ASSUME),
    "C03": dict(mc=["MCQP"], scenarios=QP, assumptions=QP_ASSUME),
    "C04": dict(mc=["MCExpr"], scenarios=[
        dict(area="expr", name="programs", quick=1200, thorough=30000),
        dict(area="expr", name="helpers", quick=600, thorough=10000),
        dict(area="expr", name="replay", beh="MCExpr")]),
    "C05": dict(mc=["MCInteg"], scenarios=[
        dict(area="integ", name="integrators", quick=800, thorough=8000),
        dict(area="integ", name="lipm", quick=160, thorough=4000),
        dict(area="integ", name="replay", beh="MCInteg")]),
    "C06": dict(mc=["MCInteg"], scenarios=[dict(area="integ", name="lipm", quick=800, thorough=8000)]),
    "C07": dict(mc=["MCCurves"], scenarios=[
        dict(area="curves", name="splines", quick=1280, thorough=20000),
        dict(area="curves", name="polynoms", quick=640, thorough=8000),
        dict(area="curves", name="replay", beh="MCCurves", shards=8)]),
    "C08": dict(mc=["MCCurves"], scenarios=[dict(area="curves", name="swings", quick=960, thorough=12000)]),
    "C09": dict(mc=["MCGeom"], scenarios=[
        dict(area="geom", name="segments", quick=1280, thorough=20000),
        dict(area="geom", name="tools", quick=1280, thorough=20000),
        dict(area="geom", name="replay", beh="MCGeom", shards=8)]),
    "C10": dict(mc=["MCRobot"], scenarios=[
        dict(area="robot", name="state", quick=500, thorough=12000),
        dict(area="robot", name="jac", quick=80, thorough=2000),
        dict(area="robot", name="mjcf", quick=150, thorough=4000),
        dict(area="robot", name="replay", beh="MCRobot", shards=8)], assumptions=ROBOT_ASSUME),
    "C11": dict(mc=["MCRobot"], scenarios=[
        dict(area="robot", name="jac", quick=500, thorough=12000),
        dict(area="robot", name="state", quick=80, thorough=2000),
        dict(area="robot", name="dyn", quick=80, thorough=2000),
        dict(area="robot", name="mjcf", quick=100, thorough=4000),
        dict(area="robot", name="replay", beh="MCRobot", shards=8)], assumptions=ROBOT_ASSUME),
    "C12": dict(mc=["MCRobot"], scenarios=[
        dict(area="robot", name="dyn", quick=400, thorough=12000),
        dict(area="robot", name="jac", quick=80, thorough=2000),
        dict(area="robot", name="state", quick=80, thorough=2000),
        dict(area="robot", name="mjcf", quick=100, thorough=4000),
        dict(area="robot", name="replay", beh="MCRobot", shards=8)], assumptions=ROBOT_ASSUME),
    "C14": dict(mc=["MCIK"], scenarios=[
        dict(area="ik", name="solve", quick=480, thorough=16000),
        dict(area="ik", name="constraints", quick=120, thorough=4000),
        dict(area="ik", name="life", quick=80, thorough=4000),
        dict(area="ik", name="infeasible", quick=320, thorough=8000),
        dict(area="ik", name="replay", beh="MCIK", shards=8)], assumptions=IK_ASSUME),
    "C15": dict(mc=["MCIK"], scenarios=[
        dict(area="ik", name="solve", quick=640, thorough=16000),
        dict(area="ik", name="constraints", quick=160, thorough=4000),
        dict(area="ik", name="life", quick=80, thorough=4000),
        dict(area="ik", name="replay", beh="MCIK", shards=8)], assumptions=IK_ASSUME),
    "C16": dict(mc=["MCIK"], scenarios=[
        dict(area="ik", name="tasks", quick=800, thorough=16000),
        dict(area="ik", name="replay", beh="MCIK", shards=8)], assumptions=IK_ASSUME),
    "C17": dict(mc=["MCIK"], scenarios=[dict(area="ik", name="constraints", quick=640, thorough=16000),
        dict(area="ik", name="life", quick=120, thorough=4000)], assumptions=IK_ASSUME),
    "C18": dict(mc=["MCIK"], scenarios=[
        dict(area="ik", name="life", quick=400, thorough=16000),
        dict(area="id", name="life", quick=240, thorough=8000),
        dict(area="ik", name="replay", beh="MCIK", shards=8)], assumptions=IK_ASSUME),
    "C19": dict(mc=["MCID"], scenarios=[
        dict(area="id", name="contacts", quick=480, thorough=16000),
        dict(area="id", name="limits", quick=120, thorough=4000),
        dict(area="id", name="tasks", quick=80, thorough=4000),
        dict(area="id", name="life", quick=80, thorough=4000),
        dict(area="id", name="infeasible", quick=240, thorough=8000),
        dict(area="id", name="replay", beh="MCID", shards=8)], assumptions=ID_ASSUME),
    "C20": dict(mc=["MCID"], scenarios=[
        dict(area="id", name="limits", quick=640, thorough=16000),
        dict(area="id", name="contacts", quick=120, thorough=4000),
        dict(area="id", name="tasks", quick=80, thorough=4000),
        dict(area="id", name="life", quick=80, thorough=4000),
        dict(area="id", name="replay", beh="MCID", shards=8)], assumptions=ID_ASSUME),
    "C21": dict(mc=["MCID"], scenarios=[
        dict(area="id", name="tasks", quick=480, thorough=16000),
        dict(area="id", name="limits", quick=120, thorough=4000),
        dict(area="id", name="life", quick=80, thorough=4000),
        dict(area="id", name="contacts", quick=240, thorough=8000),
        dict(area="id", name="replay", beh="MCID", shards=8)], assumptions=ID_ASSUME),
    "C22": dict(mc=["MCWalk"], scenarios=[
        dict(area="walk", name="plans", quick=800, thorough=20000),
        dict(area="walk", name="supports", quick=160, thorough=4000),
        dict(area="walk", name="replay", beh="MCWalk", shards=8)], assumptions=WALK_ASSUME),
    "C23": dict(mc=["MCWalk"], scenarios=[
        dict(area="walk", name="supports", quick=800, thorough=20000),
        dict(area="walk", name="replay", beh="MCWalk", shards=8)], assumptions=WALK_ASSUME),
    "C24": dict(mc=["MCWpg"], scenarios=[
        dict(area="wpg", name="plans", quick=960, thorough=16000),
        dict(area="wpg", name="measure", quick=120, thorough=4000),
        dict(area="wpg", name="replans", quick=240, thorough=8000)], assumptions=WPG_ASSUME),
    "C25": dict(mc=["MCWpg"], scenarios=[
        dict(area="wpg", name="plans", quick=960, thorough=16000),
        dict(area="wpg", name="replans", quick=240, thorough=8000)], assumptions=WPG_ASSUME),
    "C26": dict(mc=["MCWpg"], scenarios=[
        dict(area="wpg", name="replans", quick=480, thorough=8000),
        dict(area="wpg", name="measure", quick=320, thorough=8000),
        dict(area="wpg", name="replay", beh="MCWpg", shards=8)], assumptions=WPG_ASSUME),
    "C27": dict(mc=["MCHumanoid"], scenarios=[
        dict(area="humanoid", name="tasks", quick=320, thorough=12000),
        dict(area="humanoid", name="initial", quick=320, thorough=8000),
        dict(area="humanoid", name="dummy", quick=480, thorough=12000),
        dict(area="humanoid", name="replay", beh="MCHumanoid", shards=8)], assumptions=HUM_ASSUME),
    "C28": dict(mc=["MCHumanoid"], scenarios=[
        dict(area="humanoid", name="support", quick=640, thorough=16000),
        dict(area="humanoid", name="measures", quick=240, thorough=8000),
        dict(area="humanoid", name="replay", beh="MCHumanoid", shards=8)], assumptions=HUM_ASSUME),
    "C13": dict(mc=["MCRobot"], scenarios=[dict(area="robot", name="coll", quick=600, thorough=12000)], assumptions=ROBOT_ASSUME),
}
