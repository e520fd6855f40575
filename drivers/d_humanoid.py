"""Humanoid robot, walk tasks and quasi-static walk (spec/Humanoid.tla)."""
import numpy as np
import placo
from common import raises, rand_rot, rot, rotz, frame, rand_frame
from robotgen import Humanoid, load, rpy
from d_walk import SIDE, NAME, PAR, params, record_par, rand_step, pose, feet, plan_repetitive

F = np.asfortranarray


class Hum:
    def __init__(self, rng, rec, gen=None):
        self.rng, self.rec = rng, rec
        self.g = g = gen or Humanoid(rng)
        self.r = load(g, cls=placo.HumanoidRobot)
        self.fi = {f[0]: i + 1 for i, f in enumerate(g.frames)}
        rec("Load", left=self.fi["left_foot"], right=self.fi["right_foot"], trunk=self.fi["trunk"], **g.fields())
        rec("Stand0")

    def set_q(self, q):
        for n, x in zip(self.g.names, q):
            self.r.set_joint(n, float(x))
        self.rec("Joints", q=q)

    def joints(self, wide=1.0):
        q = np.array([self.rng.uniform(max(a, -1.5), min(b, 1.5)) * wide for a, b in zip(self.g.lo, self.g.hi)])
        self.set_q(q)

    def vel(self):
        v = self.rng.uniform(-2, 2, self.g.n + 6)
        self.r.state.qd = v
        self.rec("Vel", v=v)

    def update(self):
        self.r.update_kinematics()
        self.rec("Update")

    def pose(self):
        r = self.r
        self.rec("Pose", side=NAME[r.support_side] if self.rng.random() < 0.5 else NAME[r.get_support_side()], T=np.array(r.get_T_world_support()),
                 base=np.array(r.get_T_world_fbase()), left=np.array(r.get_T_world_left()), right=np.array(r.get_T_world_right()), trunk=np.array(r.get_T_world_trunk()))

    def standing(self, name, R=None):
        self.rec("Standing", support=np.array(self.r.get_T_world_frame(name)), imu=R is not None, R=np.eye(3) if R is None else R, trunk=np.array(self.r.get_T_world_trunk()))

    def observe(self):
        self.rec("Observe", q=[float(self.r.get_joint(n)) for n in self.g.names], base=np.array(self.r.get_T_world_fbase()))


def op_support(rng, rec, h, state):
    """One operation on the support; state["f"] is the name of the support frame as of our own bookkeeping (used to query it)."""
    r = h.r
    u = rng.random()
    if u < 0.25:
        h.joints(float(rng.choice([0.3, 1.0])))
        if rng.random() < 0.3:
            T = rand_frame(rng, 1.0)
            r.set_T_world_fbase(F(T))
            rec("Base", T=T)
        if rng.random() < 0.7:
            h.update()
            h.pose()
    elif u < 0.5:
        side = str(rng.choice(["left", "right"]))
        if rng.random() < 0.6:
            r.update_support_side(side)
            rec("Side", side=side)
            state["f"] = side + "_foot"
        else:
            f = side + str(rng.choice(["_foot", "_ps_0", "_ps_2", "_l4"]))
            r.update_support_side_with_frame(side, f)
            rec("SideFrame", side=side, f=h.fi[f])
            state["f"] = f
    elif u < 0.58:
        T = pose(*rng.uniform(-2, 2, 2), rng.uniform(-3, 3)) if rng.random() < 0.6 else rand_frame(rng, 1.0)
        r.set_T_world_support(F(T))
        rec("SetSupport", T=T)
    elif u < 0.8:
        r.ensure_on_floor()
        rec("Floor")
        h.standing(state["f"])
        h.pose()
    else:
        R = rand_rot(rng, big=rng.random() < 0.5)
        (r.update_from_imu if rng.random() < 0.5 else r.ensure_on_floor_oriented)(F(R))
        rec("Imu", R=R)
        h.standing(state["f"], R)
        h.pose()


def s_support(rng, rec, k):
    h = Hum(rng, rec)
    h.pose()
    st = dict(f="left_foot")
    for _ in range(14):
        op_support(rng, rec, h, st)
    h.pose()


def s_measures(rng, rec, k):
    h = Hum(rng, rec)
    r, n = h.r, h.g.n
    st = dict(f="left_foot")
    for _ in range(2):
        op_support(rng, rec, h, st)
        h.joints(0.7)
        h.vel()
        h.update()
        w = float(rng.uniform(2, 8))
        v, a = rng.uniform(-1, 1, 2), rng.uniform(-3, 3, 2)
        rec("Dcm", omega=w, v=v, a=a, dcm=np.array(r.dcm(w, v)), zmp=np.array(r.zmp(w, a)))
        side = str(rng.choice(["left", "right"]))
        om = rng.uniform(-2, 2, 3)
        cv = np.array(r.get_com_velocity(SIDE[side], om))
        J = np.vstack([np.array(r.frame_jacobian(side + "_foot", "local"))[:3], np.array(r.frame_jacobian("trunk", "local"))[3:]])
        vb = np.linalg.solve(J[:, :6], np.append(np.zeros(3), om) - J[:, 6:] @ np.array(r.state.qd)[6:])
        rec("ComVel", side=side, omega=om, vel=cv, base=vb)
    acc, f = rng.uniform(-4, 4, n), rng.uniform(0, 20, 8)
    names = [f"left_ps_{i}" for i in range(4)] + [f"right_ps_{i}" for i in range(4)]
    for nle in [False, True]:
        tau = np.array(r.get_torques(acc, f, nle))
        d = r.get_torques_dict(acc, f, nle)
        M = np.array(r.mass_matrix())
        hh = np.array(r.non_linear_effects() if nle else r.generalized_gravity())
        Jc = np.array([np.array(r.frame_jacobian(x, "local"))[2] for x in names])
        ab = np.linalg.solve(M[:6, :6], (Jc.T @ f - hh)[:6] - M[:6, 6:] @ acc)
        rec("Torques", acc=acc, f=f, nle=nle, tau=tau, dict=[d[x] for x in h.g.names], base_acc=ab, ps=[h.fi[x] for x in names])


def tasks_event(rec, h, s, w, mode, scaled):
    e = w.get_tasks_error()
    get = lambda k: [e[f"{k}_{c}"] for c in "xyz"]
    m = "trunk" if "trunk_position_x" in e else "com"
    c = w.com_task if mode == "com" else w.trunk_task
    lp, lo, rp, ro, to = w.left_foot_task.position(), w.left_foot_task.orientation(), w.right_foot_task.position(), w.right_foot_task.orientation(), w.trunk_orientation_task
    rec("WTasks", count=s.tasks_count(), solver=w.solver.tasks_count(), scaled=scaled, prio=[x.priority for x in (lp, lo, rp, ro, to, c)],
        L=frame(np.array(lo.R_world_frame), np.array(lp.target_world)), R=frame(np.array(ro.R_world_frame), np.array(rp.target_world)),
        trunk=np.array(to.R_world_frame), com=np.array(c.target_world),
        errors=dict(mode=m, lp=get("left_foot_position"), lo=get("left_foot_orientation"), rp=get("right_foot_position"), ro=get("right_foot_orientation"),
                    to=get("trunk_orientation"), com=get("com_position" if m == "com" else "trunk_position")))


def s_tasks(rng, rec, k):
    h = Hum(rng, rec)
    r = h.r
    h.joints(0.5)
    h.update()
    s = placo.KinematicsSolver(r)
    w = placo.WalkTasks()
    mode = str(rng.choice(["com", "trunk"]))
    w.trunk_mode = mode == "trunk"
    w.scaled = scaled = bool(rng.random() < 0.3)
    w.initialize_tasks(s, r)
    rec("WInit", mode=mode)
    tasks_event(rec, h, s, w, mode, scaled)
    cx = cy = 0.0
    p, wpg, traj = None, None, None
    for _ in range(5):
        u = rng.random()
        if u < 0.25:
            w.com_x, w.com_y = cx, cy = float(rng.uniform(-0.1, 0.1)), float(rng.uniform(-0.1, 0.1))
        elif u < 0.5:
            mode = str(rng.choice(["com", "trunk"]))
            w.trunk_mode = mode == "trunk"
            if rng.random() < 0.5:     # what is asked for takes effect at the next update, the errors stay those of the tasks
                w.get_tasks_error()
        elif u < 0.7:
            h.joints(0.5)
            h.update()
        if rng.random() < 0.5:
            L, R, c, T = rand_frame(rng, 0.5, False), rand_frame(rng, 0.5, False), rng.uniform(-1, 1, 3), rand_rot(rng, False)
            w.update_tasks(F(L), F(R), c, F(T))
        else:
            if traj is None:
                p = params(rng)
                p.zmp_reference_weight = 0.5
                wpg = placo.WalkPatternGenerator(r, p)
                pl = placo.FootstepsPlannerRepetitive(p)
                pl.configure(0.02, 0.0, 0.1, 3)
                fs = pl.plan(SIDE["left"], F(pose(0, p.feet_spacing / 2, 0)), F(pose(0, -p.feet_spacing / 2, 0)))
                traj = wpg.plan(placo.FootstepsPlanner.make_supports(fs, 0.0, True, p.has_double_support(), True), np.array([0.0, 0.0, p.walk_com_height]), 0.0)
            t = float(rng.uniform(0, traj.t_end))
            w.update_tasks_from_trajectory(traj, t)
            L, R, c, T = [np.array(x) for x in (traj.get_T_world_left(t), traj.get_T_world_right(t), traj.get_p_world_CoM(t), traj.get_R_world_trunk(t))]
        rec("WUpdate", mode=mode, L=L, R=R, com=c, trunk=T, com_x=cx, com_y=cy)
        tasks_event(rec, h, s, w, mode, scaled)
    if rng.random() < 0.6:
        w.remove_tasks()
        rec("WRemove", count=s.tasks_count())
        if rng.random() < 0.5:
            w.initialize_tasks(s, r)
            rec("WInit", mode=mode)
            tasks_event(rec, h, s, w, mode, scaled)


def s_initial(rng, rec, k):
    h = Hum(rng, rec, Humanoid(rng, bent=0.5))
    r = h.r
    s = placo.KinematicsSolver(r)
    w = placo.WalkTasks()
    mode = str(rng.choice(["com", "trunk"]))
    w.trunk_mode = mode == "trunk"
    if rng.random() < 0.3:
        w.com_x, w.com_y = float(rng.uniform(-0.02, 0.02)), float(rng.uniform(-0.02, 0.02))
    w.initialize_tasks(s, r)
    rec("WInit", mode=mode)
    L = pose(*rng.uniform(-1, 1, 2), rng.uniform(-2.9, 2.9) if rng.random() < 0.5 else rng.uniform(-0.8, 0.8))
    sp, he, pi = float(rng.uniform(0.1, 0.18)), float(rng.uniform(0.22, 0.25) if mode == "com" else rng.uniform(0.3, 0.34)), float(rng.uniform(-0.1, 0.3))
    rec("WReach", mode=mode, L=L, spacing=sp, height=he, pitch=pi, com_x=w.com_x, com_y=w.com_y)
    w.reach_initial_pose(F(L), sp, he, pi)
    h.observe()
    h.update()
    tasks_event(rec, h, s, w, mode, False)
    rec("WReached", tol=1e-4)


def dummy_event(rec, walk, e, **kw):
    rec(e, left=walk.support_left, L=np.array(walk.T_world_left), R=np.array(walk.T_world_right), next=np.array(walk.T_world_next), **kw)


def new_walk(rng, rec):
    g = Humanoid(rng, noisy=bool(rng.random() < 0.5), bent=0.5)
    h = Hum(rng, rec, g)
    p = params(rng, walk_com_height=float(rng.uniform(0.3, 0.34)), walk_trunk_pitch=float(rng.uniform(0, 0.2)), walk_foot_height=float(rng.uniform(0.02, 0.06)),
               walk_foot_rise_ratio=float(rng.uniform(0.05, 0.8)), walk_max_dtheta=float(rng.uniform(0.1, 0.4)), foot_width=0.06, feet_spacing=float(rng.uniform(0.09, 0.16)))
    record_par(rec, p)
    d = placo.DummyWalk(h.r, p)
    dummy_event(rec, d, "DReset", support=False)
    return h, p, d


def d_update(rec, h, d, t, settle):
    for _ in range(8 if settle else 1):
        d.update(t)
    r = h.r
    dummy_event(rec, d, "DUpdate", t=t, settled=settle, lift=float(d.lift_spline.pos(t)), robot_left=np.array(r.get_T_world_frame("left_foot")),
                robot_right=np.array(r.get_T_world_frame("right_foot")), robot_trunk=np.array(r.get_T_world_frame("trunk")))


def d_next(rec, d, s):
    d.next_step(*[float(x) for x in s])
    dummy_event(rec, d, "DNext", d=s, asked=[d.dx, d.dy, d.dtheta])


def d_move(rec, h, d, T):
    h.r.update_kinematics()
    d.update_T_world_support(F(T))
    dummy_event(rec, d, "DMove", T=T, support=np.array(h.r.get_T_world_frame("left_foot" if d.support_left else "right_foot")))


def d_reset(rec, d, left):
    if left is None:
        d.reset()
    else:
        d.reset(left)
    dummy_event(rec, d, "DReset", support=bool(left))


def s_dummy(rng, rec, k):
    h, p, d = new_walk(rng, rec)
    for _ in range(7):
        u = rng.random()
        if u < 0.1:
            d_reset(rec, d, [None, True, False][int(rng.integers(3))])
        elif u < 0.3:
            T = pose(*rng.uniform(-2, 2, 2), rng.uniform(-3, 3))
            if rng.random() < 0.3:
                T = T @ frame(rot(rng.normal(size=3) * 0.1), rng.normal(size=3) * 0.1)
            d_move(rec, h, d, T)
        else:
            d_next(rec, d, rand_step(rng, p))
        if rng.random() < 0.6:
            d_update(rec, h, d, float(rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 1)])), bool(rng.random() < 0.5))


class Small:
    """The humanoid of spec/MCHumanoid.tla."""
    n, names = 3, ["l0", "l1", "r0"]
    lo, hi, vmax, tmax = [-10.0] * 3, [10.0] * 3, [1.0] * 3, [1.0] * 3
    base0 = np.eye(4)
    fields = Humanoid.fields

    def __init__(self):
        x = '<robot name="s">'
        for n, m, c in [("base", 2, "0 0 1"), ("left_a", 1, "1 0 0"), ("left_foot", 3, "0 2 0"), ("right_a", 1, "1 1 0")]:
            x += f'<link name="{n}"><inertial><origin xyz="{c}" rpy="0 0 0"/><mass value="{m}"/><inertia ixx="2" iyy="3" izz="4" ixy="0" ixz="0" iyz="0"/></inertial></link>'
        x += '<link name="trunk"/><link name="right_foot"/>'
        j = lambda n, t, p, c, o, a: (f'<joint name="{n}" type="{t}"><parent link="{p}"/><child link="{c}"/><origin xyz="{o}" rpy="0 0 0"/>' +
                                      (f'<axis xyz="{a}"/><limit lower="-10" upper="10" velocity="1" effort="1"/>' if a else "") + "</joint>")
        x += j("l0", "revolute", "base", "left_a", "0 1 -3", "0 0 1") + j("l1", "prismatic", "left_a", "left_foot", "1 0 0", "0 0 1")
        x += j("r0", "revolute", "base", "right_a", "0 -1 -3", "1 0 0") + j("ft", "fixed", "base", "trunk", "0 0 1", None) + j("fr", "fixed", "right_a", "right_foot", "0 -1 -1", None)
        self.urdf = x + "</robot>"
        T = lambda *p: frame(np.eye(3), np.array(p, float))
        self.joints = [dict(parent=0, T=np.eye(4), kind="F", axis=np.zeros(3)), dict(parent=1, T=T(0, 1, -3), kind="R", axis=[0, 0, 1]),
                       dict(parent=2, T=T(1, 0, 0), kind="P", axis=[0, 0, 1]), dict(parent=1, T=T(0, -1, -3), kind="R", axis=[1, 0, 0])]
        self.bodies = [dict(joint=i + 1, m=m, c=c, I=np.diag([2, 3, 4])) for i, (m, c) in enumerate([(2, [0, 0, 1]), (1, [1, 0, 0]), (3, [0, 2, 0]), (1, [1, 1, 0])])]
        self.frames = [("trunk", 1, T(0, 0, 1)), ("left_foot", 3, T(0, 0, 0)), ("right_foot", 4, T(0, -1, -1))]




def s_replay(rng, rec, b):
    num = lambda M: np.array([[float(x) for x in r] for r in M])
    if b["mode"] == "stand":
        h = Hum(rng, rec, Small())
        r = h.r
        f = "left_foot"
        for o in b["hist"]:
            if o["op"] == "joint":
                q = [float(r.get_joint(x)) for x in h.g.names]
                q[o["j"] - 1] = float(o["x"])
                h.set_q(q)
            elif o["op"] == "update":
                h.update()
                h.pose()
            elif o["op"] == "side":
                r.update_support_side(o["side"])
                rec("Side", side=o["side"])
                f = o["side"] + "_foot"
                h.pose()
            elif o["op"] == "floor":
                r.ensure_on_floor()
                rec("Floor")
                h.standing(f)
                h.pose()
            else:
                R = num(o["R"])
                r.update_from_imu(F(R))
                rec("Imu", R=R)
                h.standing(f, R)
                h.pose()
        r.ensure_on_floor()
        rec("Floor")
        h.standing(f)
        h.pose()
    else:
        h, p, d = new_walk(np.random.default_rng(7), rec)
        for k, v in dict(feet_spacing=0.14, foot_width=0.08, foot_length=0.12, walk_max_dx_forward=0.08, walk_max_dx_backward=0.04, walk_max_dy=0.05,
                         walk_max_dtheta=0.3, walk_dtheta_spacing=0.0, walk_foot_height=0.04, walk_foot_rise_ratio=0.2, walk_com_height=0.32, walk_trunk_pitch=0.1).items():
            setattr(p, k, v)
        record_par(rec, p)
        d_reset(rec, d, False)
        for o in b["hist"]:
            if o["op"] == "next":
                d_next(rec, d, [float(x) for x in o["d"]])
            elif o["op"] == "move":
                d_move(rec, h, d, num(o["T"]))
            else:
                d_reset(rec, d, o["left"])
            d_update(rec, h, d, 0.5, False)
