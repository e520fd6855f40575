"""Robot model (spec/Robot.tla): random robots, histories of state changes and queries."""
import json, os
import numpy as np
import placo
from common import raises, rand_frame, mat
from robotgen import Gen, Scratch, INF

REFS = {"world": "world", "local": "local", "lwa": "local_world_aligned"}


class Sim:
    def __init__(self, rng, rec, gen, flags=0, collisions=None, mode="content"):
        self.rng, self.rec, self.g = rng, rec, gen
        with Scratch() as d:
            if collisions is not None:
                json.dump(collisions, open(os.path.join(d, "collisions.json"), "w"))
            if mode == "mjcf":
                open(os.path.join(d, "robot.xml"), "w").write(gen.mjcf(rand_frame(rng, 1.0)))
                r = placo.RobotWrapper(d, flags | 4)
            elif mode == "content":
                r = placo.RobotWrapper(d, flags, gen.urdf)
            else:
                open(os.path.join(d, "robot.urdf"), "w").write(gen.urdf)
                r = placo.RobotWrapper(d if mode == "dir" else os.path.join(d, "robot.urdf"), flags)
        self.r = r
        N = gen.names
        lim = [r.get_joint_limits(x) for x in N]
        rec("Load", impl_joints=list(r.joint_names()), impl_offsets=[r.get_joint_offset(x) for x in N], impl_voffsets=[r.get_joint_v_offset(x) for x in N],
            impl_sizes=[r.get_joint_size(x) for x in N], impl_vsizes=[r.get_joint_v_size(x) for x in N], impl_frames=list(r.frame_names()),
            impl_lo=[float(a[0]) for a in lim], impl_hi=[float(a[1]) for a in lim], impl_all=list(r.joint_names(True)), mass=r.total_mass(), **gen.fields())
        self.n = gen.n
        # the constructor updates the kinematics of the neutral state
        rec("Update")
        self.fresh = True

    # ---- edits
    def joint(self):
        j = int(self.rng.integers(self.n))
        return j, self.g.names[j]

    def value(self, j):
        lo, hi = max(self.g.lo[j], -3.0), min(self.g.hi[j], 3.0)
        return float(self.rng.choice([self.rng.uniform(lo, hi), lo, hi, 0.0, self.rng.uniform(-4, 4)], p=[0.7, 0.05, 0.05, 0.05, 0.15]))

    def ed_joint(self):
        j, name = self.joint()
        x = self.value(j)
        self.r.set_joint(name, x)
        self.rec("SetJoint", j=j + 1, x=x)
        self.fresh = False

    def ed_joints(self):
        for j, name in enumerate(self.g.names):
            x = self.value(j)
            self.r.set_joint(name, x)
            self.rec("SetJoint", j=j + 1, x=x)
        self.fresh = False

    def fast(self):
        return float(self.rng.choice([1, 1, 1, 0.01, 10]))

    def ed_vel(self):
        j, name = self.joint()
        x = float(self.rng.uniform(-3, 3)) * self.fast()
        if self.rng.random() < 0.5:
            self.r.set_joint_velocity(name, x)
            self.rec("SetVel", j=j + 1, x=x)
            self.fresh = False
        else:
            self.r.set_joint_acceleration(name, x)
            self.rec("SetAcc", j=j + 1, x=x)

    def ed_v(self):
        v = self.rng.uniform(-2, 2, self.n + 6) * self.fast()
        self.r.state.qd = v
        self.rec("SetV", v=v)
        self.fresh = False

    def ed_a(self):
        a = self.rng.uniform(-5, 5, self.n + 6) * self.fast()
        self.r.state.qdd = a
        self.rec("SetA", a=a)

    def ed_base(self):
        T = rand_frame(self.rng, 2.0)
        self.r.set_T_world_fbase(T)
        self.rec("SetBase", T=T)
        self.fresh = False

    def ed_frame(self):
        self.refresh()
        f = int(self.rng.integers(len(self.g.frames)))
        T = rand_frame(self.rng, 2.0)
        self.r.set_T_world_frame(self.g.frames[f][0], T)
        self.rec("SetFrame", f=f + 1, T=T)
        self.fresh = False

    def ed_reset(self):
        if self.rng.random() < 0.3:
            # the neutral state, without changing the robot
            n = self.r.neutral_state()
            self.rec("Neutral", q=np.array(n.q)[7:], base=np.array(n.q)[:7], v=np.array(n.qd), a=np.array(n.qdd))
            return
        self.r.reset()
        self.rec("ResetState")
        self.fresh = False

    def ed_limits(self):
        j, name = self.joint()
        a, b = sorted(float(x) for x in self.rng.uniform(-3, 3, 2))
        self.r.set_joint_limits(name, a, b)
        self.g.lo[j], self.g.hi[j] = a, b
        self.rec("SetLimits", j=j + 1, lo=a, hi=b)

    def ed_motors(self):
        """Other limits of the velocities, torques and positions of the joints."""
        rng, g = self.rng, self.g
        k = int(rng.integers(3))
        if k == 0:
            x = float(rng.uniform(0.3, 4))
            self.r.set_velocity_limits(x)
            g.vmax = [x] * g.n
        else:
            for j in range(g.n):
                if rng.random() < 0.5:
                    g.vmax[j] = float(rng.uniform(0.3, 4))
                    self.r.set_velocity_limit(g.names[j], g.vmax[j])
        if k == 1:
            for j in range(g.n):
                if rng.random() < 0.5:
                    g.tmax[j] = float(rng.uniform(3, 30))
                    self.r.set_torque_limit(g.names[j], g.tmax[j])
        self.rec("SetMotors", vmax=g.vmax, tmax=g.tmax)
        for j in range(g.n):
            if rng.random() < 0.2:
                c, h = float(rng.uniform(-1, 1)), float(rng.uniform(0.2, 1.5))
                self.r.set_joint_limits(g.names[j], c - h, c + h)
                g.lo[j], g.hi[j] = c - h, c + h
                self.rec("SetLimits", j=j + 1, lo=c - h, hi=c + h)

    def ed_integrate(self):
        dt = float(self.rng.choice([0.001, 0.05, 0.3]))
        self.r.integrate(dt)
        self.rec("Integrate", dt=dt)
        self.fresh = False

    def ed_noise(self):
        noise = float(self.rng.choice([0.0, 1.0, self.rng.uniform(0, 1)]))
        self.r.add_q_noise(noise)
        self.rec("Noise", noise=noise, q=[float(self.r.get_joint(x)) for x in self.g.names], base=np.array(self.r.get_T_world_fbase()))
        self.fresh = False

    def ed_gravity(self):
        g = self.rng.uniform(-10, 10, 3)
        self.r.set_gravity(g)
        self.rec("SetGravity", g=g)

    def ed_rotor(self):
        j, name = self.joint()
        i, k = float(self.rng.uniform(0, 0.01)), float(self.rng.choice([self.rng.uniform(1, 50), self.rng.uniform(-50, -1), self.rng.uniform(-1, 1)]))
        self.r.set_rotor_inertia(name, i)
        self.r.set_gear_ratio(name, k)
        self.rec("SetRotor", j=j + 1, x=i * k * k)

    def refresh(self):
        if not self.fresh or self.rng.random() < 0.1:
            self.r.update_kinematics()
            self.rec("Update")
            self.fresh = True

    # ---- queries
    def q_get(self):
        j, name = self.joint()
        r = self.r
        self.rec("Get", j=j + 1, q=float(r.get_joint(name)), v=float(r.get_joint_velocity(name)), a=float(r.get_joint_acceleration(name)))

    def q_state(self):
        s = self.r.state
        q, v, a = np.array(s.q), np.array(s.qd), np.array(s.qdd)
        self.rec("State", q=q[7:], v=v, a=a, quat=q[3:7], base=np.array(self.r.get_T_world_fbase()))

    def q_unknown(self):
        r = self.r
        bad = str(self.rng.choice(["", "nope", "J01", "link01", "universe_"]))
        fs = [lambda: r.get_joint(bad), lambda: r.set_joint(bad, 0.0), lambda: r.get_joint_velocity(bad), lambda: r.set_joint_velocity(bad, 0.0),
              lambda: r.get_joint_acceleration(bad), lambda: r.set_joint_acceleration(bad, 0.0), lambda: r.get_joint_offset(bad),
              lambda: r.get_joint_v_offset(bad), lambda: r.get_joint_size(bad), lambda: r.get_joint_v_size(bad), lambda: r.set_joint_limits(bad, 0.0, 1.0),
              lambda: r.set_velocity_limit(bad, 1.0), lambda: r.set_torque_limit(bad, 1.0), lambda: r.get_joint_limits(bad),
              lambda: r.set_rotor_inertia(bad, 1.0), lambda: r.set_gear_ratio(bad, 1.0), lambda: r.joint_jacobian(bad, "local")]
        badf = str(self.rng.choice(["", "nope", "Base"]))
        T = rand_frame(self.rng)
        fs += [lambda: r.get_T_world_frame(badf), lambda: r.get_T_a_b("base", badf), lambda: r.get_T_a_b(badf, "base"), lambda: r.set_T_world_frame(badf, T),
               lambda: r.frame_jacobian(badf, "local"), lambda: r.frame_jacobian_time_variation(badf, "local"),
               lambda: r.frame_jacobian("base", "Local"), lambda: r.relative_position_jacobian("base", badf), lambda: r.relative_position_jacobian(badf, "base"),
               lambda: r.static_gravity_compensation_torques(badf),
               lambda: r.get_frame_hessian(badf, self.g.names[0])]
        self.rec("Unknown", ok=[not raises(f)[0] for f in fs])

    def q_limits(self):
        lim = [self.r.get_joint_limits(x) for x in self.g.names]
        self.rec("Limits", lo=[float(a[0]) for a in lim], hi=[float(a[1]) for a in lim])

    def fr(self):
        f = int(self.rng.integers(len(self.g.frames)))
        return f, self.g.frames[f][0]

    def q_frame(self):
        self.refresh()
        f, name = self.fr()
        self.rec("Frame", f=f + 1, T=np.array(self.r.get_T_world_frame(name)))

    def q_ab(self):
        self.refresh()
        f, fn = self.fr()
        g, gn = self.fr()
        if self.rng.random() < 0.4:
            # two frames of a same body
            same = [i for i, x in enumerate(self.g.frames) if x[1] == self.g.frames[f][1]]
            g = int(self.rng.choice(same))
            gn = self.g.frames[g][0]
        self.rec("FrameAB", f=f + 1, g=g + 1, T=np.array(self.r.get_T_a_b(fn, gn)))

    def ref(self):
        return str(self.rng.choice(list(REFS)))

    def q_fjac(self):
        self.refresh()
        f, name = self.fr()
        ref = self.ref()
        self.rec("FrameJac", f=f + 1, ref=ref, J=np.array(self.r.frame_jacobian(name, REFS[ref])))

    def q_jjac(self):
        self.refresh()
        j, name = self.joint()
        ref = self.ref()
        self.rec("JointJac", j=j + 2, ref=ref, J=np.array(self.r.joint_jacobian(name, REFS[ref])))

    def q_fdot(self):
        self.refresh()
        f, name = self.fr()
        ref = self.ref()
        self.rec("FrameJacDot", f=f + 1, ref=ref, J=np.array(self.r.frame_jacobian_time_variation(name, REFS[ref])))

    def q_rel(self):
        self.refresh()
        f, fn = self.fr()
        g, gn = self.fr()
        self.rec("RelJac", f=f + 1, g=g + 1, J=np.array(self.r.relative_position_jacobian(fn, gn)))

    def q_hess(self):
        self.refresh()
        self.r.compute_hessians()
        for _ in range(2):
            f, name = self.fr()
            j, jn = self.joint()
            self.rec("Hessian", f=f + 1, k=j + 7, J=np.array(self.r.get_frame_hessian(name, jn)))

    def q_com(self):
        self.refresh()
        self.rec("Com", p=np.array(self.r.com_world()))

    def q_comj(self):
        self.refresh()
        self.rec("ComJac", J=np.array(self.r.com_jacobian()))

    def q_comd(self):
        self.refresh()
        self.rec("ComJacDot", J=np.array(self.r.com_jacobian_time_variation()))

    def q_cent(self):
        self.refresh()
        self.rec("Centroidal", J=np.array(self.r.centroidal_map()))

    def q_M(self):
        self.rec("MassMatrix", M=np.array(self.r.mass_matrix()))

    def q_g(self):
        self.rec("Gravity", v=np.array(self.r.generalized_gravity()))

    def q_bias(self):
        self.rec("Bias", v=np.array(self.r.non_linear_effects()))

    def q_static(self):
        self.refresh()
        f, name = self.fr()
        r = self.r
        J = np.array(r.frame_jacobian(name, "local_world_aligned"))
        g = np.array(r.generalized_gravity())
        w = np.linalg.solve(J[:, :6].T, g[:6])
        tau = np.array(r.static_gravity_compensation_torques(name))
        d = r.static_gravity_compensation_torques_dict(name)
        self.rec("Static", f=f + 1, w=w, tau=tau, tol=1e-5 * (1 + np.abs(g).max()), dict=[float(d[x]) for x in self.g.names])

    def q_fixed(self):
        self.refresh()
        f, name = self.fr()
        r = self.r
        acc = self.rng.uniform(-3, 3, self.n)
        tau = np.array(r.torques_from_acceleration_with_fixed_frame(acc, name)).reshape(-1)
        d = r.torques_from_acceleration_with_fixed_frame_dict(acc, name)
        J = np.array(r.frame_jacobian(name, "local_world_aligned"))
        dJ = np.array(r.frame_jacobian_time_variation(name, "local_world_aligned"))
        base = np.linalg.solve(J[:, :6], -J[:, 6:] @ acc - dJ @ np.array(r.state.qd))
        F = np.array(r.mass_matrix()) @ np.append(base, acc) + np.array(r.non_linear_effects())
        w = np.linalg.solve(J[:, :6].T, F[:6])
        self.rec("Fixed", f=f + 1, acc=acc, tau=tau, base_acc=base, w=w, tol=2e-5 * (1 + np.abs(F).max() + np.abs(w).max()), dict=[float(d[x]) for x in self.g.names])

    def run(self, ops, n):
        names = list(ops)
        p = np.array([ops[x] for x in names], float)
        for x in self.rng.choice(names, n, p=p / p.sum()):
            getattr(self, x)()


EDITS = dict(ed_joint=3, ed_joints=1, ed_vel=1, ed_v=1, ed_a=1, ed_base=1, ed_frame=1, ed_reset=0.3, ed_integrate=1, ed_noise=0.5)


def gen_robot(rng, **kw):
    return Gen(rng, **kw)


def s_state(rng, rec, k):
    s = Sim(rng, rec, gen_robot(rng), mode=str(rng.choice(["content", "dir", "file"])))
    s.run(dict(EDITS, ed_limits=1, q_get=2, q_state=2, q_unknown=0.4, q_limits=0.5, q_frame=3, q_ab=2, q_com=0.5, q_M=0.3, q_comj=0.3), 40)
    s.q_state()


def s_mjcf(rng, rec, k):
    """MuJoCo models: the root body may be away from the origin (base placement)."""
    s = Sim(rng, rec, gen_robot(rng, massive=True, zero_limits=0.0), mode="mjcf")
    s.run(dict(EDITS, q_get=1, q_state=2, q_frame=3, q_ab=1, q_com=1, q_M=0.6, q_comj=0.6, q_g=0.6, q_bias=0.3, q_fjac=1, q_fdot=0.5, q_static=0.5, q_fixed=0.3), 30)
    s.q_state()


def s_jac(rng, rec, k):
    s = Sim(rng, rec, gen_robot(rng))
    s.run(dict(EDITS, q_fjac=3, q_jjac=3, q_fdot=3, q_rel=1.5, q_hess=1.0, q_comj=1, q_comd=1, q_cent=1, q_M=0.3, q_bias=0.2, q_com=0.3), 22)


def s_dyn(rng, rec, k):
    s = Sim(rng, rec, gen_robot(rng))
    s.ed_joints()
    s.run(dict(EDITS, ed_gravity=0.7, ed_rotor=1, q_com=1.5, q_M=2, q_g=2, q_bias=1.2, q_static=2, q_fixed=1, q_fdot=0.2), 20)


def pairs_of(g, sel=None):
    if sel is None:
        return [[a + 1, b + 1] for a in range(len(g.objs)) for b in range(a + 1, len(g.objs)) if g.objs[a]["joint"] != g.objs[b]["joint"]]
    out = []
    for x, y in sel:
        for a, oa in enumerate(g.objs):
            for b, ob in enumerate(g.objs):
                if oa["link"] == x and ob["link"] == y:
                    out.append([a + 1, b + 1])
    return out


def s_coll(rng, rec, k):
    g = gen_robot(rng, n=int(rng.integers(2, 6)), spheres=2, scale=float(rng.choice([0.2, 0.5])))
    if len({o["joint"] for o in g.objs}) < 2:
        return
    links = sorted({o["link"] for o in g.objs})
    joint_of = {o["link"]: o["joint"] for o in g.objs}
    cand = [[a, b] for i, a in enumerate(links) for b in links[i + 1:] if joint_of[a] != joint_of[b]]

    def pick():
        m = int(rng.integers(1, min(4, len(cand)) + 1))
        return [cand[i] if rng.random() < 0.5 else cand[i][::-1] for i in rng.choice(len(cand), m, replace=False)]
    flags, sel, ignore = 0, None, False
    if rng.random() < 0.3:
        sel = pick()
    if rng.random() < 0.15:
        flags, ignore = 2, True
    s = Sim(rng, rec, g, flags=flags, collisions=sel, mode=str(rng.choice(["content", "dir", "file"])))
    r = s.r
    names = [o.name for o in r.collision_model.geometryObjects]
    count = {}
    mine = {}
    for i, o in enumerate(g.objs):
        c = count.get(o["link"], 0)
        mine[f"{o['link']}_{c}"] = i + 1
        count[o["link"]] = c + 1
    idx = [mine[x] for x in names]     # implementation object -> ours
    pairs = [] if ignore else pairs_of(g, sel)
    for _ in range(3):
        if rng.random() < 0.4:
            with Scratch() as d:
                p = os.path.join(d, "pairs.json")
                u = rng.random()
                if u < 0.55:
                    sel = pick()
                    json.dump(sel, open(p, "w"))
                    f, _ = raises(lambda: r.load_collision_pairs(p))
                    rec("Pairs", ok=not f, valid=True)
                    pairs = pairs_of(g, sel)
                elif u < 0.8:
                    ok = [(a, b) for a in range(len(names)) for b in range(a + 1, len(names)) if g.objs[idx[a] - 1]["joint"] != g.objs[idx[b] - 1]["joint"]]
                    ch = [ok[i] for i in rng.choice(len(ok), min(3, len(ok)), replace=False)]
                    json.dump([[int(a), int(b)] for a, b in ch], open(p, "w"))
                    f, _ = raises(lambda: r.load_collision_pairs(p))
                    rec("Pairs", ok=not f, valid=True)
                    pairs = [[idx[a], idx[b]] for a, b in ch]
                else:
                    bad = [[links[0], "nope"]] if u < 0.9 else [[links[0], 3]]
                    if u > 0.95:
                        p = os.path.join(d, "missing.json")
                    else:
                        json.dump(bad, open(p, "w"))
                    f, _ = raises(lambda: r.load_collision_pairs(p))
                    rec("Pairs", ok=not f, valid=False)
                    return      # what a refused file leaves is not specified
        s.ed_joints()
        if rng.random() < 0.5:
            s.ed_base()
        if rng.random() < 0.5:
            s.refresh()
        d = [dict(a=idx[x.objA], b=idx[x.objB], ja=int(x.parentA), jb=int(x.parentB), pa=np.array(x.pointA), pb=np.array(x.pointB), dist=float(x.min_distance)) for x in r.distances()]
        c = [dict(a=idx[x.objA], b=idx[x.objB], ja=int(x.parentA), jb=int(x.parentB), na=mine.get(x.bodyA, 0), nb=mine.get(x.bodyB, 0), p=np.array(x.get_contact(0))) for x in r.self_collisions(False)]
        first = r.self_collisions(True)
        rec("Distances", objs=[dict(joint=o["joint"], c=o["c"], r=o["r"]) for o in g.objs], pairs=pairs, d=d, coll=c, first=len(first),
            firstc=[dict(a=idx[x.objA], b=idx[x.objB]) for x in first])


class Quarter:
    """The robot of spec/MCRobot.tla."""

    def __init__(self):
        h = repr(np.pi / 2)
        links = [("base", 2.0, "0 0 1"), ("link01", 1.0, "1 0 0"), ("link02", 3.0, "0 2 0"), ("link03", 1.0, "1 1 0")]
        x = '<robot name="q">'
        for n, m, c in links:
            x += f'<link name="{n}"><inertial><origin xyz="{c}" rpy="0 0 0"/><mass value="{m}"/><inertia ixx="2" iyy="3" izz="4" ixy="0" ixz="0" iyz="0"/></inertial></link>'
        x += '<link name="tool"/>'
        lim = '<limit lower="-10" upper="10" velocity="1" effort="1"/>'
        x += f'<joint name="j01" type="revolute"><parent link="base"/><child link="link01"/><origin xyz="1 0 0"/><axis xyz="0 0 1"/>{lim}</joint>'
        x += f'<joint name="j02" type="prismatic"><parent link="link01"/><child link="link02"/><origin xyz="0 1 0" rpy="{h} 0 0"/><axis xyz="1 0 0"/>{lim}</joint>'
        x += f'<joint name="j03" type="revolute"><parent link="base"/><child link="link03"/><origin xyz="2 0 1" rpy="0 0 {h}"/><axis xyz="0 1 0"/>{lim}</joint>'
        x += f'<joint name="tool_fix" type="fixed"><parent link="link02"/><child link="tool"/><origin xyz="2 0 1" rpy="0 0 {h}"/></joint>'
        self.urdf = x + "</robot>"
        Tx = np.array([[1, 0, 0, 0], [0, 0, -1, 1], [0, 1, 0, 0], [0, 0, 0, 1]])
        Tz = np.array([[0, -1, 0, 2], [1, 0, 0, 0], [0, 0, 1, 1], [0, 0, 0, 1]])
        T1 = np.eye(4, dtype=int)
        T1[0, 3] = 1
        I4 = np.eye(4, dtype=int)
        self.names, self.n = ["j01", "j02", "j03"], 3
        self.lo, self.hi, self.vmax, self.tmax = [-10.0] * 3, [10.0] * 3, [1.0] * 3, [1.0] * 3
        self.frames = [("base", 1, I4), ("link01", 2, I4), ("link02", 3, I4), ("link03", 4, I4), ("tool", 3, Tz)]
        self.joints = [dict(parent=p, T=T, kind=k, axis=a) for p, T, k, a in
                       [(0, I4, "F", [0, 0, 0]), (1, T1, "R", [0, 0, 1]), (2, Tx, "P", [1, 0, 0]), (1, Tz, "R", [0, 1, 0])]]
        self.bodies = [dict(joint=j + 1, m=m, c=[float(v) for v in c.split()], I=np.diag([2.0, 3.0, 4.0])) for j, (n, m, c) in enumerate(links)]

    fields = Gen.fields
    base0 = np.eye(4)


def s_replay(rng, rec, b):
    s = Sim(rng, rec, Quarter())
    r, g = s.r, s.g
    for op in b["hist"] + [dict(op="update")]:
        if op["op"] == "joint":
            x = op["x"] * (1.0 if op["j"] == 2 else np.pi / 2)
            r.set_joint(g.names[op["j"] - 1], x)
            rec("SetJoint", j=op["j"], x=x)
        elif op["op"] == "base":
            r.set_T_world_fbase(np.array(op["T"], float))
            rec("SetBase", T=op["T"])
        elif op["op"] == "frame":
            r.set_T_world_frame(g.frames[op["f"] - 1][0], np.array(op["T"], float))
            rec("SetFrame", f=op["f"], T=op["T"])
        elif op["op"] == "reset":
            s.ed_reset()
        else:
            r.update_kinematics()
            rec("Update")
    s.fresh = True
    for f, (name, _, _) in enumerate(g.frames):
        rec("Frame", f=f + 1, T=np.array(r.get_T_world_frame(name)))
    s.q_state()
    s.q_ab()
    s.q_com()
    s.q_fjac()
    s.q_comj()
    s.q_M()
    s.q_g()
