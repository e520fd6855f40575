"""Dynamics solver (spec/ID.tla): random robots, tasks, contacts, limits and histories of solves.

The driver keeps a mirror of the program only to compute certificates (multipliers); the specification has its own rows
and judges the certificate."""
import numpy as np
import placo
from common import raises, rand_rot, rot, nnls
from robotgen import Gen
from d_robot import Sim, pairs_of
from d_ik import IK, Own, T, unit, AX, wkind, Slides

MASKABLE = ("position", "orientation", "relative_position", "relative_orientation", "com")
DD = dict(position=("ddtarget_world", "ddx"), com=("ddtarget_world", "ddx"), relative_position=("ddtarget", "ddx"),
          orientation=("domega_world", "ddx"), relative_orientation=("domega_a_b", "ddx"))
DX = dict(position="dtarget_world", com="dtarget_world", relative_position="dtarget", orientation="omega_world", relative_orientation="omega_a_b")
NOMASK = dict(axes=[1, 2, 3], frame="task", R=np.eye(3))


class ID(Sim):
    def __init__(self, rng, rec, gen):
        super().__init__(rng, rec, gen)
        self.s = placo.DynamicsSolver(self.r)
        self.N = gen.n + 6
        self.tasks, self.contacts, self.cons = [], [], []
        self.dt = self.damping = 0.0
        self.cost, self.gonly, self.extra = 1e-3, False, np.zeros(self.N)
        self.tl = self.vl = self.jl = self.vtl = self.fbase = False
        self.safe, self.tlim = np.ones(gen.n), [""] * gen.n
        self.life, self.witness = False, None
        rec("IDSolver")

    Tf, Jf, J_at, q, fidx = IK.Tf, IK.Jf, IK.J_at, IK.q, IK.fidx

    def set(self, **ch):
        """Parameters of the solver."""
        s = self.s
        for k, x in ch.items():
            if k in ("dt", "damping"):
                setattr(s, k, x)
            elif k == "cost":
                s.torque_cost = x
            elif k == "gonly":
                s.gravity_only = x
            elif k == "extra":
                s.extra_force = x
            elif k == "tl":
                s.enable_torque_limits(x)
            elif k == "vl":
                s.enable_velocity_limits(x)
            elif k == "vtl":
                s.enable_velocity_vs_torque_limits(x)
            elif k == "jl":
                s.enable_joint_limits(x)
            elif k == "fbase":
                s.mask_fbase(x)
            setattr(self, k, x)
        self.rec("IDSet", ch=ch)

    def set_safe(self, j, x):
        self.s.set_qdd_safe(self.g.names[j], x)
        self.safe = self.safe.copy()
        self.safe[j] = x
        self.rec("IDSet", ch=dict(safe=self.safe))

    def set_tlim(self, j, x):
        self.s.set_torque_limit(self.g.names[j], x)
        self.tlim = list(self.tlim)
        self.tlim[j] = x
        self.rec("IDSet", ch=dict(tlim=self.tlim))

    # ---- tasks
    def push(self, obj, **p):
        t = T(obj, **p)
        t.kp, t.kd = 1000.0, -1.0
        self.tasks.append(t)
        self.rec("IDAddTask", t=p)
        return len(self.tasks) - 1

    def settask(self, i, **ch):
        self.tasks[i].p.update(ch)
        self.rec("IDSetTask", i=i + 1, ch=ch)

    def add(self, kind, f=None, still=False):
        rng, s, n = self.rng, self.s, self.g.frames
        z = np.zeros(3)
        d = 0.0 if still else 1.0
        if f is None:
            f = self.fidx()
        M = self.Tf(f)
        dp = d * rng.uniform(-0.5, 0.5, 3)
        dR = rot(d * unit(rng.normal(size=3)) * rng.uniform(-2.5, 2.5))
        if kind == "position":
            x = M[:3, 3] + dp
            return self.push(s.add_position_task(n[f][0], x), type=kind, f=f + 1, x=x, dx=z, ddx=z, mask=NOMASK)
        if kind == "orientation":
            R = dR @ M[:3, :3]
            return self.push(s.add_orientation_task(n[f][0], R), type=kind, f=f + 1, R=R, dx=z, ddx=z, mask=NOMASK)
        if kind == "frame":
            G = np.eye(4)
            G[:3, :3], G[:3, 3] = dR @ M[:3, :3], M[:3, 3] + dp
            ft = s.add_frame_task(n[f][0], G)
            i = self.push(ft.position(), type="position", f=f + 1, x=G[:3, 3], dx=z, ddx=z, mask=NOMASK)
            self.push(ft.orientation(), type="orientation", f=f + 1, R=G[:3, :3], dx=z, ddx=z, mask=NOMASK)
            self.tasks[i].ft = self.tasks[i + 1].ft = (ft, i, i + 1)
            return i
        if kind in ("relative_position", "relative_orientation", "relative_frame"):
            g = self.fidx(f)
            Tab = np.linalg.inv(M) @ self.Tf(g)
            G = np.eye(4)
            G[:3, :3], G[:3, 3] = dR @ Tab[:3, :3], Tab[:3, 3] + dp
            if kind == "relative_position":
                return self.push(s.add_relative_position_task(n[f][0], n[g][0], G[:3, 3]), type=kind, f=f + 1, g=g + 1, x=G[:3, 3], dx=z, ddx=z, mask=NOMASK)
            if kind == "relative_orientation":
                return self.push(s.add_relative_orientation_task(n[f][0], n[g][0], G[:3, :3]), type=kind, f=f + 1, g=g + 1, R=G[:3, :3], dx=z, ddx=z, mask=NOMASK)
            ft = s.add_relative_frame_task(n[f][0], n[g][0], G)
            i = self.push(ft.position(), type="relative_position", f=f + 1, g=g + 1, x=G[:3, 3], dx=z, ddx=z, mask=NOMASK)
            self.push(ft.orientation(), type="relative_orientation", f=f + 1, g=g + 1, R=G[:3, :3], dx=z, ddx=z, mask=NOMASK)
            self.tasks[i].rft = self.tasks[i + 1].rft = (ft, i, i + 1)
            return i
        if kind == "com":
            x = np.array(self.r.com_world()) + dp
            return self.push(s.add_com_task(x), type=kind, x=x, dx=z, ddx=z, mask=NOMASK)
        if kind == "joints":
            t = s.add_joints_task()
            i = self.push(t, type=kind, joints=[])
            ks = [int(j) for j in rng.choice(self.g.n, int(rng.integers(1, self.g.n + 1)), replace=False)]
            q = self.q()
            if rng.random() < 0.4:
                pos = {self.g.names[j]: float(q[j] + rng.uniform(-1, 1)) for j in ks}
                vel = {self.g.names[j]: float(rng.uniform(-1, 1)) for j in ks if rng.random() < 0.5}
                t.set_joints(pos)
                if vel:
                    t.set_joints_velocities(vel)
                self.settask(i, joints=[dict(j=j + 1, x=pos[self.g.names[j]], dx=vel.get(self.g.names[j], 0.0), ddx=0.0) for j in ks])
            else:
                for j in ks:
                    self.joint_target(i, j, float(q[j] + rng.uniform(-1, 1)), *[float(v) for v in rng.uniform(-1, 1, int(rng.integers(0, 3)))])
            return i
        if kind == "gear":
            if self.g.n < 2:
                return self.add("com")
            t = s.add_gear_task()
            i = self.push(t, type=kind, gears=[])
            for _ in range(int(rng.integers(1, 4))):
                a, b = rng.choice(self.g.n, 2, replace=False)
                self.gear(i, int(a), int(b), float(rng.uniform(-2, 2)), bool(rng.random() < 0.5))
            return i
        if kind == "torque":
            t = s.add_torque_task()
            i = self.push(t, type=kind, joints=[])
            for j in rng.choice(self.g.n, int(rng.integers(1, self.g.n + 1)), replace=False):
                self.torque(i, int(j), float(rng.uniform(-10, 10)), float(rng.choice([0.0, rng.uniform(0, 3)])))
            if rng.random() < 0.2 and len(self.tasks[i].p["joints"]) > 1:
                e = self.tasks[i].p["joints"][0]
                t.reset_torque(self.g.names[e["j"] - 1])
                self.settask(i, joints=self.tasks[i].p["joints"][1:])
            return i
        raise KeyError(kind)

    def joint_target(self, i, j, x, dx=0.0, ddx=0.0):
        t = self.tasks[i]
        if dx == 0.0 and ddx == 0.0:
            t.obj.set_joint(self.g.names[j], x)
        elif ddx == 0.0:
            t.obj.set_joint(self.g.names[j], x, dx)
        else:
            t.obj.set_joint(self.g.names[j], x, dx, ddx)
        self.settask(i, joints=[e for e in t.p["joints"] if e["j"] != j + 1] + [dict(j=j + 1, x=x, dx=dx, ddx=ddx)])

    def gear(self, i, a, b, r, keep):
        t = self.tasks[i]
        (t.obj.add_gear if keep else t.obj.set_gear)(self.g.names[a], self.g.names[b], r)
        G = {e["j"]: {x["j"]: x["r"] for x in e["src"]} for e in t.p["gears"]}
        src = G.get(a + 1, {}) if keep else {}
        src[b + 1] = r
        G[a + 1] = src
        self.settask(i, gears=[dict(j=k, src=[dict(j=m, r=v) for m, v in d.items()]) for k, d in G.items()])

    def torque(self, i, j, x, kd):
        t = self.tasks[i]
        if kd == 0.0:
            t.obj.set_torque(self.g.names[j], x)
        else:
            t.obj.set_torque(self.g.names[j], x, 0.0, kd)
        self.settask(i, joints=[e for e in t.p["joints"] if e["j"] != j + 1] + [dict(j=j + 1, x=x, kd=kd)])

    def aim(self, i):
        """Velocity and acceleration targets."""
        t = self.tasks[i]
        if t.p["type"] in DX:
            x, y = self.rng.uniform(-1, 1, 3), self.rng.uniform(-3, 3, 3)
            setattr(t.obj, DX[t.p["type"]], x)
            setattr(t.obj, DD[t.p["type"]][0], y)
            self.settask(i, dx=x, ddx=y)

    def retarget(self, i):
        t, rng = self.tasks[i], self.rng
        k, o = t.p["type"], t.obj
        both = getattr(t, "ft", None) or getattr(t, "rft", None)
        if both and self.tasks[both[1]].on and self.tasks[both[2]].on and rng.random() < 0.5:
            # the pose of a frame task
            ft, a, b = both
            O = self.tasks[b].p
            M = np.eye(4)
            M[:3, 3] = self.tasks[a].p["x"] + rng.uniform(-0.3, 0.3, 3)
            base = self.Tf(O["f"] - 1) if k in ("position", "orientation") else np.linalg.inv(self.Tf(O["f"] - 1)) @ self.Tf(O["g"] - 1)
            M[:3, :3] = rot(unit(rng.normal(size=3)) * rng.uniform(-2.5, 2.5)) @ base[:3, :3]
            setattr(ft, "T_world_frame" if k in ("position", "orientation") else "T_a_b", M)
            self.settask(a, x=M[:3, 3])
            self.settask(b, R=M[:3, :3])
            return
        if k in ("position", "com", "relative_position"):
            x = t.p["x"] + rng.uniform(-0.3, 0.3, 3)
            setattr(o, "target" if k == "relative_position" else "target_world", x)
            self.settask(i, x=x)
        elif k in ("orientation", "relative_orientation"):
            base = self.Tf(t.p["f"] - 1) if k == "orientation" else np.linalg.inv(self.Tf(t.p["f"] - 1)) @ self.Tf(t.p["g"] - 1)
            R = rot(unit(rng.normal(size=3)) * rng.uniform(-2.5, 2.5)) @ base[:3, :3]
            setattr(o, "R_world_frame" if k == "orientation" else "R_a_b", R)
            self.settask(i, R=R)
        elif k == "joints":
            self.joint_target(i, int(rng.integers(self.g.n)), float(rng.uniform(-2, 2)))
        elif k == "gear":
            a, b = rng.choice(self.g.n, 2, replace=False)
            self.gear(i, int(a), int(b), float(rng.uniform(-2, 2)), bool(rng.random() < 0.5))
        elif k == "torque":
            self.torque(i, int(rng.integers(self.g.n)), float(rng.uniform(-10, 10)), 0.0)

    def mask_task(self, i, axes=None, fr=None):
        t, rng = self.tasks[i], self.rng
        axes = [int(x) + 1 for x in rng.permutation(3)[:int(rng.integers(1, 4))]] if axes is None else axes
        frames = ["task", "custom"] + (["local"] if t.p["type"] in ("position", "orientation") else [])
        fr = str(rng.choice(frames)) if fr is None else fr
        R = rand_rot(rng)
        t.obj.mask.R_custom_world = R
        t.obj.mask.set_axises("".join(AX[a - 1] for a in axes), fr)
        self.settask(i, mask=dict(axes=axes, frame=fr, R=R))

    def gains(self, i):
        rng, t = self.rng, self.tasks[i]
        kp = float(rng.choice([0.0, 1.0, rng.uniform(0, 100), 1000.0]))
        kd = float(rng.choice([-1.0, 0.0, rng.uniform(0, 20)]))
        t.obj.kp, t.obj.kd = kp, kd
        t.kp, t.kd = kp, kd
        self.rec("IDSetTask", i=i + 1, ch=dict(kp=kp, kd=kd))

    def configure(self, i, prio, w):
        t = self.tasks[i]
        t.obj.configure("t%d" % i, prio, w)
        t.prio, t.w = prio, w
        self.rec("IDSetTask", i=i + 1, ch=dict(prio=prio, w=w))

    def remove(self, i):
        t = self.tasks[i]
        if hasattr(t, "ft") and self.rng.random() < 0.5:
            ft, a, b = t.ft
            if self.tasks[a].on and self.tasks[b].on:
                self.s.remove_task(ft)
                for k in (a, b):
                    self.tasks[k].on = False
                    self.rec("IDSetTask", i=k + 1, ch={"in": False})
                return
        self.s.remove_task(t.obj)
        t.on = False
        self.rec("IDSetTask", i=i + 1, ch={"in": False})

    # ---- contacts
    def contact(self, kind, uni=False, f=None, task=None):
        """Adds a contact with its task (soft), returns its index."""
        rng, s, n = self.rng, self.s, self.g.frames
        p = dict(type=kind)
        if kind == "point":
            i = self.add("position", f, still=rng.random() < 0.7)
            o = (s.add_unilateral_point_contact if uni else s.add_point_contact)(self.tasks[i].obj)
            p.update(pos=i + 1, uni=uni)
        elif kind in ("6d", "line"):
            i = self.add("frame", f, still=rng.random() < 0.7)
            if kind == "line":
                self.mask_task(i + 1, [2, 3], "local")
                o = (s.add_unilateral_line_contact if uni else s.add_line_contact)(self.tasks[i].ft[0])
            else:
                o = (s.add_planar_contact if uni else s.add_fixed_contact)(self.tasks[i].ft[0])
            p.update(pos=i + 1, ori=i + 2, uni=uni)
        elif kind == "external":
            f = self.fidx()
            ref = str(rng.choice(["local", "world"]))
            o = s.add_external_wrench_contact(n[f][0], ref)
            p.update(f=f + 1, ref="local" if ref == "local" else "lwa")
        elif kind == "puppet":
            o = s.add_puppet_contact()
        elif kind == "task":
            o = s.add_task_contact(self.tasks[task].obj)
            p.update(pos=task + 1)
        c = T(o, **p)
        c.p = dict(R=np.eye(3), mu=1.0, wf=0.0, wt=0.0, wm=0.0, length=0.0, width=0.0, wrench=np.zeros(6), active=True, **p)
        self.contacts.append(c)
        self.rec("IDAddContact", t=p)
        return len(self.contacts) - 1

    def setc(self, i, **ch):
        c = self.contacts[i]
        names = dict(R="R_world_surface", mu="mu", wf="weight_forces", wt="weight_tangentials", wm="weight_moments", length="length", width="width",
                     wrench="w_ext", active="active", uni="unilateral")
        for k, x in ch.items():
            setattr(c.obj, names[k], x)
            c.p[k] = x
        self.rec("IDSetContact", i=i + 1, ch=ch)

    def dress(self, i):
        """Parameters of a contact; returns a force it accepts (in general not on the border)."""
        rng, c = self.rng, self.contacts[i]
        k = c.p["type"]
        ch = {}
        if k in ("point", "6d", "line", "puppet", "task"):
            ch["wf"] = float(10 ** rng.uniform(-2, 0))
        if k in ("point", "6d", "line") and rng.random() < 0.5:
            ch["wt"] = float(10 ** rng.uniform(-2, 0))
        if k in ("6d", "line"):
            ch["wm"] = float(10 ** rng.uniform(-2, 0))
        if k in ("point", "line") and rng.random() < 0.6:
            ch["R"] = rand_rot(rng)
        if k in ("point", "6d", "line"):
            ch["mu"] = float(rng.uniform(0.2, 1.5))
        if k in ("6d", "line"):
            ch["length"] = float(rng.uniform(0.05, 0.4))
        if k == "6d":
            ch["width"] = float(rng.uniform(0.05, 0.4))
        if k == "external":
            ch["wrench"] = rng.uniform(-10, 10, 6)
        self.setc(i, **ch)
        p = c.p
        if k == "external":
            return p["wrench"]
        if k in ("point", "6d", "line") and p["uni"]:
            z = float(rng.uniform(1, 30))
            f = np.array([*(rng.uniform(-0.8, 0.8, 2) * p["mu"] * z), z])
            if k != "6d":
                f = p["R"] @ f
            m = rng.uniform(-0.8, 0.8, 2) * z / 2 * np.array([p["width"], p["length"]])
            if k == "6d":
                return np.append(f, [*m, rng.uniform(-1, 1)])
            return np.append(f, [m[1], rng.uniform(-1, 1)]) if k == "line" else f
        size = dict(point=3, line=5, puppet=self.N).get(k, 6)
        if k == "task":
            size = self.mat(self.tasks[p["pos"] - 1])[0].shape[0]
        return rng.uniform(-10, 10, size)

    def deactivate(self, i, on):
        self.setc(i, active=on)

    def remove_contact(self, i):
        self.s.remove_contact(self.contacts[i].obj)
        self.contacts[i].on = False
        self.rec("IDSetContact", i=i + 1, ch={"in": False})

    def act(self):
        return [c for c in self.contacts if c.on and c.p["active"]]

    # ---- mirror
    def mat(self, t):
        """Rows of a task, as last updated by the solver."""
        b = np.array(t.obj.b, float).reshape(-1)
        return np.array(t.obj.A, float).reshape(len(b), -1) if len(b) else np.zeros((0, self.N)), b

    def rows(self, t, q, v):
        """Rows of a task in the order of its parameters."""
        p, E = t.p, np.eye(self.N)
        kd = 2 * np.sqrt(t.kp) if t.kd < 0 else t.kd
        if p["type"] == "joints":
            J = p["joints"]
            return (np.array([E[5 + e["j"]] for e in J]).reshape(-1, self.N),
                    np.array([t.kp * (e["x"] - q[e["j"] - 1]) + kd * (e["dx"] - v[5 + e["j"]]) + e["ddx"] for e in J]))
        if p["type"] == "torque":
            J = p["joints"]
            return np.array([E[5 + e["j"]] for e in J]).reshape(-1, self.N), np.array([e["x"] - e["kd"] * v[5 + e["j"]] for e in J])
        if p["type"] == "gear":
            A = np.array([E[5 + g["j"]] - sum(x["r"] * E[5 + x["j"]] for x in g["src"]) for g in p["gears"]]).reshape(-1, self.N)
            return A, -t.kp * A[:, 6:] @ q - kd * A @ v
        return self.mat(t)

    def prime(self):
        """Updates the matrices of the tasks (they are only updated by a solve)."""
        self.refresh()
        raises(self.s.solve, False)

    def jac(self, c):
        p = c.p
        if p["type"] == "point":
            return self.Jf(self.tasks[p["pos"] - 1].p["f"] - 1)[:3]
        if p["type"] == "6d":
            return np.array(self.r.frame_jacobian(self.g.frames[self.tasks[p["pos"] - 1].p["f"] - 1][0], "local"))
        if p["type"] == "line":
            o = self.tasks[p["ori"] - 1]
            return np.vstack([self.Jf(self.tasks[p["pos"] - 1].p["f"] - 1)[:3], (o.p["R"].T @ self.Jf(o.p["f"] - 1)[3:])[1:]])
        if p["type"] == "external":
            return np.array(self.r.frame_jacobian(self.g.frames[p["f"] - 1][0], "local" if p["ref"] == "local" else "local_world_aligned"))
        if p["type"] == "puppet":
            return np.eye(self.N)
        return None

    def motion(self):
        """M, drift and jacobians of the contacts in the current state."""
        v = np.array(self.r.state.qd)
        h = np.array(self.r.generalized_gravity() if self.gonly else self.r.non_linear_effects()).reshape(-1)
        return np.array(self.r.mass_matrix()), h + self.damping * v + self.extra, [self.jac(c) for c in self.act()]

    def cone(self, S, mu):
        return [S[2], mu * S[2] - S[0], mu * S[2] + S[0], mu * S[2] - S[1], mu * S[2] + S[1]]

    def contact_blocks(self, c, n):
        p = c.p
        k = p["type"]
        E = np.eye(n)
        out = []
        if k == "external":
            return [(E, -np.array(p["wrench"]), False, True, 1)]

        def soft(A, w):
            if w > 0:
                out.append((np.array(A), np.zeros(len(A)), False, False, w))

        def ineq(rows):
            out.append((np.array(rows), np.zeros(len(rows)), True, True, 1))
        if k == "point":
            S = p["R"].T
            if p["uni"]:
                ineq(self.cone(S, p["mu"]))
            soft(E, p["wf"])
            soft(S[:2], p["wt"])
        elif k == "6d":
            h, w = p["length"] / 2, p["width"] / 2
            if p["uni"]:
                ineq(self.cone(E, p["mu"]) + [h * E[2] - E[4], h * E[2] + E[4], w * E[2] - E[3], w * E[2] + E[3]])
            soft(E[:3], p["wf"])
            soft(E[:2], p["wt"])
            soft(E[3:], p["wm"])
        elif k == "line":
            S = np.hstack([p["R"].T, np.zeros((3, 2))])
            h = p["length"] / 2
            if p["uni"]:
                ineq(self.cone(S, p["mu"]) + [h * S[2] - E[3], h * S[2] + E[3]])
            soft(S, p["wf"])
            soft(S[:2], p["wt"])
            soft(E[3:], p["wm"])
        else:
            soft(E, p["wf"])
        return out

    def collision_rows(self, c):
        p = c.p
        A, b = [], []
        v = self.v0
        for a_, b_ in p["pairs"]:
            oa, ob = p["objs"][a_ - 1], p["objs"][b_ - 1]
            ca = (self.Tf(oa["frame"]) @ np.append(oa["c"], 1))[:3]
            cb = (self.Tf(ob["frame"]) @ np.append(ob["c"], 1))[:3]
            gap = np.linalg.norm(cb - ca) - oa["r"] - ob["r"]
            if gap < p["trigger"]:
                J = unit(cb - ca) @ (self.J_at(ob["frame"], cb) - self.J_at(oa["frame"], ca))
                safe = 0.5 * np.abs(J[6:]) @ self.safe
                if gap >= p["margin"]:
                    A.append(self.dt * J)
                    b.append(J @ v + np.sqrt(2 * (gap - p["margin"]) * safe))
                else:
                    A.append(J)
                    b.append(-safe)
        return np.array(A).reshape(-1, self.N), np.array(b)

    def limit_blocks(self, tA, tb, nx, q, v):
        n = self.g.n
        E = np.eye(nx)[6:6 + n]
        A, b = tA[6:], tb[6:]
        v = v[6:]
        tm = np.array([self.g.tmax[j] if self.tlim[j] == "" else self.tlim[j] for j in range(n)])
        vm = np.array(self.g.vmax)
        lo, hi = np.array(self.g.lo), np.array(self.g.hi)
        out = []
        if self.tl:
            out += [(-A, tm - b, True, True, 1), (A, tm + b, True, True, 1)]
        if self.vtl:
            ra = vm / np.array(self.g.tmax)
            X = self.dt * E + ra[:, None] * A
            out += [(-X, vm - v - ra * b, True, True, 1), (X, vm + v + ra * b, True, True, 1)]
        elif self.vl:
            out += [(-self.dt * E, vm - v, True, True, 1), (self.dt * E, vm + v, True, True, 1)]
        if self.jl:
            for s, L in ((1, hi), (-1, lo)):
                R, c = [], []
                for j in range(n):
                    if abs(L[j]) < 1e300:
                        if s * q[j] > s * L[j]:
                            R.append(-s * E[j])
                            c.append(-self.safe[j])
                        else:
                            R.append(-s * self.dt * E[j])
                            c.append(np.sqrt(2 * s * (L[j] - q[j]) * self.safe[j]) - s * v[j])
                out.append((np.array(R).reshape(-1, nx), np.array(c), True, True, 1))
        return out

    def program(self, motion, q, v):
        M, h, Js = motion
        Js = [self.mat(self.tasks[c.p["pos"] - 1])[0] if J is None else J for J, c in zip(Js, self.act())]
        sizes = [len(J) for J in Js]
        N = self.N
        nx = N + sum(sizes)
        tA = np.hstack([M] + [-J.T for J in Js])
        E = np.eye(nx)
        out = [(E[:6], np.zeros(6), False, True, 1) if self.fbase else (tA[:6], h[:6], False, True, 1)]

        def wide(A, off=0):
            A = np.array(A, float).reshape(len(A), -1)
            return np.hstack([np.zeros((len(A), off)), A, np.zeros((len(A), nx - off - A.shape[1]))])
        off = N
        for c, n in zip(self.act(), sizes):
            out += [(wide(A, off), b, i, hd, w) for A, b, i, hd, w in self.contact_blocks(c, n)]
            off += n
        out += self.limit_blocks(tA, h, nx, q, v)
        for t in self.tasks:
            if t.on:
                A, b = self.rows(t, q, v)
                if len(b):
                    out.append((A @ tA, A @ h - b, False, t.prio == "hard", t.w) if t.p["type"] == "torque" else (wide(A), -b, False, t.prio == "hard", t.w))
        for c in self.cons:
            if c.on and len(c.rows[1]):
                out.append((wide(c.rows[0]), c.rows[1], True, c.prio == "hard", c.w))
        out.append((tA[6:], h[6:], False, False, self.cost))
        return out

    certificate = IK.certificate

    def solve(self, integrate=None, farkas=False, cert=True):
        self.refresh()
        rng = self.rng
        integrate = bool(self.dt > 0 and rng.random() < 0.4) if integrate is None else integrate
        motion, q, v = self.motion(), self.q(), np.array(self.r.state.qd)
        self.v0 = v
        for c in self.cons:
            if c.on:
                c.rows = self.collision_rows(c)
        fail, r = raises(self.s.solve, integrate)
        if fail:
            self.rec("IDRaised", life=self.life)
            return False
        ok = bool(r.success)
        kw = {}
        prog = self.program(motion, q, v)
        if farkas:
            y = certificate_infeasible(prog, prog[0][0].shape[1])
            if y is not None:
                kw["farkas"] = y
        if ok:
            act = self.act()
            ws = [np.array(c.obj.wrench, float).reshape(-1) for c in act]
            qdd = np.array(r.qdd).reshape(-1)
            x = np.concatenate([qdd] + ws)
            td = r.tau_dict(self.r)
            kw.update(tau_dict=[float(td.get(m, 1e9)) for m in self.g.names], qdd=qdd, tau=np.array(r.tau).reshape(-1), tau_contacts=np.array(r.tau_contacts).reshape(-1), wrenches=ws,
                      zmp=[np.array(c.obj.zmp()) if c.p["type"] in ("6d", "line") else [] for c in act])
            if cert and np.isfinite(x).all() and len(x) == prog[0][0].shape[1]:
                mult, sc = self.certificate(x, prog)
                kw.update(mult=mult, mag=sc)
        elif self.witness is not None:
            kw["witness"] = self.witness
        st = self.r.state
        cur = dict(q=np.array(st.q)[7:], v=np.array(st.qd), a=np.array(st.qdd), base=np.array(self.r.get_T_world_fbase()))
        self.rec("IDSolve", ok=ok, integrate=integrate, life=self.life, **cur, **kw)
        if integrate and ok:
            self.fresh = False
            self.rec("Sync", **cur)
        return ok

    def task_matrices(self):
        """The rows of the tasks as they were at the last solve (the robot has not moved since)."""
        for i, t in enumerate(self.tasks):
            if t.on:
                A, b = self.mat(t)
                self.rec("IDTaskMat", i=i + 1, A=A, b=b, error=np.array(t.obj.error, float).reshape(-1), derror=np.array(t.obj.derror, float).reshape(-1))


def certificate_infeasible(prog, n):
    Aeq = [(A, b) for A, b, ineq, hard, w in prog if hard and not ineq]
    Ain = [(A, b) for A, b, ineq, hard, w in prog if hard and ineq]
    cols, c = [np.zeros((0, n))], [np.zeros(0)]
    for A, b in Aeq:
        cols += [A, -A]
        c += [b, -b]
    for A, b in Ain:
        cols.append(A)
        c.append(b)
    M = np.vstack([np.vstack(cols).T, np.concatenate(c)[None]])
    sc = np.linalg.norm(M, axis=0)
    M = np.where(sc < 1e-9, 0, M)
    sc[sc < 1e-9] = 1
    y = nnls(M / sc, np.append(np.zeros(n), -1.0)) / sc
    if np.abs(M @ y - np.append(np.zeros(n), -1.0)).max() > 1e-8 or np.abs(y).max() > 1e3:
        return None
    out, k, eq, ine = [], 0, [], []
    for A, b in Aeq:
        m = len(b)
        eq.append(y[k:k + m] - y[k + m:k + 2 * m])
        k += 2 * m
    for A, b in Ain:
        ine.append(y[k:k + len(b)])
        k += len(b)
    for A, b, ineq, hard, w in prog:
        out.append(np.zeros(len(b)) if not hard else ine.pop(0) if ineq else eq.pop(0))
    return out


KINDS = ["position", "orientation", "frame", "relative_position", "relative_orientation", "relative_frame", "com", "joints", "gear", "torque"]


def start(rng, rec, moving=True, **kw):
    g = Gen(rng, extra=True, **kw)
    s = ID(rng, rec, g)
    s.ed_base()
    if rng.random() < 0.3:
        s.ed_motors()
    if rng.random() < 0.3:
        s.ed_rotor()
    if rng.random() < 0.2:
        s.ed_gravity()
    for j, name in enumerate(g.names):
        lo, hi = max(g.lo[j], -2.0), min(g.hi[j], 2.0)
        x = float(rng.uniform(lo, hi))
        s.r.set_joint(name, x)
        rec("SetJoint", j=j + 1, x=x)
    if moving:
        v = rng.uniform(-1, 1, s.N)
        s.r.state.qd = v
        rec("SetV", v=v)
    s.fresh = False
    s.refresh()
    return s


def near_pi(s):
    """Orientation errors close to half a turn: the error is not continuous there."""
    for t in s.tasks:
        if t.on and t.p["type"] in ("orientation", "relative_orientation"):
            M = s.Tf(t.p["f"] - 1)[:3, :3]
            if t.p["type"] == "relative_orientation":
                M = M.T @ s.Tf(t.p["g"] - 1)[:3, :3]
            if np.trace(t.p["R"] @ M.T) < -0.95:
                return True
    return False


def options(s):
    rng = s.rng
    if rng.random() < 0.4:
        s.set(damping=float(rng.uniform(0, 2)))
    if rng.random() < 0.25:
        s.set(gonly=True)
    if rng.random() < 0.4:
        s.set(extra=rng.uniform(-10, 10, s.N))
    if rng.random() < 0.4:
        s.set(cost=float(10 ** rng.uniform(-3, -1)))


def s_tasks(rng, rec, k):
    """Every type of task, its gains, targets and masks, in many states."""
    s = start(rng, rec, n=int(rng.choice([2, 3, 4, 6])))
    s.set(dt=0.01)
    if rng.random() < 0.5:
        s.set(fbase=True)
    options(s)
    for kind in rng.choice(KINDS, int(rng.integers(2, 5)), replace=False):
        i = s.add(str(kind))
        for m in range(i, len(s.tasks)):
            if s.tasks[m].p["type"] in MASKABLE and rng.random() < 0.5:
                s.mask_task(m)
            if rng.random() < 0.6:
                s.aim(m)
            if rng.random() < 0.5:
                s.gains(m)
            s.configure(m, "soft", wkind(rng))
    if rng.random() < 0.2:
        kp = float(rng.uniform(1, 100))
        s.s.set_kp(kp)
        rec("IDGains", ch=dict(kp=kp))
        for t in s.tasks:
            t.kp = kp
        if rng.random() < 0.5:
            kd = float(rng.uniform(0, 20))
            s.s.set_kd(kd)
            rec("IDGains", ch=dict(kd=kd))
            for t in s.tasks:
                t.kd = kd
    if near_pi(s):
        return
    s.solve(integrate=False)
    s.task_matrices()
    for _ in range(int(rng.integers(0, 2))):
        for i in range(len(s.tasks)):
            if rng.random() < 0.5:
                s.retarget(i)
            if rng.random() < 0.3:
                s.gains(i)
        s.ed_v()
        s.ed_base()
        s.refresh()
        if near_pi(s):
            return
        s.solve(integrate=False)
        s.task_matrices()


def interval(s, j):
    """Accelerations of a joint that the limits allow (without those on torques)."""
    q, v = s.q()[j], float(s.r.state.qd[6 + j])
    a, b = -4.0, 4.0
    if s.vl or s.vtl:
        a, b = max(a, (-s.g.vmax[j] - v) / s.dt), min(b, (s.g.vmax[j] - v) / s.dt)
    if s.jl and s.g.hi[j] < 1e300:
        hi, lo, sf = s.g.hi[j], s.g.lo[j], s.safe[j]
        b = min(b, -sf if q > hi else (np.sqrt(2 * (hi - q) * sf) - v) / s.dt)
        a = max(a, sf if q < lo else (-np.sqrt(2 * (q - lo) * sf) - v) / s.dt)
    return a, b


HARD = ["position", "orientation", "relative_position", "relative_orientation", "com", "joints", "torque"]


def build(s, kinds, hards, softs, limits=True):
    """A program with a known point satisfying its hard conditions; returns False when none was found."""
    rng = s.rng
    s.set(dt=float(rng.choice([0.005, 0.02, 0.1])))
    s.set(fbase=bool(rng.random() < 0.35))
    if rng.random() < 0.3:
        s.set(damping=float(rng.uniform(0, 1)))
    if rng.random() < 0.2:
        s.set(gonly=True)
    forces = []
    for kind, uni in kinds:
        if kind == "task":
            i0 = s.add(str(rng.choice(["position", "com", "orientation"])))
            if rng.random() < 0.5:
                s.mask_task(i0)
            s.prime()
            i = s.contact("task", task=i0)
        else:
            i = s.contact(kind, uni)
        forces.append(s.dress(i))
        if rng.random() < 0.15:
            s.deactivate(i, False)
    hard = []
    for kind in rng.choice(HARD, hards) if hards else []:
        i = s.add(str(kind))
        hard.append(i)
    for c in s.contacts:
        if c.p["type"] in ("point", "6d", "line") and rng.random() < 0.5:
            hard.append(c.p["pos"] - 1)
    for kind in rng.choice(KINDS, int(rng.integers(0, softs + 1))):
        i = s.add(str(kind))
        for m in range(i, len(s.tasks)):
            if s.tasks[m].p["type"] in MASKABLE and rng.random() < 0.4:
                s.mask_task(m)
            s.gains(m)
            s.configure(m, "soft", wkind(rng))
    # something that fixes all accelerations
    i = s.push(s.s.add_joints_task(), type="joints", joints=[])
    for j in range(s.g.n):
        s.joint_target(i, j, float(s.q()[j] + rng.uniform(-0.1, 0.1)))
    s.configure(i, "soft", float(10 ** rng.uniform(-2, 0)))
    if not s.fbase:
        i = s.add("frame", f=[k for k, x in enumerate(s.g.frames) if x[1] == 1][0], still=True)
        s.configure(i, "soft", 0.1)
        s.configure(i + 1, "soft", 0.1)
    if near_pi(s):
        return False
    s.prime()
    # limits
    if limits:
        s.set(vl=bool(rng.random() < 0.5), jl=bool(rng.random() < 0.6), vtl=bool(rng.random() < 0.3), tl=bool(rng.random() < 0.6))
        for j in range(s.g.n):
            if rng.random() < 0.3:
                s.set_safe(j, float(rng.uniform(0.2, 5)))
    # the witness
    a = rng.uniform(-3, 3, s.N)
    if s.fbase:
        a[:6] = 0
    for j in range(s.g.n):
        lo, hi = interval(s, j)
        if hi - lo < 1e-3:
            return False
        a[6 + j] = rng.uniform(lo + 0.05 * (hi - lo), hi - 0.05 * (hi - lo))
    M, h, Js = s.motion()
    Js = [s.mat(s.tasks[c.p["pos"] - 1])[0] if J is None else J for J, c in zip(Js, s.act())]
    fs = [f for f, c in zip(forces, s.contacts) if c.p["active"]]
    tau = rng.uniform(-1, 1, s.N) * np.append(np.zeros(6), 0.8 * np.array(s.g.tmax))
    v = np.array(s.r.state.qd)
    if s.vtl:
        # |v + dt a + ratio tau| <= vmax
        for j in range(s.g.n):
            ra = s.g.vmax[j] / s.g.tmax[j]
            c = v[6 + j] + s.dt * a[6 + j]
            lo, hi = (-s.g.vmax[j] - c) / ra, (s.g.vmax[j] - c) / ra
            tau[6 + j] = np.clip(tau[6 + j], max(lo + 0.02 * (hi - lo), -0.9 * s.g.tmax[j]), min(hi - 0.02 * (hi - lo), 0.9 * s.g.tmax[j]))
    JF = sum((J.T @ f for J, f in zip(Js, fs)), np.zeros(s.N))
    if s.fbase or s.vtl or rng.random() < 0.6:
        s.set(extra=tau + JF - (M @ a + h - s.extra))
    else:
        # in free motion, the base follows
        a[:6] = np.linalg.solve(M[:6, :6], JF[:6] - h[:6] - M[:6, 6:] @ a[6:])
        if np.abs(a).max() > 200:
            return False
        tau = M @ a + h - JF
    for j in range(s.g.n):
        if rng.random() < 0.3 or abs(tau[6 + j]) > 0.95 * s.g.tmax[j]:
            s.set_tlim(j, float(abs(tau[6 + j]) * rng.uniform(1.05, 1.5) + 0.01))
    s.witness = np.concatenate([a] + fs)
    # hard tasks, with targets such that the witness satisfies them
    nx = len(s.witness)
    tA = np.hstack([M] + [-J.T for J in Js])
    rows = [np.eye(nx)[:6] if s.fbase else tA[:6]]
    off = s.N
    for c, J in zip(s.act(), Js):
        if c.p["type"] == "external":
            rows.append(np.eye(nx)[off:off + 6])
        off += len(J)
    for i in hard:
        t = s.tasks[i]
        k = t.p["type"]
        A, b = s.mat(t)
        if k in DD:
            d = A @ a - b
            if len(b) != 3:
                continue
            setattr(t.obj, DD[k][0], d if k != "relative_orientation" else s.Tf(t.p["f"] - 1)[:3, :3].T @ d)
            s.settask(i, ddx=np.array(getattr(t.obj, DD[k][0])).reshape(-1))
            ok = [1, 2, 3]
            if not any(c.p.get("pos") == i + 1 or c.p.get("ori") == i + 1 for c in s.contacts):
                s.mask_task(i)
            m = t.p["mask"]
            X = m["R"] if m["frame"] == "custom" else np.eye(3)
            if m["frame"] == "local":
                X = t.p["R"].T if k == "orientation" else s.Tf(t.p["f"] - 1)[:3, :3].T
            A = np.hstack([(X @ A)[[x - 1 for x in m["axes"]]], np.zeros((len(m["axes"]), nx - s.N))])
        elif k == "joints":
            names = sorted(e["j"] for e in t.p["joints"])
            for e in list(t.p["joints"]):
                r = [x for x in range(len(b)) if A[x, 5 + e["j"]] == 1][0]
                s.joint_target(i, e["j"] - 1, e["x"], e["dx"], float(e["ddx"] + a[5 + e["j"]] - b[r]))
            A = np.hstack([A, np.zeros((len(A), nx - s.N))])
        else:
            for e in list(t.p["joints"]):
                s.torque(i, e["j"] - 1, float(tau[5 + e["j"]] + e["kd"] * v[5 + e["j"]]), e["kd"])
            A = A @ tA
        R = np.vstack(rows + [A])
        sc = np.linalg.norm(R, axis=1, keepdims=True)
        if len(R) < nx and sc.min() > 1e-6 and np.linalg.svd(R / sc)[1].min() > 0.05:
            rows.append(A)
            s.configure(i, "hard", wkind(rng))
    return True


def kinds_of(rng, n):
    out = []
    for k in rng.choice(["point", "6d", "line", "external", "puppet", "task"], n, p=[0.25, 0.25, 0.2, 0.15, 0.05, 0.1]):
        out.append((str(k), bool(rng.random() < 0.6)))
    return out


def s_contacts(rng, rec, k):
    """Equation of motion and contacts."""
    s = start(rng, rec, n=int(rng.choice([2, 3, 4])))
    if not build(s, kinds_of(rng, int(rng.integers(1, 4))), int(rng.integers(0, 2)), 2, limits=rng.random() < 0.3):
        return
    if not s.solve():
        return
    s.witness = None
    for _ in range(int(rng.integers(0, 3))):
        u = rng.random()
        for i, t in enumerate(s.tasks):
            if t.on and t.prio == "hard":
                s.configure(i, "soft", 1.0)
        s.set(vl=False, jl=False, vtl=False, tl=False)
        on = [i for i, c in enumerate(s.contacts) if c.on]
        if u < 0.4 and on:
            i = int(rng.choice(on))
            s.deactivate(i, not s.contacts[i].p["active"])
        elif u < 0.6 and on:
            s.remove_contact(int(rng.choice(on)))
        elif u < 0.8 and on:
            s.dress(int(rng.choice(on)))
        s.refresh()
        if near_pi(s) or np.abs(np.array(s.r.state.qd)).max() > 10:
            return
        s.solve()


def s_limits(rng, rec, k):
    """Limits on torques, velocities and positions; collisions."""
    if rng.random() < 0.3:
        return collisions(rng, rec)
    s = start(rng, rec, n=int(rng.choice([2, 3, 4])), zero_limits=0.15)
    if rng.random() < 0.3:
        lim = [j for j in range(s.g.n) if s.g.hi[j] < 1e300]
        if lim:
            j = int(rng.choice(lim))
            x = s.g.hi[j] + float(rng.uniform(0.01, 0.3)) if rng.random() < 0.5 else s.g.lo[j] - float(rng.uniform(0.01, 0.3))
            s.r.set_joint(s.g.names[j], x)
            rec("SetJoint", j=j + 1, x=x)
            s.fresh = False
            s.refresh()
    if not build(s, kinds_of(rng, int(rng.integers(0, 2))), int(rng.integers(0, 2)), 1):
        return
    # strong pushes towards the limits
    i = s.push(s.s.add_joints_task(), type="joints", joints=[])
    for j in range(s.g.n):
        s.joint_target(i, j, float(s.q()[j] + rng.uniform(-3, 3)))
    s.configure(i, "soft", float(10 ** rng.uniform(-1, 2)))
    s.solve()


def collisions(rng, rec):
    g = Gen(rng, n=int(rng.integers(2, 5)), spheres=2, scale=0.3, prismatic=0.5 if rng.random() < 0.5 else 1.0)
    if len({o["joint"] for o in g.objs}) < 2:
        return
    s = ID(rng, rec, g)
    s.ed_base()
    for j, name in enumerate(g.names):
        lo, hi = max(g.lo[j], -0.5), min(g.hi[j], 0.5)
        x = float(rng.uniform(lo, hi))
        s.r.set_joint(name, x)
        rec("SetJoint", j=j + 1, x=x)
    if all(j["kind"] == "P" for j in g.joints[1:]):
        v = np.append(np.zeros(6), rng.uniform(-0.5, 0.5, g.n))
        s.r.state.qd = v
        rec("SetV", v=v)
    s.fresh = False
    s.refresh()
    first = {}
    for k, (name, j, M) in enumerate(g.frames):
        if np.allclose(M, np.eye(4)):
            first.setdefault(j, k)
    objs = [dict(joint=o["joint"], c=o["c"], r=o["r"], frame=first[o["joint"]]) for o in g.objs]
    pairs = pairs_of(g)
    gaps = []
    for a, b in pairs:
        oa, ob = objs[a - 1], objs[b - 1]
        gaps.append(np.linalg.norm((s.Tf(oa["frame"]) @ np.append(oa["c"], 1))[:3] - (s.Tf(ob["frame"]) @ np.append(ob["c"], 1))[:3]) - oa["r"] - ob["r"])
    gaps = np.array(gaps)
    trigger, margin = float(rng.uniform(0.05, 0.3)), float(rng.uniform(0.0, 0.04))
    if np.min(np.abs(gaps - trigger)) < 1e-4 or np.min(np.abs(gaps)) < 1e-3 or np.min(np.abs(gaps - margin)) < 1e-4:
        return
    if not build(s, [], 0, 1):
        return
    t = s.s.add_avoid_self_collisions_constraint()
    t.self_collisions_margin = margin
    t.self_collisions_trigger = trigger
    c = T(t, objs=objs, pairs=pairs, trigger=trigger, margin=margin)
    s.cons.append(c)
    rec("IDAddCon", t=dict(objs=objs, pairs=pairs, trigger=trigger, margin=margin))
    s.v0 = np.array(s.r.state.qd)
    A, b = s.collision_rows(c)
    hard = bool((A @ s.witness[:s.N] + b > 1e-4).all() and rng.random() < 0.8)
    w = wkind(rng)
    t.configure("c", "hard" if hard else "soft", w)
    c.prio, c.w = "hard" if hard else "soft", w
    rec("IDSetCon", i=1, ch=dict(prio=c.prio, w=w))
    s.solve()
    if rng.random() < 0.3:
        s.s.remove_constraint(t)
        c.on = False
        rec("IDSetCon", i=1, ch={"in": False})
        s.witness = None
        s.solve(integrate=False)


def s_infeasible(rng, rec, k):
    """Contradictory problems and misuse: refused, and the robot does not move."""
    s = start(rng, rec, n=int(rng.choice([2, 3])), zero_limits=0.0)
    u = rng.random()
    if u < 0.4:
        return misuse(s)
    s.set(dt=0.02)
    s.set(fbase=True)
    i = s.push(s.s.add_joints_task(), type="joints", joints=[])
    for j in range(s.g.n):
        s.joint_target(i, j, float(s.q()[j]))
    s.configure(i, "soft", 1.0)
    j = int(rng.integers(s.g.n))
    if u < 0.6:      # a hard acceleration against the limits
        s.set(vl=True)
        i = s.push(s.s.add_joints_task(), type="joints", joints=[])
        s.joint_target(i, j, float(s.q()[j]), 0.0, float(rng.choice([-1, 1]) * (2 * s.g.vmax[j] + 2) / s.dt * rng.uniform(1, 2)))
        s.configure(i, "hard", 1.0)
    elif u < 0.8:    # a hard torque beyond its limit
        s.set(tl=True)
        i = s.push(s.s.add_torque_task(), type="torque", joints=[])
        s.torque(i, j, float(rng.choice([-1, 1]) * s.g.tmax[j] * rng.uniform(1.1, 2)), 0.0)
        s.configure(i, "hard", 1.0)
    else:            # the base is masked, yet one of its frames must accelerate
        f = [k for k, x in enumerate(s.g.frames) if x[1] == 1][0]
        i = s.add("position", f)
        s.aim(i)
        s.configure(i, "hard", 1.0)
    s.solve(integrate=bool(rng.random() < 0.7), farkas=True)
    s.q_state()


def misuse(s):
    rng, rec = s.rng, s.rec
    u = rng.random()
    s.set(fbase=True)

    def refused():
        rec("IDRefused", solving=True, ok=[not raises(s.s.solve, bool(rng.random() < 0.5))[0]])
        s.q_state()
    if u < 0.15:
        i = s.contact("point", bool(rng.random() < 0.5))
        s.mask_task(s.contacts[i].p["pos"] - 1, [1, 3])
        refused()
    elif u < 0.3:
        i = s.contact("line", bool(rng.random() < 0.5))
        s.mask_task(s.contacts[i].p["ori"] - 1, [1] if rng.random() < 0.5 else [1, 2, 3])
        refused()
    elif u < 0.45:
        i = s.contact(str(rng.choice(["6d", "line"])), True)
        if s.contacts[i].p["type"] == "6d" and rng.random() < 0.7:
            s.setc(i, **{str(rng.choice(["length", "width"])): 0.1})
        refused()
    elif u < 0.6:
        i = s.add("com")
        s.configure(i, "scaled", 1.0)
        refused()
    elif u < 0.75:
        s.set(**{str(rng.choice(["vl", "jl", "vtl"])): True})
        refused()
    elif u < 0.85:
        rec("IDRefused", solving=True, ok=[not raises(s.s.solve, True)[0]])      # integration without a time step
        s.q_state()
    else:
        bad = [lambda: s.s.add_position_task("nope", np.zeros(3)), lambda: s.s.add_frame_task("nope", np.eye(4)), lambda: s.s.set_qdd_safe("nope", 1.0),
               lambda: s.s.set_torque_limit("nope", 1.0), lambda: s.s.add_relative_frame_task("base", "nope", np.eye(4)),
               lambda: s.s.add_external_wrench_contact("nope", "local"), lambda: s.s.add_external_wrench_contact("base", "nope")]
        rec("IDRefused", ok=[not raises(f)[0] for f in bad])
        rec("IDCount", n=s.s.count_contacts())


OWN = ["position", "orientation", "relative_position", "relative_orientation", "com", "joints", "gear"]


def s_life(rng, rec, k):
    """Adding, removing, clearing, other settings; tasks owned by the user."""
    s = start(rng, rec, n=int(rng.choice([2, 3])))
    s.life = True
    s.set(dt=0.01)
    s.set(fbase=True)

    def anchor():
        i = s.push(s.s.add_joints_task(), type="joints", joints=[])
        for j in range(s.g.n):
            s.joint_target(i, j, float(s.q()[j]))
        return i
    anchors = {anchor()}
    for _ in range(int(rng.integers(4, 12))):
        on = [i for i, t in enumerate(s.tasks) if t.on and i not in anchors and
              not any(c.on and i + 1 in (c.p.get("pos"), c.p.get("ori")) for c in s.contacts)]
        con = [i for i, c in enumerate(s.contacts) if c.on]
        u = rng.random()
        s.refresh()
        if u < 0.25:
            i = s.add(str(rng.choice(KINDS)))
            s.configure(i, "soft", wkind(rng))
        elif u < 0.4:
            kind = str(rng.choice(["point", "6d", "line", "external", "puppet"]))
            s.dress(s.contact(kind, bool(rng.random() < 0.5)))
        elif u < 0.5 and con:
            s.remove_contact(int(rng.choice(con)))
        elif u < 0.65 and on:
            i = int(rng.choice(on))
            s.remove(i)
            if s.tasks[i].own:
                s.s.add_task(s.tasks[i].obj)
                s.tasks[i].on = True
                rec("IDSetTask", i=i + 1, ch={"in": True})
        elif u < 0.72:
            # a task owned by the user
            sol, n = s.s, len(s.tasks)
            s.s = Own(sol, s.r, "Dynamics", OWN)
            i = s.add(str(rng.choice(OWN)))
            s.s = sol
            for t in s.tasks[n:]:
                t.own = True
            s.configure(i, "soft", wkind(rng))
        elif u < 0.75:
            off = [i for i, t in enumerate(s.tasks) if t.own and not t.on]
            if off:
                i = int(rng.choice(off))
                s.s.add_task(s.tasks[i].obj)
                s.tasks[i].on = True
                rec("IDSetTask", i=i + 1, ch={"in": True})
        elif u < 0.8:
            s.s.clear()
            for t in s.tasks + s.contacts + s.cons:
                t.on = False
            rec("IDClear")
            rec("IDCount", n=s.s.count_contacts())
            anchors.add(anchor())
        elif u < 0.9 and on:
            s.retarget(int(rng.choice(on)))
        elif con:
            i = int(rng.choice(con))
            s.deactivate(i, not s.contacts[i].p["active"])
        if rng.random() < 0.3:
            # settings: with a masked base, there is always a solution when only one of torques and velocities is limited
            c = int(rng.integers(5))
            if c == 0:
                on = not s.tl
                s.set(tl=on, **(dict(vl=False) if on else {}))
            elif c == 1:
                j = int(rng.integers(s.g.n))
                s.set_tlim(j, float(rng.uniform(0.1, 20)))
            elif c == 2:
                s.set(damping=float(rng.choice([0.0, rng.uniform(0, 2)])), gonly=bool(rng.integers(2)))
            elif c == 3:
                s.set(extra=rng.uniform(-3, 3, s.N) * float(rng.integers(2)))
            else:
                s.set(cost=float(10 ** rng.uniform(-4, -1)))
        rec("IDCount", n=s.s.count_contacts())
        s.refresh()
        if rng.random() < 0.4 and not near_pi(s):
            # contacts that carry nothing but the asked wrenches, and no torque at all
            M, h, J = s.motion()
            ws = [np.array(c.p["wrench"], float) if c.p["type"] == "external" else np.zeros(len(j)) for c, j in zip(s.act(), J)]
            a = np.zeros(s.N)
            a[6:] = np.linalg.solve(M[6:, 6:], (sum([j.T @ w for j, w in zip(J, ws)], -h))[6:])
            s.witness = np.concatenate([a] + ws)
            if not s.solve():
                return
            s.q_state()


def s_replay(rng, rec, b):
    """A history of spec/MCID.tla, then solves."""
    g = Slides()
    g.tmax = [3.0] * 3
    g.urdf = g.urdf.replace('effort="1"', 'effort="3"')
    s = ID(rng, rec, g)
    s.set(dt=1.0, fbase=True, gonly=True, cost=1.0)

    def put(obj, prio, **p):
        i = s.push(obj, **p)
        s.tasks[i].obj.kp, s.tasks[i].obj.kd = 1.0, 0.0
        s.tasks[i].kp, s.tasks[i].kd = 1.0, 0.0
        rec("IDSetTask", i=i + 1, ch=dict(kp=1.0, kd=0.0))
        s.configure(i, prio, 1.0)
        return i
    for op in b["hist"]:
        k = op["op"]
        if k == "joints":
            i = put(s.s.add_joints_task(), op["prio"], type="joints", joints=[])
            s.joint_target(i, op["j"] - 1, float(op["x"]))
        elif k == "torque":
            i = put(s.s.add_torque_task(), op["prio"], type="torque", joints=[])
            s.torque(i, op["j"] - 1, float(op["x"]), 0.0)
        elif k == "gear":
            i = put(s.s.add_gear_task(), "hard", type="gear", gears=[])
            s.gear(i, 0, 2, 1.0, True)
        elif k == "wrench":
            o = s.s.add_external_wrench_contact(g.frames[2][0], "world")
            p = dict(type="external", f=3, ref="lwa")
            c = T(o, **p)
            c.p = dict(active=True, wrench=np.zeros(6), **p)
            s.contacts.append(c)
            rec("IDAddContact", t=p)
            s.setc(len(s.contacts) - 1, wrench=np.array([op["x"], 1, 0, 0, 0, 0], float))
        elif k == "point":
            # here the task of the contact stays in the solver, with no effect
            i = s.push(s.s.add_position_task(g.frames[3][0], np.zeros(3)), type="position", f=4, x=np.zeros(3), dx=np.zeros(3), ddx=np.zeros(3), mask=NOMASK)
            s.configure(i, "soft", 0.0)
            s.tasks[i].anchor = True
            o = s.s.add_unilateral_point_contact(s.tasks[i].obj)
            p = dict(type="point", pos=i + 1, uni=True)
            c = T(o, **p)
            c.p = dict(R=np.eye(3), mu=1.0, wf=0.0, wt=0.0, wm=0.0, active=True, **p)
            s.contacts.append(c)
            rec("IDAddContact", t=p)
            s.setc(len(s.contacts) - 1, wf=1.0)
        elif k in ("tl", "vl", "jl"):
            s.set(**{k: not getattr(s, k)})
        elif k == "damp":
            s.set(damping=2.0)
        elif k == "vel":
            v = np.array(s.r.state.qd)
            v[6] = 1 - v[6]
            s.r.state.qd = v
            rec("SetV", v=v)
            s.fresh = False
        elif k == "remove":
            s.remove([i for i, t in enumerate(s.tasks) if t.on and not hasattr(t, "anchor")][0])
        elif k == "off":
            s.deactivate([i for i, c in enumerate(s.contacts) if c.on and c.p["active"]][0], False)
        elif k == "clear":
            s.s.clear()
            rec("IDClear")
            for t in s.tasks + s.contacts:
                t.on = False
        rec("IDCount", n=s.s.count_contacts())
    if b["wit"]:
        s.witness = np.array(b["wit"], float)
        s.prime()
        A = np.vstack([A for A, c, ineq, hard, w in s.program(s.motion(), s.q(), np.array(s.r.state.qd)) if hard and not ineq])
        if np.linalg.matrix_rank(A) < len(A):
            s.witness = None        # redundant equalities may be refused
    if s.solve(integrate=True, farkas=not b["wit"]):
        s.witness = None
        s.q_state()
        s.refresh()
        s.solve(integrate=False)
        s.task_matrices()
