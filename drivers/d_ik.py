"""Kinematics solver (spec/IK.tla): random robots, tasks, constraints and histories of solves.

The driver keeps a mirror of the rows of the program only to compute a certificate (multipliers) for each solution; the
specification has its own rows and judges the certificate."""
import numpy as np
import placo
from common import raises, rand_frame, rand_rot, rot, kkt_multipliers
from robotgen import Gen
from d_robot import Sim, pairs_of

MASKABLE = ("position", "orientation", "relative_position", "relative_orientation", "com", "momentum")
AX = "xyz"


def log3(R):
    t = np.arccos(np.clip((np.trace(R) - 1) / 2, -1, 1))
    v = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    return v / 2 if t < 1e-9 else v * t / (2 * np.sin(t))


def unit(v):
    return v / np.linalg.norm(v)


class T:
    """A task or constraint: the object of the code, and the parameters known to the specification."""

    def __init__(self, obj, **p):
        self.obj, self.p, self.on, self.prio, self.w, self.own = obj, p, True, "soft", 1.0, False


class IK(Sim):
    def __init__(self, rng, rec, gen):
        super().__init__(rng, rec, gen)
        self.s = placo.KinematicsSolver(self.r)
        self.tasks, self.cons = [], []
        self.dt, self.jl, self.vl, self.masked, self.fbase = 0.0, True, False, set(), False
        self.N = gen.n + 6
        self.life = False
        rec("Solver", n=int(self.s.N), dt=float(self.s.dt), count=self.s.tasks_count())

    # ---- kinematics used by the mirror
    def Tf(self, f):
        return np.array(self.r.get_T_world_frame(self.g.frames[f][0]))

    def Jf(self, f):
        return np.array(self.r.frame_jacobian(self.g.frames[f][0], "local_world_aligned"))

    def J_at(self, f, p):
        J = self.Jf(f)
        d = p - self.Tf(f)[:3, 3]
        return J[:3] + np.cross(J[3:].T, d).T

    def q(self):
        return np.array([self.r.get_joint(x) for x in self.g.names])

    # ---- adding things
    def push(self, obj, **p):
        t = T(obj, **p)
        self.tasks.append(t)
        self.rec("AddTask", t=p)
        return len(self.tasks) - 1

    def pushc(self, obj, **p):
        t = T(obj, **p)
        self.cons.append(t)
        self.rec("AddCon", t=p)
        return len(self.cons) - 1

    def fidx(self, other=None):
        while True:
            f = int(self.rng.integers(len(self.g.frames)))
            if other is None or self.g.frames[f][1] != self.g.frames[other][1]:
                return f

    NOMASK = dict(axes=[1, 2, 3], frame="task", R=np.eye(3))

    def sep(self, f, g):
        return np.linalg.norm(self.Tf(f)[:3, 3] - self.Tf(g)[:3, 3])

    def add(self, kind, near=None):
        """near: displacement towards which the target is, at first order (None: any target)."""
        rng, s, n = self.rng, self.s, self.g.frames
        if kind == "position":
            f = self.fidx()
            p = self.Tf(f)[:3, 3]
            t = p + (self.Jf(f)[:3] @ near if near is not None else rng.uniform(-0.5, 0.5, 3))
            return self.push(s.add_position_task(n[f][0], t), type=kind, f=f + 1, target=t, mask=self.NOMASK)
        if kind == "orientation":
            f = self.fidx()
            R = self.Tf(f)[:3, :3]
            t = (rot(self.Jf(f)[3:] @ near) if near is not None else rot(unit(rng.normal(size=3)) * rng.uniform(-2.8, 2.8))) @ R
            return self.push(s.add_orientation_task(n[f][0], t), type=kind, f=f + 1, R=t, mask=self.NOMASK)
        if kind == "frame":
            f = self.fidx()
            R, p = self.Tf(f)[:3, :3], self.Tf(f)[:3, 3]
            M = np.eye(4)
            M[:3, :3] = rot(unit(rng.normal(size=3)) * rng.uniform(-2.8, 2.8)) @ R
            M[:3, 3] = p + rng.uniform(-0.5, 0.5, 3)
            ft = s.add_frame_task(n[f][0], M)
            i = self.push(ft.position(), type="position", f=f + 1, target=M[:3, 3], mask=self.NOMASK)
            j = self.push(ft.orientation(), type="orientation", f=f + 1, R=M[:3, :3], mask=self.NOMASK)
            self.tasks[i].ft = (ft, i, j)
            self.tasks[j].ft = (ft, i, j)
            return i
        if kind in ("relative_position", "relative_orientation", "relative_frame"):
            f = self.fidx()
            g = self.fidx(f)
            Tab = np.linalg.inv(self.Tf(f)) @ self.Tf(g)
            Ra = self.Tf(f)[:3, :3]
            dp = rng.uniform(-0.5, 0.5, 3)
            dR = rot(unit(rng.normal(size=3)) * rng.uniform(-2.8, 2.8))
            if near is not None:
                pb = self.Tf(g)[:3, 3]
                dp = Ra.T @ (self.J_at(g, pb) - self.J_at(f, pb)) @ near
                dR = rot(Ra.T @ (self.Jf(g)[3:] - self.Jf(f)[3:]) @ near)
            M = np.eye(4)
            M[:3, 3] = Tab[:3, 3] + dp
            M[:3, :3] = dR @ Tab[:3, :3]
            if kind == "relative_position":
                return self.push(s.add_relative_position_task(n[f][0], n[g][0], M[:3, 3]), type=kind, f=f + 1, g=g + 1, target=M[:3, 3], mask=self.NOMASK)
            if kind == "relative_orientation":
                return self.push(s.add_relative_orientation_task(n[f][0], n[g][0], M[:3, :3]), type=kind, f=f + 1, g=g + 1, R=M[:3, :3], mask=self.NOMASK)
            ft = s.add_relative_frame_task(n[f][0], n[g][0], M)
            i = self.push(ft.position(), type="relative_position", f=f + 1, g=g + 1, target=M[:3, 3], mask=self.NOMASK)
            j = self.push(ft.orientation(), type="relative_orientation", f=f + 1, g=g + 1, R=M[:3, :3], mask=self.NOMASK)
            self.tasks[i].rft = self.tasks[j].rft = (ft, i, j)
            return i
        if kind == "com":
            t = np.array(self.r.com_world()) + (np.array(self.r.com_jacobian()) @ near if near is not None else rng.uniform(-0.3, 0.3, 3))
            return self.push(s.add_com_task(t), type=kind, target=t, mask=self.NOMASK)
        if kind == "joints":
            t = s.add_joints_task()
            i = self.push(t, type=kind, joints=[])
            ks = rng.choice(self.g.n, int(rng.integers(1, self.g.n + 1)), replace=False)
            q = self.q()
            if rng.random() < 0.5:
                d = {}
                for j in ks:
                    d[self.g.names[j]] = float(q[j] + (near[6 + j] if near is not None else rng.uniform(-1, 1)))
                t.set_joints(d)
                for j in ks:
                    self.joint_target(i, int(j), d[self.g.names[j]], call=False)
            else:
                for j in ks:
                    self.joint_target(i, int(j), float(q[j] + (near[6 + j] if near is not None else rng.uniform(-1, 1))))
            return i
        if kind == "gear":
            if self.g.n < 2:
                return self.add("com", near)
            t = s.add_gear_task()
            i = self.push(t, type=kind, gears=[])
            for _ in range(int(rng.integers(1, 4))):
                a, b = rng.choice(self.g.n, 2, replace=False)
                self.gear(i, int(a), int(b), float(rng.uniform(-2, 2)), bool(rng.random() < 0.5))
            return i
        if kind == "distance":
            for _ in range(20):
                f = self.fidx()
                g = self.fidx(f)
                if self.sep(f, g) > 0.05:
                    break
            else:
                return self.add("com", near)
            d = self.sep(f, g)
            row = self.dist_row(f, g)
            d = float(d + (row @ near if near is not None else rng.uniform(-0.4, 0.4)))
            return self.push(s.add_distance_task(n[f][0], n[g][0], d), type=kind, f=f + 1, g=g + 1, d=d)
        if kind == "axisalign":
            f = self.fidx()
            a = rng.normal(size=3) * rng.uniform(0.3, 3)
            w = rng.normal(size=3) * rng.uniform(0.3, 3)
            if rng.random() < 0.15:
                w = self.Tf(f)[:3, :3] @ a     # already aligned
            return self.push(s.add_axisalign_task(n[f][0], a, w), type=kind, f=f + 1, axis=a, target=w)
        if kind == "wheel":
            j = int(rng.integers(self.g.n))
            f = [k for k, x in enumerate(n) if x[0] == self.g.names[j]][0]
            S = rand_frame(rng, 0.5) if rng.random() < 0.6 else np.eye(4)
            rad, om = float(rng.uniform(0.05, 0.5)), bool(rng.random() < 0.5)
            az = (S[:3, :3].T @ self.Tf(f)[:3, :3])[2, 2]
            if abs(az) > 0.95:      # the wheel lies flat
                return self.add("com", near)
            t = s.add_wheel_task(self.g.names[j], rad, om)
            t.T_world_surface = S
            return self.push(t, type=kind, f=f + 1, radius=rad, omni=om, S=S)
        if kind == "regularization":
            m = float(10 ** rng.uniform(-4, -1))
            t = s.add_regularization_task(m)
            i = self.push(t, type=kind, mag=m, jw=[""] * self.g.n)
            for _ in range(int(rng.integers(0, 3))):
                self.reg_joint(i)
            return i
        if kind == "manipulability":
            k = str(rng.choice(["position", "orientation", "both"]))
            need = 6 if k == "both" else 3
            for _ in range(10):
                f = self.fidx()
                J = np.array(self.r.frame_jacobian(n[f][0], "local"))[:, 6:]
                J = J[:3] if k == "position" else J[3:] if k == "orientation" else J
                if J.shape[1] >= need and np.linalg.svd(J)[1].min() > 0.1:
                    lam = float(rng.uniform(0.5, 2))
                    t = s.add_manipulability_task(n[f][0], k, lam)
                    mi = bool(rng.random() < 0.3)
                    t.minimize = mi
                    return self.push(t, type=kind, f=f + 1, kind=k, minimize=mi, **{"lambda": lam})
            return self.add("com", near)
        if kind == "kinetic":
            m = float(10 ** rng.uniform(-3, 0))
            t = s.add_kinetic_energy_regularization_task(m)
            i = self.push(t, type=kind)
            self.tasks[i].w = m
            self.rec("Configure", i=i + 1, prio="soft", w=m)
            return i
        if kind == "momentum":
            L = rng.uniform(-1, 1, 3)
            return self.push(s.add_centroidal_momentum_task(L), type=kind, L=L, mask=self.NOMASK)
        raise KeyError(kind)

    def joint_target(self, i, j, x, call=True):
        t = self.tasks[i]
        if call:
            t.obj.set_joint(self.g.names[j], x)
        # same order as PutJoint of the specification: the multipliers of the certificate are per row
        new = {e["j"]: e for e in t.p["joints"]}
        new[j + 1] = dict(j=j + 1, x=x)
        t.p["joints"] = list(new.values())
        self.rec("JointTarget", i=i + 1, j=j + 1, x=x, get=float(t.obj.get_joint(self.g.names[j])))

    def gear(self, i, a, b, r, keep):
        t = self.tasks[i]
        (t.obj.add_gear if keep else t.obj.set_gear)(self.g.names[a], self.g.names[b], r)
        G = {e["j"]: dict(e["src"]) for e in t.p["gears"]}
        src = G.get(a + 1, {}) if keep else {}
        src[b + 1] = r
        G[a + 1] = src
        t.p["gears"] = [dict(j=k, src=v) for k, v in G.items()]
        self.rec("Gear", i=i + 1, j=a + 1, s=b + 1, r=r, keep=keep)

    def reg_joint(self, i):
        t = self.tasks[i]
        if self.rng.random() < 0.3:
            m = float(10 ** self.rng.uniform(-4, -1))
            t.obj.set_weight(m)
            t.p["mag"] = m
            self.rec("SetTask", i=i + 1, ch=dict(mag=m))
        else:
            j = int(self.rng.integers(self.g.n))
            known = [i for i in range(self.g.n) if t.p["jw"][i] != ""]
            if known and self.rng.random() < 0.5:
                j = int(self.rng.choice(known))
            w = float(10 ** self.rng.uniform(-4, 1))
            t.obj.set_joint_weight(self.g.names[j], w)
            t.p["jw"] = list(t.p["jw"])
            t.p["jw"][j] = w
            self.rec("SetTask", i=i + 1, ch=dict(jw=t.p["jw"]))

    def set(self, i, **ch):
        self.tasks[i].p.update(ch)
        self.rec("SetTask", i=i + 1, ch=ch)

    def mask_task(self, i):
        t, rng = self.tasks[i], self.rng
        axes = [int(x) + 1 for x in rng.permutation(3)[:int(rng.integers(1, 4))]]
        frames = ["task", "custom"] + (["local"] if t.p["type"] in ("position", "orientation") else [])
        fr = str(rng.choice(frames))
        s = "".join(AX[a - 1] for a in axes)
        R = rand_rot(rng)
        t.obj.mask.R_custom_world = R
        t.obj.mask.set_axises(s.upper() if rng.random() < 0.3 else s, fr if fr != "task" or rng.random() < 0.5 else "world")
        self.set(i, mask=dict(axes=axes, frame=fr, R=R))

    def retarget(self, i):
        """Changes the parameters of a task."""
        t, rng = self.tasks[i], self.rng
        k, o = t.p["type"], t.obj
        both = getattr(t, "ft", None) or getattr(t, "rft", None)
        if both and self.tasks[both[1]].on and self.tasks[both[2]].on and rng.random() < 0.5:
            # the pose of a frame task
            ft, a, b = both
            P, O = self.tasks[a].p, self.tasks[b].p
            M = np.eye(4)
            M[:3, 3] = P["target"] + rng.uniform(-0.3, 0.3, 3)
            base = self.Tf(O["f"] - 1) if k in ("position", "orientation") else np.linalg.inv(self.Tf(O["f"] - 1)) @ self.Tf(O["g"] - 1)
            M[:3, :3] = rot(unit(rng.normal(size=3)) * rng.uniform(-2.8, 2.8)) @ base[:3, :3]
            setattr(ft, "T_world_frame" if k in ("position", "orientation") else "T_a_b", M)
            self.set(a, target=M[:3, 3])
            self.set(b, R=M[:3, :3])
            return
        if k in ("position", "com"):
            x = t.p["target"] + rng.uniform(-0.3, 0.3, 3)
            o.target_world = x
            self.set(i, target=x)
        elif k == "relative_position":
            x = t.p["target"] + rng.uniform(-0.3, 0.3, 3)
            o.target = x
            self.set(i, target=x)
        elif k == "orientation":
            R = rot(unit(rng.normal(size=3)) * rng.uniform(-2.8, 2.8)) @ self.Tf(t.p["f"] - 1)[:3, :3]
            o.R_world_frame = R
            self.set(i, R=R)
        elif k == "relative_orientation":
            R = rot(unit(rng.normal(size=3)) * rng.uniform(-2.8, 2.8)) @ (np.linalg.inv(self.Tf(t.p["f"] - 1)) @ self.Tf(t.p["g"] - 1))[:3, :3]
            o.R_a_b = R
            self.set(i, R=R)
        elif k == "joints":
            self.joint_target(i, int(rng.integers(self.g.n)), float(rng.uniform(-2, 2)))
        elif k == "gear" and self.g.n > 1:
            a, b = rng.choice(self.g.n, 2, replace=False)
            self.gear(i, int(a), int(b), float(rng.uniform(-2, 2)), bool(rng.random() < 0.5))
        elif k == "distance":
            d = float(rng.uniform(0.01, 1))
            o.distance = d
            self.set(i, d=d)
        elif k == "axisalign":
            a, w = rng.normal(size=3), rng.normal(size=3)
            o.axis_frame = a
            o.targetAxis_world = w
            self.set(i, axis=a, target=w)
        elif k == "regularization":
            self.reg_joint(i)
        elif k == "momentum":
            L = rng.uniform(-1, 1, 3)
            o.L_world = L
            self.set(i, L=L)
        elif k == "manipulability":
            mi, lam = bool(rng.random() < 0.5), float(rng.uniform(0.5, 2))
            o.minimize = mi
            o.lambda_ = lam
            self.set(i, minimize=mi, **{"lambda": lam})

    def configure(self, t, i, prio, w, what="Configure"):
        t.obj.configure("t%d" % i, prio, w)
        t.prio, t.w = prio, w
        self.rec(what, i=i + 1, prio=prio, w=w)

    def remove(self, i):
        t = self.tasks[i]
        if hasattr(t, "ft") and self.rng.random() < 0.5:
            ft, a, b = t.ft
            if self.tasks[a].on and self.tasks[b].on:
                self.s.remove_task(ft)
                for k in (a, b):
                    self.tasks[k].on = False
                    self.rec("Remove", i=k + 1)
                return
        self.s.remove_task(t.obj)
        t.on = False
        self.rec("Remove", i=i + 1)

    # ---- configuration of the solver
    def set_dt(self, dt):
        self.dt = dt
        self.s.dt = dt
        self.rec("Dt", dt=dt)

    def limits(self, jl=None, vl=None):
        if jl is not None:
            self.s.enable_joint_limits(jl)
            self.jl = jl
        if vl is not None:
            self.s.enable_velocity_limits(vl)
            self.vl = vl
        self.rec("EnableLimits", jl=self.jl, vl=self.vl)

    def mask(self, j, on):
        (self.s.mask_dof if on else self.s.unmask_dof)(self.g.names[j])
        (self.masked.add if on else self.masked.discard)(j)
        self.rec("Mask", j=j + 1, on=on)

    def mask_fbase(self, on):
        self.s.mask_fbase(on)
        self.fbase = on
        self.rec("MaskBase", on=on)

    def count(self):
        self.rec("Count", n=self.s.tasks_count())

    def dump(self):
        self.s.dump_status()

    # ---- mirror of the rows
    def dist_row(self, f, g):
        pa, pb = self.Tf(f)[:3, 3], self.Tf(g)[:3, 3]
        return unit(pb - pa) @ (self.Jf(g)[:3] - self.Jf(f)[:3])

    def masked_rows(self, m, Rl, A, b):
        if m["frame"] == "local":
            A, b = Rl @ A, Rl @ b
        elif m["frame"] == "custom":
            A, b = m["R"] @ A, m["R"] @ b
        ix = [a - 1 for a in m["axes"]]
        return A[ix], b[ix]

    def rows(self, t):
        p, N = t.p, self.N
        k = p["type"]
        E = np.eye(N)
        if k == "position":
            M = self.Tf(p["f"] - 1)
            return self.masked_rows(p["mask"], M[:3, :3].T, self.Jf(p["f"] - 1)[:3], p["target"] - M[:3, 3])
        if k == "orientation":
            M = self.Tf(p["f"] - 1)
            return self.masked_rows(p["mask"], p["R"].T, self.Jf(p["f"] - 1)[3:], log3(p["R"] @ M[:3, :3].T))
        if k in ("relative_position", "relative_orientation"):
            a, b = p["f"] - 1, p["g"] - 1
            Ta, Tb = self.Tf(a), self.Tf(b)
            Tab = np.linalg.inv(Ta) @ Tb
            if k == "relative_position":
                return self.masked_rows(p["mask"], None, Ta[:3, :3].T @ (self.J_at(b, Tb[:3, 3]) - self.J_at(a, Tb[:3, 3])), p["target"] - Tab[:3, 3])
            return self.masked_rows(p["mask"], None, Ta[:3, :3].T @ (self.Jf(b)[3:] - self.Jf(a)[3:]), log3(p["R"] @ Tab[:3, :3].T))
        if k == "com":
            return self.masked_rows(p["mask"], None, np.array(self.r.com_jacobian()), p["target"] - np.array(self.r.com_world()))
        if k == "joints":
            q = self.q()
            return E[[5 + e["j"] for e in p["joints"]]], np.array([e["x"] - q[e["j"] - 1] for e in p["joints"]])
        if k == "gear":
            A = np.zeros((len(p["gears"]), N))
            for r, e in enumerate(p["gears"]):
                A[r, 5 + e["j"]] -= 1
                for sj, ra in e["src"].items():
                    A[r, 5 + sj] += ra
            return A, -A[:, 6:] @ self.q()
        if k == "distance":
            return self.dist_row(p["f"] - 1, p["g"] - 1)[None], np.array([p["d"] - self.sep(p["f"] - 1, p["g"] - 1)])
        if k == "axisalign":
            u, w = unit(self.Tf(p["f"] - 1)[:3, :3] @ p["axis"]), unit(p["target"])
            c = np.cross(u, w)
            e = np.zeros(3) if np.linalg.norm(c) < 1e-12 else unit(c) * np.arctan2(np.linalg.norm(c), u @ w)
            return (np.eye(3) - np.outer(u, u)) @ self.Jf(p["f"] - 1)[3:], e
        if k == "wheel":
            S = p["S"]
            M = np.linalg.inv(S) @ self.Tf(p["f"] - 1)
            a, z = M[:3, 2], np.array([0, 0, 1.0])
            down, x = unit(a[2] * a - z), unit(np.cross(a, z))
            y = np.cross(z, x)
            c = M[:3, 3] + p["radius"] * down
            J = S[:3, :3].T @ self.J_at(p["f"] - 1, (S @ np.append(c, 1))[:3])
            b = np.array([0, 0, -c[2]])
            ix = [0, 2] if p["omni"] else [0, 1, 2]
            return np.array([x, y, z])[ix] @ J, b[ix]
        if k == "regularization":
            return np.sqrt([p["mag"] if w == "" else w for w in p["jw"]])[:, None] * E[6:], np.zeros(N - 6)
        if k == "manipulability":
            t.obj.update()
            return p["lambda"] * E[6:], np.array(t.obj.b).reshape(-1)
        if k == "momentum":
            return self.masked_rows(p["mask"], None, np.array(self.r.centroidal_map())[3:] / self.dt, p["L"])
        if k == "kinetic":
            M = np.array(self.r.mass_matrix()) / (2 * self.dt ** 2)
            return np.linalg.cholesky((M + M.T) / 2).T, np.zeros(N)
        raise KeyError(k)

    def con_rows(self, c):
        """A dq + b >= 0"""
        p, N = c.p, self.N
        k = p["type"]
        if k == "distance":
            return -self.dist_row(p["f"] - 1, p["g"] - 1)[None], np.array([p["d"] - self.sep(p["f"] - 1, p["g"] - 1)])
        if k == "com_polygon":
            P = np.array(p["polygon"])
            J = np.array(self.r.com_jacobian())[:2] * (1 + 1 / (self.dt * p["omega"]) if p["dcm"] else 1)
            e = np.roll(P, -1, axis=0) - P
            n = np.array([unit(np.array([v[1], -v[0]])) for v in e])
            return n @ J, np.sum(n * (np.array(self.r.com_world())[:2] - P), axis=1) - p["margin"]
        if k == "half_spaces":
            A = np.array(p["A"])
            return -np.hstack([np.zeros((len(A), 6)), A]), np.array(p["b"]) - A @ self.q()
        if k in ("yaw", "cone"):
            Ta = self.Tf(p["f"] - 1)
            R = Ta[:3, :3].T @ self.Tf(p["g"] - 1)[:3, :3]
            W = Ta[:3, :3].T @ (self.Jf(p["g"] - 1)[3:] - self.Jf(p["f"] - 1)[3:])
            if k == "yaw":
                x = R[:, 0]
                dx = -np.array([[0, -x[2], x[1]], [x[2], 0, -x[0]], [-x[1], x[0], 0]]) @ W
                row = (x[0] * dx[1] - x[1] * dx[0]) / (x[0] ** 2 + x[1] ** 2)
                a = np.arctan2(x[1], x[0])
                return np.array([-row, row]), np.array([p["max"] - a, p["max"] + a])
            z = R[:, 2]
            ax = unit(np.array([-z[1], z[0], 0]))
            return -(ax @ W)[None], np.array([p["max"] - np.arctan2(np.hypot(z[0], z[1]), z[2])])
        if k == "self_collision":
            A, b = [], []
            for a_, b_ in p["pairs"]:
                oa, ob = p["objs"][a_ - 1], p["objs"][b_ - 1]
                fa, fb = oa["frame"], ob["frame"]
                ca = (self.Tf(fa) @ np.append(oa["c"], 1))[:3]
                cb = (self.Tf(fb) @ np.append(ob["c"], 1))[:3]
                gap = np.linalg.norm(cb - ca) - oa["r"] - ob["r"]
                if gap < p["trigger"]:
                    A.append(unit(cb - ca) @ (self.J_at(fb, cb) - self.J_at(fa, ca)))
                    b.append(gap - p["margin"])
            return np.array(A).reshape(-1, N), np.array(b)
        raise KeyError(k)

    def program(self):
        """Blocks (A, b, ineq, hard, w) in the order of the specification."""
        sc = any(t.on and t.prio == "scaled" for t in self.tasks)
        nx = self.N + sc
        out = []

        def wide(A, s=None):
            A = np.array(A, float).reshape(-1, self.N)
            return np.hstack([A, (np.zeros(len(A)) if s is None else s)[:, None]]) if sc else A
        for t in self.tasks:
            if t.on:
                A, b = self.rows(t)
                if t.prio == "scaled":
                    out.append((wide(A, -b), np.zeros(len(b)), False, True, t.w))
                else:
                    out.append((wide(A), -b, False, t.prio == "hard", t.w))
        E = np.eye(nx)
        if sc:
            out += [(E[-1:], np.zeros(1), True, True, 1), (-E[-1:], np.ones(1), True, True, 1), (E[-1:], -np.ones(1), False, False, 1)]
        ix = (list(range(6)) if self.fbase else []) + sorted(6 + j for j in self.masked)
        if ix:
            out.append((E[ix], np.zeros(len(ix)), False, True, 1))
        q = self.q()
        lo, hi, vm = np.array(self.g.lo), np.array(self.g.hi), np.array(self.g.vmax)
        if self.jl:
            h, g = np.where(hi < 1e300)[0], np.where(lo > -1e300)[0]
            out.append((-E[6 + h], (hi - q)[h], True, True, 1))
            out.append((E[6 + g], (q - lo)[g], True, True, 1))
        if self.vl:
            js = E[6:6 + self.g.n]
            out += [(-js, self.dt * vm, True, True, 1), (js, self.dt * vm, True, True, 1)]
        for c in self.cons:
            if c.on:
                A, b = self.con_rows(c)
                out.append((wide(A), b, True, c.prio == "hard", c.w))
        return out

    def certificate(self, x, prog):
        n = len(x)
        g = 1e-8 * x
        scale = 1.0
        Aeq, Ain, rin, loc = np.zeros((0, n)), np.zeros((0, n)), np.zeros(0), []
        for A, b, ineq, hard, w in prog:
            r = A @ x + b
            if not hard:
                if ineq:
                    r = np.minimum(r, 0)
                t = w * A.T @ r
                g = g + t
                scale += np.abs(t).max(initial=0) + 0.01 * w * np.abs(A).max(initial=0) * (np.abs(b).max(initial=0) + np.abs(A).max(initial=0) * np.abs(x).max(initial=0))
                loc.append(None)
            elif ineq:
                loc.append(("i", len(Ain), len(Ain) + len(A)))
                Ain, rin = np.vstack([Ain, A]), np.append(rin, r)
            else:
                loc.append(("e", len(Aeq), len(Aeq) + len(A)))
                Aeq = np.vstack([Aeq, A])
        lam, mu = kkt_multipliers(g, Aeq, Ain, 5e-5, rin)
        mult = [np.zeros(len(p[1])) if l is None else (lam if l[0] == "e" else mu)[l[1]:l[2]] for p, l in zip(prog, loc)]
        return mult, scale

    def tight(self, prog):
        """The displacement is entirely fixed by the equalities and reaches a bound exactly: feasible or not only by rounding."""
        if prog is None:
            return False
        eq = [p[0] for p in prog if p[3] and not p[2]]
        n = len(self.witness)
        if not eq or np.linalg.matrix_rank(np.vstack(eq), 1e-9) < n:
            return False
        return any((p[0] @ self.witness + p[1]).min(initial=1) < 1e-9 for p in prog if p[3] and p[2])

    def solve(self, apply=None, farkas=None, cert=True, nocone=True):
        """farkas: multipliers proving that the problem is contradictory; witness: a displacement that satisfies the hard constraints."""
        self.refresh()
        apply = bool(self.rng.random() < 0.5) if apply is None else apply
        for i, t in enumerate(self.tasks):
            if t.on and t.p["type"] == "kinetic" and self.dt > 0:
                self.rec("Root", i=i + 1, M=self.rows(t)[0])
        kw = {}
        prog = self.program() if self.dt > 0 or not any(t.on and t.p["type"] in ("kinetic", "momentum") for t in self.tasks) else None
        fail, dq = raises(self.s.solve, apply)
        if farkas is not None:
            kw["farkas"] = farkas
        if not fail:
            dq = np.array(dq).reshape(-1)
            x = dq
            sc = any(t.on and t.prio == "scaled" for t in self.tasks)
            if sc:
                x = np.append(dq, float(self.s.scale))
            kw["scale"] = float(self.s.scale)
            if cert and prog is not None and np.isfinite(x).all():
                mult, s = self.certificate(x, prog)
                kw.update(mult=mult, mag=s)
            kw["dq"] = dq
        elif getattr(self, "witness", None) is not None and not self.tight(prog):
            kw["witness"] = self.witness
        st = self.r.state
        q = np.array(st.q)
        self.rec("IKSolve", ok=not fail, apply=apply, life=self.life, what="" if not fail else str(dq)[:80], q=q[7:], v=np.array(st.qd), a=np.array(st.qdd),
                 base=np.array(self.r.get_T_world_fbase()), **kw)
        if apply and not fail:
            self.fresh = False
            # what the specification computed is only known to a tolerance: resynchronise
            self.rec("Sync", q=q[7:], v=np.array(st.qd), a=np.array(st.qdd), base=np.array(self.r.get_T_world_fbase()))
        return not fail

    def task_matrices(self):
        self.refresh()
        for i, t in enumerate(self.tasks):
            if not t.on:
                continue
            t.obj.update()
            A, b = np.array(t.obj.A, float), np.array(t.obj.b, float).reshape(-1)
            if A.ndim == 1:
                A = A.reshape(len(b), -1)
            self.rec("TaskMat", i=i + 1, A=A, b=b, error=np.array(t.obj.error(), float).reshape(-1), norm=float(t.obj.error_norm()))


KINDS = ["position", "orientation", "frame", "relative_position", "relative_orientation", "relative_frame", "com", "joints", "gear", "distance", "axisalign",
         "wheel", "regularization", "manipulability", "kinetic", "momentum"]


def start(rng, rec, **kw):
    g = Gen(rng, extra=True, **kw)
    s = IK(rng, rec, g)
    s.ed_base()
    if rng.random() < 0.3:
        s.ed_motors()
    for j, name in enumerate(g.names):
        lo, hi = max(g.lo[j], -2.0), min(g.hi[j], 2.0)
        x = float(rng.uniform(lo, hi))
        s.r.set_joint(name, x)
        rec("SetJoint", j=j + 1, x=x)
    s.fresh = False
    s.refresh()
    return s


def s_tasks(rng, rec, k):
    """Matrices of every type of task, edited, in many configurations."""
    s = start(rng, rec, n=int(rng.choice([2, 3, 4, 7])))
    s.set_dt(float(rng.choice([0.01, 0.1])))
    for kind in rng.choice(KINDS, 6, replace=False):
        i = s.add(str(kind))
        if s.tasks[i].p["type"] in MASKABLE and rng.random() < 0.6:
            s.mask_task(i)
    for _ in range(2):
        s.task_matrices()
        for i in range(len(s.tasks)):
            if s.tasks[i].p["type"] == "manipulability" or rng.random() < 0.5:
                s.retarget(i)
            if s.tasks[i].p["type"] in ("regularization", "gear", "joints"):
                for _ in range(int(rng.integers(1, 4))):
                    s.retarget(i)
            if s.tasks[i].p["type"] in MASKABLE and rng.random() < 0.3:
                s.mask_task(i)
        for j, name in enumerate(s.g.names):
            x = float(s.r.get_joint(name) + rng.uniform(-0.2, 0.2))
            s.r.set_joint(name, x)
            rec("SetJoint", j=j + 1, x=x)
        s.ed_base()
        s.refresh()
        # keep away from the singular configurations of the tasks
        if any(t.p["type"] == "wheel" and abs((t.p["S"][:3, :3].T @ s.Tf(t.p["f"] - 1)[:3, :3])[2, 2]) > 0.97 for t in s.tasks) or \
           any(t.p["type"] == "distance" and s.sep(t.p["f"] - 1, t.p["g"] - 1) < 0.02 for t in s.tasks) or \
           any(t.p["type"] in ("orientation", "relative_orientation") and np.linalg.norm(s.rows(t)[1]) > 3.0 and True for t in s.tasks) or \
           any(t.p["type"] == "axisalign" and np.linalg.norm(s.rows(t)[1]) > 3.0 for t in s.tasks) or not manip_ok(s):
            return
    s.task_matrices()


def manip_ok(s):
    for t in s.tasks:
        if t.p["type"] == "manipulability":
            J = np.array(s.r.frame_jacobian(s.g.frames[t.p["f"] - 1][0], "local"))[:, 6:]
            J = J[:3] if t.p["kind"] == "position" else J[3:] if t.p["kind"] == "orientation" else J
            if np.linalg.svd(J)[1].min() < 0.05:
                return False
    return True


def feasible_dq(s, big=True):
    """A displacement within the limits, with the masked degrees of freedom still."""
    rng = s.rng
    d = rng.uniform(-0.3, 0.3, s.N)
    q, lo, hi = s.q(), np.array(s.g.lo), np.array(s.g.hi)
    if s.vl:
        m = 0.95 * s.dt * np.array(s.g.vmax)
        d[6:] = np.clip(d[6:], -m, m)
    if s.jl:
        e = np.minimum(1e-4, (hi - lo) / 4)       # strictly inside, when the joint is
        d[6:] = np.clip(q + d[6:], np.minimum(lo + e, np.maximum(q, lo)), np.maximum(hi - e, np.minimum(q, hi))) - q
    if s.fbase:
        d[:6] = 0
    for j in s.masked:
        d[6 + j] = 0
    return d


def hard_rank_ok(s, extra):
    """The equalities that would be hard (masks, hard and scaled tasks, extra rows) are independent."""
    A = [s.rows(t)[0] for t in s.tasks if t.on and t.prio != "soft"] + [extra]
    E = np.eye(s.N)
    ix = (list(range(6)) if s.fbase else []) + [6 + j for j in s.masked]
    A = np.vstack(A + [E[ix]])
    return len(A) <= s.N and np.linalg.svd(A)[1].min() > 0.08


HARDABLE = ["position", "orientation", "relative_position", "relative_orientation", "com", "joints", "distance"]
SOFT = ["position", "orientation", "frame", "relative_position", "relative_orientation", "relative_frame", "com", "joints", "gear", "distance", "axisalign", "wheel", "manipulability", "momentum", "kinetic"]


def setup(s, constraints=True):
    """Limits, masks and conditioning tasks."""
    rng = s.rng
    s.set_dt(float(rng.choice([0.01, 0.05, 0.5])))
    s.limits(bool(rng.random() < 0.7), bool(rng.random() < 0.5))
    s.add("regularization")
    if rng.random() < 0.5:
        s.mask_fbase(True)
    else:
        i = s.add("frame")
        s.configure(s.tasks[i], i, "soft", float(10 ** rng.uniform(-1, 1)))
        s.configure(s.tasks[i + 1], i + 1, "soft", float(10 ** rng.uniform(-1, 1)))
    keep = [j for j in range(s.g.n) if rng.random() < 0.12]
    if rng.random() < 0.5:
        # a history of masks: some are removed (or never were there)
        more = [j for j in range(s.g.n) if rng.random() < 0.4]
        for j in rng.permutation(keep + more):
            s.mask(int(j), True)
        for j in rng.permutation(sorted(set(range(s.g.n)) - set(keep))):
            if j in more or rng.random() < 0.3:
                s.mask(int(j), False)
    else:
        for j in keep:
            s.mask(j, True)


def wkind(rng):
    return float(10 ** rng.uniform(-2, 2))


def populate(s, scaled=None, hards=2, softs=3):
    rng = s.rng
    scaled = bool(rng.random() < 0.35) if scaled is None else scaled
    s.witness = np.zeros(s.N) if scaled else feasible_dq(s)
    for kind in rng.choice(HARDABLE, int(rng.integers(0, hards + 1))):
        i = s.add(str(kind), near=s.witness)
        if s.tasks[i].p["type"] in MASKABLE:
            s.mask_task(i)
        if hard_rank_ok(s, s.rows(s.tasks[i])[0]):
            s.configure(s.tasks[i], i, "hard", wkind(rng))
    for kind in rng.choice(SOFT, int(rng.integers(1, softs + 1))):
        i = s.add(str(kind))
        for m in range(i, len(s.tasks)):
            t = s.tasks[m]
            if t.p["type"] in MASKABLE and rng.random() < 0.4:
                s.mask_task(m)
            if t.p["type"] != "kinetic":
                if scaled and t.p["type"] in HARDABLE and hard_rank_ok(s, s.rows(t)[0]):
                    s.configure(t, m, "scaled", wkind(rng))
                else:
                    s.configure(t, m, "soft", wkind(rng))
    if any(t.prio == "scaled" for t in s.tasks):
        s.witness = np.append(s.witness, 0.0)


def s_solve(rng, rec, k):
    """Priorities, limits and masks."""
    s = start(rng, rec, n=int(rng.choice([2, 3, 4, 6])))
    setup(s)
    populate(s)
    s.count()
    ok = s.solve()
    for _ in range(int(rng.integers(0, 3))):
        if not ok:
            return
        s.witness = None
        u = rng.random()
        if u < 0.15:
            s.solve()
        elif u < 0.3:
            # other settings for the next steps
            j = int(rng.integers(s.g.n))
            if j in s.masked:
                s.mask(j, False)
            elif not any(t.on and t.prio != "soft" for t in s.tasks):
                s.mask(j, True)
            if rng.random() < 0.5:
                s.limits(bool(rng.random() < 0.7), bool(rng.random() < 0.5))
            if rng.random() < 0.3 and not any(t.on and t.p["type"] in ("momentum", "kinetic") for t in s.tasks):
                s.set_dt(float(rng.choice([0.01, 0.05, 0.5])))
            s.solve()
        elif u < 0.4:
            # other weights of the regularization
            for i in [i for i, t in enumerate(s.tasks) if t.on and t.p["type"] == "regularization"]:
                for _ in range(int(rng.integers(1, 4))):
                    s.reg_joint(i)
            s.solve()
        elif u < 0.65:
            on = [i for i, t in enumerate(s.tasks) if t.on and t.p["type"] != "regularization" and not hasattr(t, "ft") and t.prio != "hard"]
            if on:
                s.refresh()
                s.retarget(int(rng.choice(on)))
            s.solve()
        else:
            on = [i for i, t in enumerate(s.tasks) if t.on and t.p["type"] not in ("regularization", "kinetic") and t.prio == "hard"]
            for i in on:
                s.configure(s.tasks[i], i, "soft", wkind(rng))
            s.solve()
        s.q_state()


class Own:
    """A solver whose tasks and constraints are made, and owned, by the user."""

    TASKS = dict(position=("PositionTask", 1), orientation=("OrientationTask", 1), relative_position=("RelativePositionTask", 2), relative_orientation=("RelativeOrientationTask", 2),
                 com=("CoMTask", 0), joints=("JointsTask", 0), gear=("GearTask", 0), distance=("DistanceTask", 2), axisalign=("AxisAlignTask", 1), wheel=("WheelTask", 0),
                 centroidal_momentum=("CentroidalMomentumTask", 0))
    CONS = dict(distance=("DistanceConstraint", 2), com_polygon=("CoMPolygonConstraint", 0), joint_space_half_spaces=("JointSpaceHalfSpacesConstraint", 0),
                yaw=("YawConstraint", 2), cone=("ConeConstraint", 2))

    def __init__(self, sol, robot, prefix="", tasks=()):
        self.sol, self.model, self.prefix = sol, robot.model, prefix
        self.TASKS = {k: v for k, v in Own.TASKS.items() if not tasks or k in tasks}

    def __getattr__(self, name):
        for kinds, suffix, add in ((self.TASKS, "_task", self.sol.add_task), (self.CONS, "_constraint", self.sol.add_constraint)):
            k = name[4:-len(suffix)]
            if name.startswith("add_") and name.endswith(suffix) and k in kinds:
                cls, nf = kinds[k]

                def make(*a):
                    a = [self.model.getFrameId(x) for x in a[:nf]] + list(a[nf:])
                    o = getattr(placo, self.prefix + cls)(*a)
                    add(o)
                    return o
                return make
        return getattr(self.sol, name)


def owned(s, add):
    """What add adds is owned by the user."""
    n, m, sol = len(s.tasks), len(s.cons), s.s
    s.s = Own(sol, s.r)
    try:
        add()
    finally:
        s.s = sol
    for t in s.tasks[n:] + s.cons[m:]:
        t.own = True


CONS = ["distance", "com_polygon", "half_spaces", "yaw", "cone"]


def add_con(s, kind, near, hard):
    """A constraint which the displacement near satisfies when hard."""
    rng, sol, n = s.rng, s.s, s.g.frames
    slack = float(rng.choice([0.0, rng.uniform(0, 0.05), rng.uniform(0, 0.5)])) if hard else float(rng.uniform(-0.3, 0.3))
    if kind == "distance":
        for _ in range(20):
            f = s.fidx()
            g = s.fidx(f)
            if s.sep(f, g) > 0.05:
                break
        else:
            return None
        d = float(s.sep(f, g) + s.dist_row(f, g) @ near + slack)
        return s.pushc(sol.add_distance_constraint(n[f][0], n[g][0], d), type=kind, f=f + 1, g=g + 1, d=d)
    if kind == "com_polygon":
        dcm = bool(rng.random() < 0.4)
        om = float(rng.uniform(2, 6))
        margin = float(rng.choice([0.0, 0.02]))
        c = np.array(s.r.com_world())[:2] + np.array(s.r.com_jacobian())[:2] @ near * (1 + 1 / (s.dt * om) if dcm else 1)
        m = int(rng.integers(3, 7))
        ang = np.sort(rng.uniform(0, 2 * np.pi, m))[::-1]        # clockwise
        if np.max(np.abs(np.diff(np.append(ang, ang[0] - 2 * np.pi)))) > 2.8 or np.min(np.abs(np.diff(np.append(ang, ang[0] - 2 * np.pi)))) < 0.1:
            ang = np.linspace(2 * np.pi, 0, m, endpoint=False) + rng.uniform(0, 1)
        P = np.array([[np.cos(a), np.sin(a)] for a in ang]) * rng.uniform(0.1, 0.4)
        mid = P.mean(axis=0)
        e = np.roll(P, -1, axis=0) - P
        nn = np.array([unit(np.array([v[1], -v[0]])) for v in e])
        inner = np.min(np.sum(nn * (mid - P), axis=1))
        # put c at a distance of the edges of at least the margin (when hard)
        P = P * ((margin + abs(slack) + 0.01) / inner) if inner < margin + 0.01 + abs(slack) else P
        if not hard:
            P = P + rng.uniform(-0.2, 0.2, 2)
        P = P - P.mean(axis=0) + c if hard else P + c
        t = sol.add_com_polygon_constraint([np.array(v) for v in P], margin)
        t.dcm = dcm
        t.omega = om
        return s.pushc(t, type=kind, polygon=P, margin=margin, dcm=dcm, omega=om)
    if kind == "half_spaces":
        m = int(rng.integers(1, 4))
        A = np.round(rng.uniform(-1, 1, (m, s.g.n)), 2)
        b = A @ (s.q() + near[6:]) + slack
        full = np.hstack([rng.uniform(-1, 1, (m, 7)), A])       # columns of the floating base are not used
        t = sol.add_joint_space_half_spaces_constraint(full, b)
        return s.pushc(t, type=kind, A=A, b=b)
    if kind in ("yaw", "cone"):
        for _ in range(10):
            f = s.fidx()
            g = s.fidx(f)
            R = s.Tf(f)[:3, :3].T @ s.Tf(g)[:3, :3]
            if kind == "yaw":
                x = R[:, 0]
                if np.hypot(x[0], x[1]) < 0.2 or abs(np.arctan2(x[1], x[0])) > 2.6:
                    continue
                p = dict(type=kind, f=f + 1, g=g + 1, max=10.0)
                A, b = s.con_rows(T(None, **p))
                p["max"] = float(10.0 - np.min(A @ near + b) + slack)
                if p["max"] <= 0:
                    continue
                return s.pushc(sol.add_yaw_constraint(n[f][0], n[g][0], p["max"]), **p)
            z = R[:, 2]
            al = np.arctan2(np.hypot(z[0], z[1]), z[2])
            if al < 0.1 or al > 2.9:
                continue
            mx = float(max(al, 0) + abs(slack) + 0.05)
            t = sol.add_cone_constraint(n[f][0], n[g][0], mx)
            if al < 1.2 and rng.random() < 0.5:
                # sampling of the cone: an even number of slices has one through the current axis (slices are conservative beyond a right angle)
                t.N, t.range = int(rng.choice([4, 8, 12, 20])), float(rng.uniform(0.2, 1.5))
            return s.pushc(t, type=kind, f=f + 1, g=g + 1, max=mx)
    return None


def recon(s, i):
    """Other parameters for a constraint, and for a hard one such that there is still room around the current state."""
    c, rng = s.cons[i], s.rng
    p, k = c.p, c.p["type"]
    u = float(rng.choice([0.0, rng.uniform(0, 0.2)])) if c.prio == "hard" else float(rng.uniform(-0.2, 0.2))
    r = s.con_rows(c)[1] if k != "cone" else None
    if k == "distance":
        ch = dict(d=float(p["d"] - r.min() + u))
        c.obj.distance_max = ch["d"]
    elif k == "yaw":
        ch = dict(max=float(p["max"] - r.min() + u))
        if ch["max"] <= 0:
            return
        c.obj.angle_max = ch["max"]
    elif k == "cone":
        ch = dict(max=float(p["max"] + rng.uniform(0, 0.2)))
        c.obj.angle_max = ch["max"]
    elif k == "half_spaces":
        ch = dict(b=np.array(p["A"]) @ s.q() + u)
        c.obj.b = ch["b"]
    elif k == "com_polygon" and not p["dcm"]:
        ch = dict(margin=float(p["margin"] + r.min() - u))
        if ch["margin"] < 0:
            return
        c.obj.margin = ch["margin"]
    else:
        return
    c.p.update(ch)
    s.rec("ConParams", i=i + 1, ch=ch)


def s_constraints(rng, rec, k):
    """Constraints of the solver, hard or soft."""
    u = rng.random()
    if u < 0.25:
        return collisions(rng, rec)
    s = start(rng, rec, n=int(rng.choice([2, 3, 5])))
    setup(s)
    populate(s, scaled=False, hards=1, softs=2)
    if rng.random() < 0.15:
        kinds, prog = ["cone"], False      # only its first order consequence is specified
        s.witness = np.zeros(s.N)
        for i, t in enumerate(s.tasks):
            if t.prio == "hard":
                s.configure(t, i, "soft", 1.0)
    else:
        kinds, prog = [str(x) for x in rng.choice(CONS[:4], int(rng.integers(1, 4)))], True
    for kind in kinds:
        hard = bool(kind == "cone" or rng.random() < 0.6)
        i = add_con(s, kind, s.witness, hard)
        if i is not None:
            s.configure(s.cons[i], i, "hard" if hard else "soft", wkind(rng), "ConfigureCon")
    ok = s.solve(cert=prog)
    if ok and rng.random() < 0.5:
        s.refresh()
        for i in [i for i, c in enumerate(s.cons) if c.on]:
            recon(s, i)
        s.witness = None
        ok = s.solve(cert=prog)
    if ok and rng.random() < 0.5:
        on = [i for i, c in enumerate(s.cons) if c.on]
        if on:
            i = int(rng.choice(on))
            s.s.remove_constraint(s.cons[i].obj)
            s.cons[i].on = False
            rec("RemoveCon", i=i + 1)
            s.witness = None
            s.solve(cert=not any(c.on and c.p["type"] == "cone" for c in s.cons))


def collisions(rng, rec):
    g = Gen(rng, n=int(rng.integers(2, 5)), spheres=2, scale=0.3)
    if len({o["joint"] for o in g.objs}) < 2:
        return
    s = IK(rng, rec, g)
    for _ in range(1):
        for j, name in enumerate(g.names):
            lo, hi = max(g.lo[j], -2.0), min(g.hi[j], 2.0)
            x = float(rng.uniform(lo, hi))
            s.r.set_joint(name, x)
            rec("SetJoint", j=j + 1, x=x)
    s.fresh = False
    s.refresh()
    first = {}
    for k, (name, j, M) in enumerate(g.frames):
        if np.allclose(M, np.eye(4)):
            first.setdefault(j, k)
    objs = [dict(joint=o["joint"], c=o["c"], r=o["r"], frame=first[o["joint"]]) for o in g.objs]
    pairs = pairs_of(g)
    gaps = []
    for a, b in pairs:
        oa, ob = objs[a - 1], objs[b - 1]
        ca = (s.Tf(oa["frame"]) @ np.append(oa["c"], 1))[:3]
        cb = (s.Tf(ob["frame"]) @ np.append(ob["c"], 1))[:3]
        gaps.append(np.linalg.norm(ca - cb) - oa["r"] - ob["r"])
    gaps = np.array(gaps)
    trigger, margin = float(rng.uniform(0.05, 0.3)), float(rng.uniform(0.0, 0.04))
    if np.min(np.abs(gaps - trigger)) < 1e-4 or np.min(np.abs(gaps)) < 1e-3:
        return
    setup(s)
    populate(s, scaled=False, hards=0, softs=2)
    hard = bool(gaps.min() > margin + 1e-3 and rng.random() < 0.7)
    t = s.s.add_avoid_self_collisions_constraint()
    t.self_collisions_margin = margin
    t.self_collisions_trigger = trigger
    i = s.pushc(t, type="self_collision", objs=objs, pairs=pairs, trigger=trigger, margin=margin)
    s.configure(s.cons[i], i, "hard" if hard else "soft", wkind(rng), "ConfigureCon")
    s.witness = np.zeros(s.N) if hard else None
    s.solve(apply=False)


def s_infeasible(rng, rec, k):
    """Contradictory problems: refused, and the robot does not move."""
    s = start(rng, rec, n=int(rng.choice([2, 3, 5])))
    s.set_dt(0.01)
    i = s.add("regularization")
    s.tasks[i].obj.set_weight(0.01)
    s.set(i, mag=0.01)
    s.tasks[i].p["mag"] = 0.01
    s.mask_fbase(True)
    i = s.add("com")
    s.configure(s.tasks[i], i, "soft", 1.0)
    lim = [j for j in range(s.g.n) if s.g.hi[j] < 1e300]
    u = rng.random()
    j = int(rng.choice(lim)) if lim else -1
    E = np.eye(s.N)
    v = s.r.state.qd * 0 + rng.uniform(-1, 1, s.N)
    s.r.state.qd = v
    rec("SetV", v=v)
    if u < 0.15 or j < 0:
        # velocity limits need a time step; so do the tasks on momenta
        s.set_dt(0.0)
        if rng.random() < 0.5:
            s.limits(vl=True)
            s.solve()
            s.rec("Refused", solving=True, ok=[not raises(s.s.solve, True)[0]])
        else:
            s.add(str(rng.choice(["kinetic", "momentum"])))
            s.rec("Refused", solving=True, ok=[not raises(s.s.solve, True)[0]])
        s.q_state()
        return
    if u < 0.35:
        x = s.g.hi[j] + float(rng.uniform(0.3, 1)) if rng.random() < 0.5 else s.g.lo[j] - float(rng.uniform(0.3, 1))
        s.r.set_joint(s.g.names[j], x)
        rec("SetJoint", j=j + 1, x=x)
        s.fresh = False
        if rng.random() < 0.5:
            s.limits(vl=True)
        else:
            s.mask(j, True)
    elif u < 0.6:
        t = s.s.add_joints_task()
        i = s.push(t, type="joints", joints=[])
        s.joint_target(i, j, s.g.hi[j] + float(rng.uniform(0.3, 1)) if rng.random() < 0.5 else s.g.lo[j] - float(rng.uniform(0.3, 1)))
        s.configure(s.tasks[i], i, "hard", 1.0)
    elif u < 0.8:
        a = np.round(rng.uniform(-1, 1, s.g.n), 2)
        b = float(a @ s.q() + rng.uniform(-0.1, 0.1))
        A = np.vstack([a, -a])
        bb = np.array([b, -b - float(rng.uniform(0.1, 1))])
        i = s.pushc(s.s.add_joint_space_half_spaces_constraint(np.hstack([np.zeros((2, 7)), A]), bb), type="half_spaces", A=A, b=bb)
        s.configure(s.cons[i], i, "hard", 1.0, "ConfigureCon")
    else:
        # a frame which cannot move must go elsewhere
        f = [k for k, x in enumerate(s.g.frames) if x[1] == 1][0]
        p = s.Tf(f)[:3, 3]
        tgt = p + unit(rng.normal(size=3)) * float(rng.uniform(0.2, 1))
        i = s.push(s.s.add_position_task(s.g.frames[f][0], tgt), type="position", f=f + 1, target=tgt, mask=s.NOMASK)
        s.configure(s.tasks[i], i, "hard", 1.0)
    s.refresh()
    prog = s.program()
    # Farkas certificate: least nonnegative combination of the rows with constant part -1
    Aeq = [(A, b) for A, b, ineq, hard, w in prog if hard and not ineq]
    Ain = [(A, b) for A, b, ineq, hard, w in prog if hard and ineq]
    from common import nnls
    cols, c = [], []
    for A, b in Aeq:
        cols += [A, -A]
        c += [b, -b]
    for A, b in Ain:
        cols.append(A)
        c.append(b)
    M = np.vstack([np.vstack(cols).T, np.concatenate(c)[None]])
    y = nnls(M, np.append(np.zeros(s.N), -1.0))
    if np.abs(M @ y - np.append(np.zeros(s.N), -1.0)).max() > 1e-8 or np.abs(y).max() > 1e3:
        return
    mult, k = [], 0
    for A, b, ineq, hard, w in prog:
        pass
    eq, k = [], 0
    for A, b in Aeq:
        n = len(b)
        eq.append(y[k:k + n] - y[k + n:k + 2 * n])
        k += 2 * n
    ine = []
    for A, b in Ain:
        ine.append(y[k:k + len(b)])
        k += len(b)
    for A, b, ineq, hard, w in prog:
        mult.append(np.zeros(len(b)) if not hard else ine.pop(0) if ineq else eq.pop(0))
    s.solve(farkas=mult)
    s.q_state()


def s_life(rng, rec, k):
    """Adding, removing, clearing, reconfiguring; tasks owned by the user."""
    s = start(rng, rec, n=int(rng.choice([2, 3, 4])))
    s.life = True
    s.set_dt(0.05)
    s.add("regularization")
    s.mask_fbase(True)
    s.witness = None
    for _ in range(int(rng.integers(4, 14))):
        on = [i for i, t in enumerate(s.tasks) if t.on]
        conn = [i for i, c in enumerate(s.cons) if c.on]
        u = rng.random()
        s.refresh()
        if u < 0.3:
            s.add(str(rng.choice(["position", "orientation", "frame", "com", "joints", "gear", "relative_position", "relative_frame", "distance", "axisalign", "momentum"])))
        elif u < 0.38:
            # a task owned by the user
            owned(s, lambda: s.add(str(rng.choice(["position", "orientation", "com", "joints", "gear", "relative_position", "distance", "axisalign", "momentum", "wheel"]))))
        elif u < 0.5 and on:
            i = int(rng.choice(on))
            s.remove(i)
            if s.tasks[i].own and rng.random() < 0.6:
                # still usable: added again
                s.s.add_task(s.tasks[i].obj)
                s.tasks[i].on = True
                rec("Readd", i=i + 1)
        elif u < 0.56:
            s.s.clear()
            rec("Clear")
            for t in s.tasks + s.cons:
                t.on = False
            s.count()
            s.add("regularization")
        elif u < 0.6:
            # what the user owns outlives its removal and clear
            for l, f, e in ((s.tasks, s.s.add_task, "Readd"), (s.cons, s.s.add_constraint, "ReaddCon")):
                off = [i for i, t in enumerate(l) if t.own and not t.on]
                if off and rng.random() < 0.7:
                    i = int(rng.choice(off))
                    if l[i].prio != "soft":
                        continue
                    f(l[i].obj)
                    l[i].on = True
                    rec(e, i=i + 1)
        elif u < 0.65 and on:
            i = int(rng.choice(on))
            t = s.tasks[i]
            if t.p["type"] in ("joints", "position", "orientation") and rng.random() < 0.5 and hard_rank_ok(s, s.rows(t)[0]):
                s.configure(t, i, "scaled", wkind(rng))
            elif t.p["type"] not in ("regularization", "kinetic"):
                s.configure(t, i, "soft", wkind(rng))
        elif u < 0.72 and on:
            s.retarget(int(rng.choice(on)))
        elif u < 0.78:
            m = len(s.cons)
            f = lambda: add_con(s, str(rng.choice(CONS[:4])), np.zeros(s.N), False)
            owned(s, f) if rng.random() < 0.5 else f()
            if len(s.cons) > m:
                s.configure(s.cons[m], m, "soft", wkind(rng), "ConfigureCon")
        elif u < 0.82 and conn:
            i = int(rng.choice(conn))
            s.s.remove_constraint(s.cons[i].obj)
            s.cons[i].on = False
            rec("RemoveCon", i=i + 1)
            if s.cons[i].own and rng.random() < 0.5:
                s.s.add_constraint(s.cons[i].obj)
                s.cons[i].on = True
                rec("ReaddCon", i=i + 1)
        elif u < 0.9:
            # masks stay masked until unmasked; only when they leave the equalities independent
            j = int(rng.integers(s.g.n))
            for j in dict.fromkeys([j] + [int(i) for i in rng.integers(s.g.n, size=rng.integers(0, 3))]):
                if j in s.masked or hard_rank_ok(s, np.eye(s.N)[[6 + j]]):
                    s.mask(j, j not in s.masked)
            if s.masked and rng.random() < 0.5:
                s.mask(int(rng.choice(sorted(s.masked))), False)
        elif u < 0.95:
            bad = [lambda: s.s.add_position_task("nope", np.zeros(3)), lambda: s.s.add_frame_task("nope", np.eye(4)), lambda: s.s.mask_dof("nope"),
                   lambda: s.s.add_distance_task("base", "nope", 0.1), lambda: s.s.add_cone_constraint("nope", "base", 0.1), lambda: s.s.add_yaw_constraint("base", "nope", 0.1),
                   lambda: s.s.add_relative_frame_task("base", "nope", np.eye(4)), lambda: s.s.add_manipulability_task("base", "nope", 1.0)]
            n0 = s.s.tasks_count()
            rec("Refused", ok=[not raises(f)[0] for f in bad])
            rec("Count", n=s.s.tasks_count())
        else:
            s.count()
        if not any(t.on and t.p["type"] == "regularization" for t in s.tasks):
            s.add("regularization")
        if rng.random() < 0.4:
            s.refresh()
            if all(t.prio != "scaled" or len(s.rows(t)[0]) == 0 or True for t in s.tasks):
                sc = [s.rows(t)[0] for t in s.tasks if t.on and t.prio == "scaled"]
                if sc:
                    E = np.eye(s.N)
                    A = np.vstack(sc + [E[list(range(6)) + [6 + j for j in s.masked]]])
                    if len(A) > s.N or np.linalg.svd(A)[1].min() < 0.05:
                        continue
                q, lo, hi = s.q(), np.array(s.g.lo), np.array(s.g.hi)
                if (q > hi + 1e-9).any() or (q < lo - 1e-9).any():
                    continue
                s.count()
                s.witness = np.zeros(s.N + bool(sc))
                if not s.solve():
                    return
                s.q_state()
    s.count()


class Slides:
    """The robot of spec/MCIK.tla."""

    def __init__(self):
        x = '<robot name="s">'
        for n in ("base", "link01", "link02", "link03"):
            x += f'<link name="{n}"><inertial><origin xyz="0 0 0"/><mass value="1"/><inertia ixx="1" iyy="1" izz="1" ixy="0" ixz="0" iyz="0"/></inertial></link>'
        lim = '<limit lower="-2" upper="2" velocity="1" effort="1"/>'
        spec = [("base", "1 0 0", "1 0 0"), ("link01", "0 1 0", "0 1 0"), ("link01", "0 0 1", "1 0 0")]
        I4 = np.eye(4, dtype=int)
        self.joints = [dict(parent=0, T=I4, kind="F", axis=[0, 0, 0])]
        for k, (p, o, a) in enumerate(spec):
            x += f'<joint name="j0{k + 1}" type="prismatic"><parent link="{p}"/><child link="link0{k + 1}"/><origin xyz="{o}"/><axis xyz="{a}"/>{lim}</joint>'
            M = I4.copy()
            M[:3, 3] = [int(v) for v in o.split()]
            self.joints.append(dict(parent=[1, 2, 2][k], T=M, kind="P", axis=[int(v) for v in a.split()]))
        self.urdf = x + "</robot>"
        self.names, self.n = ["j01", "j02", "j03"], 3
        self.lo, self.hi, self.vmax, self.tmax = [-2.0] * 3, [2.0] * 3, [1.0] * 3, [1.0] * 3
        self.frames = [("base", 1, I4), ("link01", 2, I4), ("link02", 3, I4), ("link03", 4, I4)]
        self.bodies = [dict(joint=j + 1, m=1.0, c=[0.0, 0.0, 0.0], I=np.eye(3)) for j in range(4)]

    fields = Gen.fields
    base0 = np.eye(4)


def s_replay(rng, rec, b):
    """A history of spec/MCIK.tla, then solves."""
    s = IK(rng, rec, Slides())
    s.witness = None
    s.set_dt(1.0)

    def reg():
        i = s.push(s.s.add_regularization_task(0.01), type="regularization", mag=0.01, jw=[""] * 3)
        return i
    regs = {reg()}
    s.mask_fbase(True)
    for op in b["hist"]:
        k = op["op"]
        if k == "joints":
            i = s.push(s.s.add_joints_task(), type="joints", joints=[])
            s.joint_target(i, op["j"] - 1, float(op["x"]))
            s.configure(s.tasks[i], i, op["prio"], 1.0)
        elif k == "pos":
            t = np.array([op["x"], 1, 0], float)
            i = s.push(s.s.add_position_task(s.g.frames[op["f"] - 1][0], t), type="position", f=op["f"], target=t, mask=s.NOMASK)
            ax = [1] if op["f"] == 4 else [2, 1]
            s.tasks[i].obj.mask.set_axises("".join(AX[a - 1] for a in ax), "task")
            s.set(i, mask=dict(axes=ax, frame="task", R=np.eye(3)))
            s.configure(s.tasks[i], i, op["prio"], 1.0)
        elif k == "mask":
            s.mask(op["j"] - 1, op["j"] - 1 not in s.masked)
        elif k == "vl":
            s.limits(vl=not s.vl)
        elif k == "jl":
            s.limits(jl=not s.jl)
        elif k == "remove":
            s.remove([i for i, t in enumerate(s.tasks) if t.on and i not in regs][0])
        elif k == "clear":
            s.s.clear()
            rec("Clear")
            for t in s.tasks:
                t.on = False
            s.count()
            regs.add(reg())
    s.count()
    s.task_matrices()
    if s.solve(apply=True):
        s.q_state()
        s.solve(apply=False)
