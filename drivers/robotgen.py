"""Random robots: a URDF and the description of the same robot used by spec/Robot.tla."""
import os, shutil, tempfile
import numpy as np
from common import frame, rot

INF = 1.7976931348623157e+308


def rpy(r, p, y):
    return rot(np.array([0, 0, y])) @ rot(np.array([0, p, 0])) @ rot(np.array([r, 0, 0]))


def fmt(v):
    return " ".join(repr(float(x)) for x in v)


class Gen:
    """joints[0] is the floating base; names/lo/hi/vmax/tmax are those of joints[1:]; frames are (name, joint, T)."""

    def __init__(self, rng, n=None, spheres=0, extra=True, prismatic=0.25, zero_limits=0.2, limits=None, scale=0.4, density=1.0, massive=False):
        self.rng = rng
        n = int(rng.integers(2, 7)) if n is None else n
        children = {0: []}
        parent = [None]
        for k in range(1, n + 1):
            p = int(rng.integers(0, k)) if rng.random() < 0.5 else k - 1
            parent.append(p)
            children[p].append(k)
            children[k] = []
        order = []

        def dfs(k):
            order.append(k)
            for c in children[k]:
                dfs(c)
        dfs(0)
        label = {k: i for i, k in enumerate(order)}
        par = [None] * (n + 1)
        for k in range(1, n + 1):
            par[label[k]] = label[parent[k]]
        self.links = []          # (link name, joint index from 1, T in the joint frame)
        self.joints = [dict(parent=0, T=np.eye(4), kind="F", axis=np.zeros(3))]
        self.names, self.lo, self.hi, self.vmax, self.tmax = [], [], [], [], []
        self.bodies, self.frames, self.objs = [], [], []
        xml = ['<?xml version="1.0"?><robot name="r">']
        by_joint = {1: []}

        def origin():
            if rng.random() < 0.3:
                a = rng.choice([0, np.pi / 2, -np.pi / 2, np.pi], 3)
            else:
                a = rng.uniform(-1.5, 1.5, 3)
            p = rng.uniform(-scale, scale, 3)
            return a, p, frame(rpy(*a), p)

        self.tree = {}           # link -> dict(parent, a, p, joint, inertial)
        self.always_massive = massive

        def link(name, joint, T, massive=True):
            massive = massive or self.always_massive
            self.tree[name] = t = dict(parent=None)
            s = f'<link name="{name}">'
            if massive:
                m = float(rng.uniform(0.2, 3.0)) * density
                a, c, Ti = origin()
                c = c * 0.3
                Ti[:3, 3] = c
                d = rng.uniform(0.01, 0.1, 3)
                d[2] = min(d[2], d[0] + d[1])
                Q = rpy(*rng.uniform(-1, 1, 3))
                I = Q @ np.diag(d) @ Q.T * m
                I = [[float(x) for x in r] for r in (I + I.T) / 2]
                s += (f'<inertial><origin xyz="{fmt(c)}" rpy="{fmt(a)}"/><mass value="{m!r}"/><inertia ixx="{I[0][0]!r}" ixy="{I[0][1]!r}" '
                      f'ixz="{I[0][2]!r}" iyy="{I[1][1]!r}" iyz="{I[1][2]!r}" izz="{I[2][2]!r}"/></inertial>')
                Tb = T @ Ti
                t.update(m=m, c=c, I=Ti[:3, :3] @ np.array(I) @ Ti[:3, :3].T)
                self.bodies.append(dict(joint=joint, m=m, c=Tb[:3, 3], I=Tb[:3, :3] @ np.array(I) @ Tb[:3, :3].T))
            for _ in range(int(spheres and rng.integers(0, spheres + 1))):
                r = float(rng.uniform(0.03, 0.15))
                c = rng.uniform(-0.2, 0.2, 3)
                s += f'<collision><origin xyz="{fmt(c)}" rpy="0.3 0.1 -0.4"/><geometry><sphere radius="{r!r}"/></geometry></collision>'
                self.objs.append(dict(joint=joint, c=(T @ np.append(c, 1))[:3], r=r, link=name))
            xml.append(s + "</link>")
            self.links.append((name, joint, T))
            by_joint.setdefault(joint, []).append((name, T))
            self.frames.append((name, joint, T))

        nfix = 0

        def fixed(joint):
            nonlocal nfix
            pn, pT = by_joint[joint][int(rng.integers(len(by_joint[joint])))]
            a, p, T = origin()
            if rng.random() < 0.3:
                a, T = a * 0, np.eye(4)
                T[:3, 3] = p
            name = f"tool{nfix}"
            nfix += 1
            link(name, joint, pT @ T, massive=rng.random() < 0.5)
            self.tree[name].update(parent=pn, a=a, p=p, joint=None)
            xml.append(f'<joint name="{name}_fix" type="fixed"><parent link="{pn}"/><child link="{name}"/><origin xyz="{fmt(p)}" rpy="{fmt(a)}"/></joint>')
            self.frames.append((name + "_fix", joint, pT @ T))

        link("base", 1, np.eye(4))
        while extra and nfix < 3 and rng.random() < 0.6:
            fixed(1)
        for k in range(1, n + 1):
            kind = "P" if rng.random() < prismatic else "R"
            axis = np.eye(3)[int(rng.integers(3))] * float(rng.choice([-1, 1])) if rng.random() < 0.5 else rng.normal(size=3)
            axis = axis / np.linalg.norm(axis)
            pj = par[k] + 1
            # the first link of the joint: the fixed links come after in the tree, so that the order of joints stays alphabetical
            pn, pT = by_joint[pj][0]
            a, p, T = origin()
            if limits is not None:
                lo, hi = limits(rng)
            elif rng.random() < zero_limits:
                lo, hi = 0.0, 0.0
            else:
                lo, hi = float(rng.uniform(-2, -0.1)), float(rng.uniform(0.1, 2))
            v, e = float(rng.uniform(0.5, 5)), float(rng.uniform(5, 100))
            name = f"j{k:02d}"
            self.joints.append(dict(parent=pj, T=pT @ T, kind=kind, axis=axis))
            self.names.append(name)
            z = lo == 0 and hi == 0
            self.lo.append(-INF if z else lo)
            self.hi.append(INF if z else hi)
            self.vmax.append(v)
            self.tmax.append(e)
            link(f"link{k:02d}", k + 1, np.eye(4))
            self.tree[f"link{k:02d}"].update(parent=pn, a=a, p=p, joint=name, kind=kind, axis=axis, lo=lo, hi=hi)
            xml.append(f'<joint name="{name}" type="{"prismatic" if kind == "P" else "revolute"}"><parent link="{pn}"/><child link="link{k:02d}"/>'
                       f'<origin xyz="{fmt(p)}" rpy="{fmt(a)}"/><axis xyz="{fmt(axis)}"/><limit lower="{lo!r}" upper="{hi!r}" velocity="{v!r}" effort="{e!r}"/></joint>')
            self.frames.append((name, k + 1, np.eye(4)))
            while extra and nfix < 6 and rng.random() < 0.35:
                fixed(k + 1)
        self.urdf = "\n".join(xml) + "</robot>"
        self.n = n

    def mjcf(self, T0):
        """The same robot as a MuJoCo model, its root body being at T0 (bodies all need an inertia)."""
        def quat(R):
            w, v = np.linalg.eig(R)
            t = np.trace(R)
            K = np.array([[R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0], [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
                          [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0], [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], t]]) / 3
            w, v = np.linalg.eigh(K)
            x = v[:, np.argmax(w)]
            return [x[3], x[0], x[1], x[2]]

        def body(name):
            t = self.tree[name]
            R, p = (T0[:3, :3], T0[:3, 3]) if t["parent"] is None else (rpy(*t["a"]), t["p"])
            I = t["I"]
            s = f'<body name="{name}" pos="{fmt(p)}" quat="{fmt(quat(R))}">'
            s += f'<inertial pos="{fmt(t["c"])}" mass="{t["m"]!r}" fullinertia="{fmt([I[0, 0], I[1, 1], I[2, 2], I[0, 1], I[0, 2], I[1, 2]])}"/>'
            if t["parent"] is None:
                s += '<freejoint name="root"/>'
            elif t["joint"]:
                lim = f'limited="true" range="{t["lo"]!r} {t["hi"]!r}"'
                s += f'<joint name="{t["joint"]}" type="{"slide" if t["kind"] == "P" else "hinge"}" axis="{fmt(t["axis"])}" {lim}/>'
            for c in sorted(x for x in self.tree if self.tree[x]["parent"] == name):
                s += body(c)
            return s + "</body>"
        self.base0 = T0
        self.frames = [f for f in self.frames if f[0] in self.tree]
        return f'<mujoco model="r"><compiler angle="radian"/><worldbody>{body("base")}</worldbody></mujoco>'

    base0 = np.eye(4)

    def fields(self):
        return dict(joints=self.joints, bodies=self.bodies, frames=[dict(joint=j, T=T) for _, j, T in self.frames], lo=self.lo, hi=self.hi,
                    vmax=self.vmax, tmax=self.tmax, names=self.names, frame_names=[f for f, _, _ in self.frames], base0=self.base0)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="placo-verif-", dir=os.getcwd())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def load(gen, flags=0, cls=None):
    import placo
    cls = cls or placo.RobotWrapper
    with Scratch() as d:
        return cls(d, flags, gen.urdf)


class Humanoid(Gen):
    """A biped: trunk, two legs of six joints, a head; feet frames flat on the floor in the neutral configuration when straight."""

    def __init__(self, rng, noisy=True, pressure=True, bent=0.0):
        """bent: angle of the hips in the neutral configuration (away from the singularity of straight legs)"""
        self.rng = rng
        self.joints = [dict(parent=0, T=np.eye(4), kind="F", axis=np.zeros(3))]
        self.names, self.lo, self.hi, self.vmax, self.tmax = [], [], [], [], []
        self.bodies, self.frames, self.objs = [], [], []
        xml = ['<?xml version="1.0"?><robot name="h">']
        where = {}

        def link(name, joint, T, mass=None):
            s = f'<link name="{name}">'
            if mass:
                m = float(mass * rng.uniform(0.7, 1.3))
                c = rng.uniform(-0.02, 0.02, 3)
                d = rng.uniform(0.001, 0.003, 3)
                d[2] = min(d[2], d[0] + d[1])
                Q = rpy(*rng.uniform(-1, 1, 3))
                I = Q @ np.diag(d) @ Q.T
                I = [[float(x) for x in r] for r in (I + I.T) / 2]
                s += (f'<inertial><origin xyz="{fmt(c)}" rpy="0 0 0"/><mass value="{m!r}"/><inertia ixx="{I[0][0]!r}" ixy="{I[0][1]!r}" '
                      f'ixz="{I[0][2]!r}" iyy="{I[1][1]!r}" iyz="{I[1][2]!r}" izz="{I[2][2]!r}"/></inertial>')
                self.bodies.append(dict(joint=joint, m=m, c=T[:3, :3] @ c + T[:3, 3], I=T[:3, :3] @ np.array(I) @ T[:3, :3].T))
            xml.append(s + "</link>")
            where[name] = (joint, T)
            self.frames.append((name, joint, T))

        def joint(name, parent, child, p, axis, lo, hi, mass=0.2, a=(0, 0, 0)):
            pj, pT = where[parent]
            k = len(self.joints) + 1
            self.joints.append(dict(parent=pj, T=pT @ frame(rpy(*a), np.array(p, float)), kind="R", axis=np.array(axis, float)))
            self.names.append(name)
            self.lo.append(lo)
            self.hi.append(hi)
            v = float(rng.uniform(3, 8))
            self.vmax.append(v)
            self.tmax.append(20.0)
            link(child, k, np.eye(4), mass)
            xml.append(f'<joint name="{name}" type="revolute"><parent link="{parent}"/><child link="{child}"/><origin xyz="{fmt(p)}" rpy="{fmt(a)}"/>'
                       f'<axis xyz="{fmt(axis)}"/><limit lower="{lo!r}" upper="{hi!r}" velocity="{v!r}" effort="20.0"/></joint>')
            self.frames.append((name, k, np.eye(4)))

        def fixed(parent, child, p, a=(0, 0, 0), mass=None):
            pj, pT = where[parent]
            T = pT @ frame(rpy(*a), np.array(p, float))
            link(child, pj, T, mass)
            xml.append(f'<joint name="{child}_fix" type="fixed"><parent link="{parent}"/><child link="{child}"/><origin xyz="{fmt(p)}" rpy="{fmt(a)}"/></joint>')
            self.frames.append((child + "_fix", pj, T))

        e = 0.01 if noisy else 0.0
        j = lambda s=e: float(rng.uniform(-s, s)) if s else 0.0
        thigh, shin, hip = 0.16 + j(), 0.15 + j(), 0.06 + j()
        link("base", 1, np.eye(4))
        fixed("base", "trunk", (j(), 0, 0.02 + j()), (0, 0.1 * (noisy and rng.random() < 0.5), 0), mass=3.0)
        for side, s in (("left", 1), ("right", -1)):
            joint(f"{side}_0", "base", f"{side}_l0", (0, s * hip, -0.03), (0, 0, 1), -1.5, 1.5)
            joint(f"{side}_1", f"{side}_l0", f"{side}_l1", (0, 0, -0.01), (1, 0, 0), -1.0, 1.0)
            joint(f"{side}_2", f"{side}_l1", f"{side}_l2", (0, 0, 0), (0, 1, 0), -2.0, 1.5, a=(0, -bent, 0))
            joint(f"{side}_3", f"{side}_l2", f"{side}_l3", (0, 0, -thigh), (0, 1, 0), -0.1 - 2 * bent, 2.6 - 2 * bent, 0.5, a=(0, 2 * bent, 0))
            joint(f"{side}_4", f"{side}_l3", f"{side}_l4", (0, 0, -shin), (0, 1, 0), -1.6, 1.6, 0.4, a=(0, -bent, 0))
            joint(f"{side}_5", f"{side}_l4", f"{side}_l5", (0, 0, 0), (1, 0, 0), -1.0, 1.0)
            fixed(f"{side}_l5", f"{side}_foot", (0.01 + j(), s * j(), -0.04), mass=0.2)
            if pressure:
                for k, (sx, sy) in enumerate(((1, 1), (1, -1), (-1, -1), (-1, 1))):
                    fixed(f"{side}_foot", f"{side}_ps_{k}", (sx * 0.06, sy * 0.03, 0.0))
        # the joints of the model are ordered by the names of the links
        joint("head_0", "trunk", "head_base", (0, 0, 0.15), (0, 0, 1), -2.0, 2.0)
        joint("head_1", "head_base", "head_pitch", (0, 0, 0.04), (0, 1, 0), -1.0, 1.0)
        fixed("head_pitch", "camera", (0.02, 0, 0.03))
        self.urdf = "\n".join(xml) + "</robot>"
        self.n = len(self.names)
