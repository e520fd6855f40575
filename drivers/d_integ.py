"""Integrators and linear inverted pendulums (spec/Integ.tla)."""
import numpy as np
import placo
from common import raises, mat


def arr(v):
    return np.atleast_1d(np.array(v, float)).reshape(-1)


class Sim:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.p = placo.Problem()
        self.items = []   # (integrator, variable, order, dt, n, t0)

    @property
    def n(self):
        return self.p.n_variables

    def segment(self, order=None, n=None, dt=None):
        rng = self.rng
        n = n or int(rng.integers(1, 8) if rng.random() < 0.85 else rng.integers(8, 40))
        order = order or int(rng.integers(1, 5))
        dt = dt or float(rng.uniform(0.02, 0.4))
        if rng.random() < 0.4:
            self.p.add_variable(int(rng.integers(1, 4)))   # unrelated columns
        custom = rng.random() < 0.35
        XA = [[] for _ in range(order)]
        Xb = rng.uniform(-1, 1, order)
        x0 = Xb
        if not custom and rng.random() < 0.5:
            w = self.p.add_variable(order)
            M0 = rng.uniform(-1, 1, (order, order))
            x0 = w.expr().left_multiply(M0) + Xb
            XA = np.hstack([np.zeros((order, w.k_start)), M0])
        v = self.p.add_variable(n)
        if custom:
            M = np.zeros((order + 1, order + 1))
            M[:order] = rng.uniform(-1, 1, (order, order + 1))
            it = placo.Integrator(v, x0, M, dt)
        else:
            M = np.array(placo.Integrator.upper_shift_matrix(order))
            self.rec("Shift", M=M, order=order)
            it = placo.Integrator(v, x0 if isinstance(x0, placo.Expression) else placo.Expression.from_vector(x0), order, dt)
        t0 = 0.0
        if rng.random() < 0.5:
            t0 = float(rng.uniform(-2, 5))
            it.t_start = t0
        self.items.append(dict(it=it, v=v, order=order, dt=dt, n=n, t0=t0))
        self.rec("Seg", M=M, order=order, dt=dt, n=n, start=v.k_start, t0=t0, prev=0, XA=XA, Xb=Xb,
                 A=np.array(it.A, float).reshape(order, order), B=arr(it.B))

    def time(self, s):
        """A time, and whether it is close to a border between steps."""
        r = self.rng.random()
        T = s["n"] * s["dt"]
        if r < 0.15:
            k = int(self.rng.integers(0, s["n"] + 1))
            return s["t0"] + k * s["dt"], True
        t = self.rng.uniform(-0.3 * T, 1.3 * T) if r < 0.35 else self.rng.uniform(0, T)
        f = t / s["dt"]
        return s["t0"] + t, abs(f - round(f)) < 1e-6

    def expressions(self, i, count=6):
        s = self.items[i]
        for _ in range(count):
            x = self.rng.uniform(-1, 1, self.n)
            diff = int(self.rng.integers(-1, s["order"] + 1))
            step = int(self.rng.integers(0, s["n"] + 1))
            arg = step if step < s["n"] or self.rng.random() < 0.5 else -1
            if self.rng.random() < 0.06:
                diff = int(self.rng.choice([-2, s["order"] + 1, s["order"] + 3]))
            if self.rng.random() < 0.06:
                step = arg = int(self.rng.choice([-3, s["n"] + 1, s["n"] + 5]))
            if diff == -1 and self.rng.random() < 0.5:
                f, e = raises(lambda: s["it"].expr(arg))
            else:
                f, e = raises(lambda: s["it"].expr(arg, diff))
            self.rec("Expr", i=i + 1, step=step, diff=diff, x=x, ok=not f, v=[] if f else arr(e.value(x)))
        x = self.rng.uniform(-1, 1, self.n)
        v = s["v"]
        self.rec("Final", i=i + 1, x=x, v=np.array(s["it"].final_transition_matrix, float).reshape(s["order"], s["n"]) @ x[v.k_start:v.k_end])
        for _ in range(count):
            x = self.rng.uniform(-1, 1, self.n)
            diff = int(self.rng.integers(-1, s["order"] + 1))
            if self.rng.random() < 0.06:
                diff = int(self.rng.choice([-2, s["order"] + 1]))
            t, border = self.time(s)
            t = min(max(t, s["t0"]), s["t0"] + s["n"] * s["dt"])
            f, e = raises(lambda: s["it"].expr_t(t, diff))
            self.rec("ExprT", i=i + 1, t=t, diff=diff, x=x, ok=not f, border=border or t == s["t0"] + s["n"] * s["dt"], v=[] if f else arr(e.value(x)))

    def values(self, i, count=6):
        s = self.items[i]
        for _ in range(count):
            t, border = self.time(s)
            diff = int(self.rng.integers(0, s["order"] + 1))
            if self.rng.random() < 0.06:
                diff = int(self.rng.choice([-1, -2, s["order"] + 1]))
            f, v = raises(lambda: s["it"].value(t, diff))
            self.rec("Value", i=i + 1, t=t, diff=diff, ok=not f, border=border, v=0 if f else v)

    def solve(self):
        self.p.clear_constraints()
        for s in self.items:
            for _ in range(2):
                step = int(self.rng.integers(0, s["n"] + 1))
                d = int(self.rng.integers(0, s["order"]))
                c = self.p.add_constraint(s["it"].expr(step, d) == float(self.rng.uniform(-1, 1)))
                c.configure("soft", 1.0)
            self.p.add_constraint(s["v"].expr() == self.rng.uniform(-1, 1, s["n"])).configure("soft", 0.1)
        self.p.solve()
        x = arr(self.p.x)[:self.n]
        self.rec("Solved", x=x)
        return x


def s_integrators(rng, rec, k):
    s = Sim(rng, rec)
    for _ in range(int(rng.integers(1, 3))):
        s.segment()
    for i in range(len(s.items)):
        s.expressions(i)
        s.values(i, 1)
    snaps = []
    for r in range(int(rng.integers(1, 3))):
        x = s.solve()
        for i, it in enumerate(s.items):
            s.values(i)
            tr = it["it"].get_trajectory()
            rec("Duration", i=i + 1, v=tr.duration())
            snaps.append((i, tr, x, it["t0"]))
            if rng.random() < 0.3:
                it["t0"] = float(rng.uniform(-2, 5))
                it["it"].t_start = it["t0"]
                rec("Move", i=i + 1, t=it["t0"])
                s.values(i, 3)
                s.expressions(i, 2)
    for i, tr, x, t0 in snaps:
        it = dict(s.items[i], t0=t0)
        for _ in range(3):
            t, border = s.time(it)
            d = int(rng.integers(0, it["order"] + 1))
            rec("Snap", i=i + 1, t=t, t0=t0, diff=d, sol=x, border=border, v=tr.value(t, d))


def s_replay(rng, rec, b):
    """Command sequences of MCInteg."""
    p = placo.Problem()
    n = len(b["u"])
    v = p.add_variable(n)
    it = placo.Integrator(v, placo.Expression.from_vector(np.array(b["X0"], float)), 2, 2.0)
    rec("Seg", M=np.array(placo.Integrator.upper_shift_matrix(2)), order=2, dt=2.0, n=n, start=0, t0=0.0, prev=0, XA=[[], []], Xb=b["X0"],
        A=np.array(it.A), B=arr(it.B))
    p.add_constraint(v.expr() == np.array(b["u"], float))
    p.solve()
    rec("Solved", x=b["u"])
    for k in range(n + 1):
        for d in range(3):
            rec("Value", i=1, t=2.0 * k, diff=d, ok=True, border=d == 2, v=it.value(2.0 * k, d))
            rec("Expr", i=1, step=k, diff=d, ok=True, x=b["u"], v=arr(it.expr(k, d).value(np.array(b["u"], float))))
    for k in range(n):
        rec("Value", i=1, t=2.0 * k + 0.5, diff=0, ok=True, border=False, v=it.value(2.0 * k + 0.5, 0))


def s_lipm(rng, rec, k):
    p = placo.Problem()
    if rng.random() < 0.4:
        p.add_variable(int(rng.integers(1, 4)))
    M = np.array(placo.Integrator.upper_shift_matrix(3))
    lipms, info = [], []
    t = float(rng.choice([0.0, rng.uniform(-1, 30)]))
    for j in range(int(rng.integers(1, 4))):
        n, dt = int(rng.integers(1, 7)), float(rng.uniform(0.02, 0.2))
        if not lipms or rng.random() < 0.25:
            pos, vel, acc = rng.uniform(-1, 1, 2), rng.uniform(-1, 1, 2), rng.uniform(-1, 1, 2)
            form = int(rng.integers(3))
            vel, acc = (vel if form > 0 else np.zeros(2)), (acc if form > 1 else np.zeros(2))
            li = placo.LIPM(p, dt, n, t, pos, vel, acc)
            prev = 0
        else:
            pos = vel = acc = np.zeros(2)
            prev = int(rng.integers(len(lipms)))
            li = placo.LIPM.build_LIPM_from_previous(p, dt, n, t, lipms[prev])
            prev = 2 * prev + 1
        lipms.append(li)
        info.append((dt, n, t))
        for c in range(2):
            start = int(np.argmax(np.abs(mat(li.jerk(0).A)[c])))
            rec("Seg", M=M, order=3, dt=dt, n=n, start=start, t0=t, prev=prev + c if prev else 0, XA=[[], [], []], Xb=[pos[c], vel[c], acc[c]])
        rec("LEnd", i=2 * len(lipms), v=li.t_end)
        t += n * dt
    h = float(rng.uniform(0.1, 1.2))
    om = placo.LIPM.compute_omega(h)
    rec("Omega", h=h, v=om)
    om = float(rng.uniform(2, 6))
    N = p.n_variables
    kinds = ["pos", "vel", "acc", "jerk", "dcm", "zmp", "dzmp"]

    def call(o, kind, a):
        f = getattr(o, kind)
        return f(a) if kind in ("pos", "vel", "acc", "jerk") else f(a, om if kind == "dcm" else om * om)
    for j, li in enumerate(lipms):
        for kind in kinds:
            step = int(rng.integers(0, info[j][1] + 1))
            x = rng.uniform(-1, 1, N)
            rec("LExpr", i=2 * j + 1, j=2 * j + 2, kind=kind, step=step, omega=om, x=x, v=arr(call(li, kind, step).value(x)))
    for j, li in enumerate(lipms):
        p.add_constraint(li.pos(info[j][1]) == rng.uniform(-1, 1, 2)).configure("soft", 10.0)
        for s in range(info[j][1]):
            p.add_constraint(li.jerk(s) == rng.uniform(-1, 1, 2)).configure("soft", 0.1)
    p.solve()
    rec("Solved", x=arr(p.x)[:N])
    for j, li in enumerate(lipms):
        tr = li.get_trajectory()
        dt, n, t0 = info[j]
        for kind in kinds:
            for _ in range(2):
                tt = rng.uniform(-0.2, n * dt + 0.2) if rng.random() < 0.8 else dt * int(rng.integers(0, n + 1))
                rec("LValue", i=2 * j + 1, j=2 * j + 2, kind=kind, t=t0 + tt, omega=om, border=abs(tt / dt - round(tt / dt)) < 1e-6, v=arr(call(tr, kind, t0 + tt)))
