"""Programs over affine expressions, constraint helpers and column sparsity (spec/Expr.tla)."""
import numpy as np
import placo
from common import raises


def AB(e):
    r, c = e.rows(), e.cols()
    return dict(A=np.array(e.A, float).reshape(r, c) if c else [[] for _ in range(r)], b=np.array(e.b, float).reshape(-1))


class Sim:
    def __init__(self, rng, rec, sizes=None):
        self.rng, self.rec = rng, rec
        self.p = placo.Problem()
        big = rng.random() < 0.25
        sizes = sizes or [int(rng.integers(1, 10 if big else 5)) for _ in range(rng.integers(1, 5 if big else 4))]
        self.vars = [self.p.add_variable(s) for s in sizes]
        self.n = sum(sizes)
        self.regs = []

    def op(self, op, f, **kw):
        failed, e = raises(f)
        if failed:
            self.rec("Op", op=op, ok=False, **kw)
            return None
        e = e.expression if isinstance(e, placo.ProblemConstraint) else e
        self.rec("Op", op=op, ok=True, rows=e.rows() if self.rng.random() < 0.5 else len(e), const=bool(e.is_constant()), scalar=e.is_scalar(), **AB(e), **kw)
        self.regs.append(e)
        return e

    def reals(self, shape=None):
        """Ordinary reals, with zeros, units, tiny and large values among them."""
        rng = self.rng
        v = rng.uniform(-2, 2, shape)
        if rng.random() < 0.3:
            k = rng.random(shape)
            sp = rng.choice([0.0, 1.0, -1.0, 1e-4, -1e-3, 37.5, -250.0], shape)
            v = np.where(k < 0.4, sp, v)
        elif rng.random() < 0.1:
            v = np.full(shape, float(np.ravel(v)[0])) if shape is not None else v
        return v if shape is not None else float(v)

    def var(self):
        v = self.vars[int(self.rng.integers(len(self.vars)))]
        s = v.k_end - v.k_start
        k = int(self.rng.integers(0, s))
        n = int(self.rng.integers(1, s - k + 1))
        form = self.rng.integers(3)
        if form == 0:
            self.op("var", lambda: v.expr(), start=v.k_start, k=0, n=s)
        elif form == 1:
            self.op("var", lambda: v.expr(k, n), start=v.k_start, k=k, n=n)
        else:
            self.op("var", lambda: v.expr(k), start=v.k_start, k=k, n=s - k)

    def const(self, n=None):
        n = n or int(self.rng.choice([1, 2, 3, int(self.rng.integers(1, 10))]))
        v = self.reals(n)
        if n == 1 and self.rng.random() < 0.5:
            self.op("const", lambda: placo.Expression.from_double(float(v[0])), v=v)
        else:
            self.op("const", lambda: placo.Expression.from_vector(v), v=v)

    def pick(self):
        return int(self.rng.integers(len(self.regs)))

    def mate(self, i):
        """Most of the time, a register that can be combined with register i."""
        if self.rng.random() < 0.8:
            c = [j for j, e in enumerate(self.regs) if e.rows() == self.regs[i].rows() or (e.rows() == 1 and e.cols() == 0)]
            return int(self.rng.choice(c))
        return self.pick()

    def step(self):
        rng, regs = self.rng, self.regs
        i = self.pick()
        e = regs[i]
        r = int(rng.integers(21))
        r = 16 if r == 20 else r
        I = dict(i=i + 1)
        if r in (4, 7, 13) and max(np.abs(e.A).max(initial=0), np.abs(e.b).max(initial=0)) > 300:
            r = 16
        if r == 0:
            self.var()
        elif r == 1:
            self.const()
        elif r in (2, 3):
            j = self.mate(i)
            i, j = (i, j) if rng.random() < 0.5 else (j, i)
            self.op("add" if r == 2 else "sub", (lambda: regs[i] + regs[j]) if r == 2 else (lambda: regs[i] - regs[j]), i=i + 1, j=j + 1)
        elif r == 4:
            j = self.pick()
            self.op("mul", lambda: regs[i] * regs[j], i=i + 1, j=j + 1)
        elif r == 5:
            j = self.pick()
            if e.rows() + regs[j].rows() < 13:
                self.op("stack", lambda: e / regs[j], i=i + 1, j=j + 1)
        elif r == 6:
            self.op("neg", lambda: -e, **I)
        elif r == 7:
            s = self.reals()
            self.op("scale", (lambda: e * s) if rng.random() < 0.5 else (lambda: s * e), s=s, **I)
        elif r in (8, 9, 10):
            m = e.rows() if rng.random() < 0.85 else int(rng.integers(1, 5))
            v = self.reals(m)
            k = int(rng.integers(4))
            name, f = [("addv", lambda: e + v), ("addv", lambda: e.__radd__(v)), ("subv", lambda: e - v), ("rsubv", lambda: e.__rsub__(v))][k]
            self.op(name, f, v=v, **I)
        elif r in (11, 12):
            s = self.reals()
            k = int(rng.integers(5))
            name, f = [("addf", lambda: e.piecewise_add(s)), ("addf", lambda: e + s), ("addf", lambda: s + e), ("subf", lambda: e - s), ("rsubf", lambda: s - e)][k]
            self.op(name, f, s=s, **I)
        elif r == 13:
            M = self.reals((int(rng.choice([1, 2, 3, int(rng.integers(1, 8))])), e.rows()))
            self.op("left", lambda: e.left_multiply(M), M=M, **I)
        elif r == 14:
            self.op("sum", lambda: e.sum(), **I)
        elif r == 15:
            self.op("mean", lambda: e.mean(), **I)
        elif r == 16:
            s = int(rng.integers(0, e.rows()))
            n = int(rng.integers(1, e.rows() - s + 1))
            if rng.random() < 0.5:
                self.op("slice", lambda: e.slice(s, -1), start=s, n=e.rows() - s, **I)
            else:
                self.op("slice", lambda: e.slice(s, n), start=s, n=n, **I)
        elif r in (17, 18):
            self.compare(i)
        else:
            x = self.reals(self.n)
            self.rec("Value", x=x, v=np.atleast_1d(e.value(x)), **I)

    def compare(self, i):
        rng, regs = self.rng, self.regs
        e = regs[i]
        rel = ["ge", "le", "eq"][int(rng.integers(3))]
        form = int(rng.integers(5))
        fs = dict(ge=lambda a, b: a >= b, le=lambda a, b: a <= b, eq=lambda a, b: a == b)[rel]
        if form == 0:
            j = self.mate(i)
            self.op(rel, lambda: fs(e, regs[j]), i=i + 1, j=j + 1)
        else:
            scalar = form in (1, 2)
            v = self.reals(1 if scalar else e.rows())
            self.op("const", lambda: placo.Expression.from_vector(v), v=v)
            j = len(regs) - 1
            o = float(v[0]) if scalar else v
            if form in (1, 3):
                self.op(rel, lambda: fs(e, o), i=i + 1, j=j + 1)
            else:  # the constant on the left
                meth = dict(ge="__le__", le="__ge__", eq="__eq__")[rel]   # python reflects the comparison
                if scalar:
                    self.op(rel, lambda: fs(o, e), i=j + 1, j=i + 1)
                else:
                    self.op(rel, lambda: getattr(e, meth)(o), i=j + 1, j=i + 1)

    def untouched(self):
        for i, e in enumerate(self.regs):
            self.rec("Same", i=i + 1, **AB(e))


def s_programs(rng, rec, k):
    s = Sim(rng, rec)
    s.var()
    s.const()
    s.const(1)
    for _ in range(int(rng.integers(5, 25))):
        s.step()
    s.untouched()


def s_replay(rng, rec, prog):
    if prog and prog[0]["op"] == "interval":
        sp = placo.Sparsity()
        rec("Cols", iv=iv(sp))
        for o in prog:
            sp.add_interval(o["a"], o["b"])
            rec("Interval", i=1, a=o["a"], b=o["b"], iv=iv(sp))
        return
    s = Sim(rng, rec, [2])
    v = s.vars[0]
    s.op("var", lambda: v.expr(0, 1), start=0, k=0, n=1)
    s.op("var", lambda: v.expr(), start=0, k=0, n=2)
    s.op("var", lambda: v.expr(1, 1), start=0, k=1, n=1)
    s.op("const", lambda: placo.Expression.from_double(5.0), v=[5])
    s.op("const", lambda: placo.Expression.from_vector(np.array([2.0, -1.0])), v=[2, -1])
    R = s.regs
    F = dict(add=lambda o: R[o["i"] - 1] + R[o["j"] - 1], sub=lambda o: R[o["i"] - 1] - R[o["j"] - 1], mul=lambda o: R[o["i"] - 1] * R[o["j"] - 1],
             stack=lambda o: R[o["i"] - 1] / R[o["j"] - 1], sum=lambda o: R[o["i"] - 1].sum(), slice=lambda o: R[o["i"] - 1].slice(o["start"], o["n"]),
             scale=lambda o: R[o["i"] - 1] * float(o["s"]))
    for o in prog:
        o = dict(o)
        op = o.pop("op")
        s.op(op, lambda: F[op](o), **o)


def poly_cw(rng):
    """A convex clockwise polygon."""
    n = int(rng.integers(3, 8))
    a = np.sort(rng.uniform(0, 2 * np.pi, n))[::-1]
    while (np.diff(np.append(a, a[0] - 2 * np.pi)) > -0.15).any() or (np.diff(np.append(a, a[0] - 2 * np.pi)) < -3.0).any():
        a = np.sort(rng.uniform(0, 2 * np.pi, n))[::-1]
    c = rng.uniform(-1, 1, 2)
    ax = rng.uniform(0.2, 2, 2)
    return [c + ax * np.array([np.cos(t), np.sin(t)]) for t in a]


def s_helpers(rng, rec, k):
    s = Sim(rng, rec)
    # polygons
    poly = poly_cw(rng)
    margin = float(rng.choice([0.0, rng.uniform(0, 0.3)]))
    v = s.vars[int(rng.integers(len(s.vars)))]
    M = rng.uniform(-1, 1, (2, v.k_end - v.k_start))
    s.op("var", lambda: v.expr(), start=v.k_start, k=0, n=v.k_end - v.k_start)
    s.op("left", lambda: s.regs[0].left_multiply(M), M=M, i=1)
    t = rng.uniform(-1, 1, 2)
    e = s.op("addv", lambda: s.regs[1] + t, v=t, i=2)
    if rng.random() < 0.5:
        c = placo.PolygonConstraint.in_polygon_xy(e, poly, margin)
    else:
        c = placo.PolygonConstraint.in_polygon(e.slice(0, 1), e.slice(1, 1), poly, margin)
    for _ in range(4):
        x = rng.uniform(-2, 2, s.n)
        rec("Polygon", i=3, x=x, poly=poly, margin=margin, **AB(c.expression))
    # polynomials
    w = s.p.add_variable(int(rng.integers(1, 7) if rng.random() < 0.8 else rng.integers(7, 19)))
    pp = placo.ProblemPolynom(w)
    for _ in range(6):
        d = int(rng.integers(0, max(5, w.k_end - w.k_start + 1)))
        t = float(rng.choice([0.0, rng.uniform(-2, 2)]))
        x = rng.uniform(-2, 2, w.k_end)
        ex = pp.expr(t, d) if d else (pp.expr(t) if rng.random() < 0.5 else pp.expr(t, 0))
        rec("Poly", c=x[w.k_start:w.k_end], t=t, d=d, v=float(np.atleast_1d(ex.value(x))[0]))
    # interpolation: the solved polynomial takes the prescribed values
    p = placo.Problem()
    m = int(rng.integers(2, 6))
    w = p.add_variable(m)
    pp = placo.ProblemPolynom(w)
    ts = np.linspace(-1, 1, m - 1) + rng.uniform(-0.1, 0.1, m - 1)
    for t in ts:
        p.add_constraint(pp.expr(float(t), 0) == float(rng.uniform(-1, 1)))
    p.solve()
    q = pp.get_polynom()
    c = np.atleast_1d(w.value)
    for _ in range(3):
        t, d = float(rng.uniform(-1.5, 1.5)), int(rng.integers(0, 3))
        rec("PolySolved", c=c, t=t, d=d, v=q.value(t, d))


def iv(sp):
    a = np.array(sp.intervals)
    return a.reshape(-1, 2) if a.size else []


def s_sparsity(rng, rec, k):
    n = int(rng.integers(3, 14))
    sps = []
    for _ in range(2):
        sp = placo.Sparsity()
        rec("Cols", iv=iv(sp))
        sps.append(sp)
        for _ in range(int(rng.integers(0, 7))):
            a, b = sorted(int(x) for x in rng.integers(0, n, 2))
            if rng.random() < 0.4:
                b = min(a + int(rng.integers(0, 2)), n - 1)
            sp.add_interval(a, b)
            rec("Interval", i=len(sps), a=a, b=b, iv=iv(sp))
    rec("Union", i=1, j=2, iv=iv(sps[0] + sps[1]))
    rec("Union", i=2, j=1, iv=iv(sps[1] + sps[0]))
    M = rng.uniform(-1, 1, (int(rng.integers(2, 4)), n))
    M[:, rng.random(n) < 0.5] = 0
    for j in range(n):
        if M[:, j].any() and rng.random() < 0.3:
            M[0, j] = 0
    rec("Detect", M=M, n=n, iv=iv(placo.Sparsity.detect_columns_sparsity(M)))
