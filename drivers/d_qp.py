"""Histories of the quadratic problem object (spec/QP.tla)."""
import numpy as np
import placo
from common import kkt_multipliers


class Sim:
    """Drives a placo.Problem and mirrors, in numpy, what was asked."""

    def __init__(self, rng, rec, n_sizes=None):
        self.rng, self.rec = rng, rec
        self.p = placo.Problem()
        self.vars, self.sizes, self.cons, self.handles = [], [], [], []
        self.reg = 1e-8
        self.x0 = np.zeros(0)
        self.farkas = None

    @property
    def n(self):
        return sum(self.sizes)

    def add_var(self, size):
        v = self.p.add_variable(size)
        self.rec("Var", n=size, start=v.k_start, end=v.k_end)
        self.vars.append(v)
        self.sizes.append(size)
        self.x0 = np.concatenate([self.x0, self.rng.uniform(-2, 2, size)])

    def start(self, i):
        return sum(self.sizes[:i])

    def expr(self, A, b):
        """An expression with the value A x + b, built from the variables."""
        e = None
        for i, v in enumerate(self.vars):
            Ai = A[:, self.start(i):self.start(i) + self.sizes[i]]
            if not Ai.any():
                continue
            nz = np.flatnonzero(Ai.any(axis=0))
            if len(nz) == Ai.shape[1] or self.rng.random() < 0.3:
                t = v.expr().left_multiply(np.ascontiguousarray(Ai))
            else:
                t = None
                for k in nz:
                    u = v.expr(int(k), 1).left_multiply(np.ascontiguousarray(Ai[:, [k]]))
                    t = u if t is None else t + u
            e = t if e is None else e + t
        if e is None:
            e = self.vars[0].expr().left_multiply(np.zeros((A.shape[0], self.sizes[0])))
        return e + b

    def add_con(self, A, b, ineq, hard, w, log=True):
        A, b = np.atleast_2d(np.array(A, float)), np.atleast_1d(np.array(b, float))
        e = self.expr(A, b)
        z = np.zeros(len(b))
        # an other side made of variables too: A x + b = (A1 x + b1) - (A2 x + b2)
        A2, b2 = self.rng.integers(-2, 3, A.shape) * (self.rng.random(A.shape) < 0.4), self.rng.integers(-3, 4, len(b)) * 0.5
        l, r = (lambda: self.expr(A + A2, b + b2)), (lambda: self.expr(A2.astype(float), b2))
        ge = [lambda: e >= z, lambda: e >= 0.0, lambda: (-e) <= z, lambda: self.expr(A, z) >= (-b), lambda: (-e) <= 0.0, lambda: 0.0 <= e,
              lambda: 0.0 >= (-e), lambda: e.__ge__(z), lambda: (-e).__le__(z), lambda: l() >= r(), lambda: r() <= l()]
        eq = [lambda: e == z, lambda: e == 0.0, lambda: self.expr(A, z) == (-b), lambda: 0.0 == e, lambda: l() == r(), lambda: r() == l()]
        c = (ge[int(self.rng.integers(len(ge)))] if ineq else eq[int(self.rng.integers(len(eq)))])()
        if not hard and self.rng.random() < 0.2:
            # configured beforehand: the problem keeps the configuration of the constraint it is given
            c.configure("soft", float(w))
            self.cons.append(dict(A=A, b=b, ineq=ineq, hard=hard, w=w))
            self.handles.append(self.p.add_constraint(c))
            self.rec("Con", A=A, b=b, ineq=ineq, hard=hard, w=w)
            return
        h = self.p.add_constraint(c)
        if hard:
            if self.rng.random() < 0.5:
                h.configure("hard")
        elif w == 1 and self.rng.random() < 0.5:
            h.configure("soft")
        else:
            h.configure("soft", float(w))
        self.cons.append(dict(A=A, b=b, ineq=ineq, hard=hard, w=w))
        self.handles.append(h)
        self.rec("Con", A=A, b=b, ineq=ineq, hard=hard, w=w)

    def add_limit(self, A, b, target, hard, w):
        h = self.p.add_limit(self.expr(A, b), target)
        if not hard:
            h.configure("soft", float(w))
        self.handles.append(h)
        self.cons.append(dict(A=np.vstack([-A, A]), b=np.concatenate([target - b, target + b]), ineq=True, hard=hard, w=w))
        self.rec("Limit", A=A, b=b, target=target, hard=hard, w=w)

    def conf(self, i, hard, w):
        self.handles[i].configure("hard" if hard else "soft", float(w))
        self.cons[i].update(hard=hard, w=w)
        self.rec("Conf", i=i + 1, hard=hard, w=w)

    def clear(self):
        self.p.clear_constraints()
        self.cons, self.handles, self.farkas = [], [], None
        self.rec("Clear")

    def clear_variables(self):
        """Back to an empty problem (constraints on variables that no longer exist would be refused)."""
        self.clear()
        self.p.clear_variables()
        self.vars, self.sizes, self.x0 = [], [], np.zeros(0)
        self.rec("ClearVariables")

    def set_reg(self, r):
        self.p.regularization = r
        self.reg = r
        self.rec("Reg", r=r)

    def accuracy(self):
        """The violation of the inequalities at which the third-party QP solver stops, for the conditioning of this problem.

        (eiquadprog stops when the total violation is below 100 eps m trace(P) trace(L^-1), where P = L L' is the Hessian.)"""
        n = self.n
        P, m = self.reg * np.eye(n), 0
        for c in self.cons:
            A = np.zeros((c["A"].shape[0], n))
            A[:, :c["A"].shape[1]] = c["A"]
            if c["ineq"]:
                m += len(A)
                if not c["hard"]:
                    m += len(A)
                    P = np.block([[P, np.zeros((len(P), len(A)))], [np.zeros((len(A), len(P))), c["w"] * np.eye(len(A))]])
            elif not c["hard"]:
                P[:n, :n] += c["w"] * A.T @ A
        return 100 * 2.2e-16 * m * np.trace(P) * (1 / np.diag(np.linalg.cholesky(P + 1e-15 * np.eye(len(P))))).sum()

    def solve(self, certificate=True):
        p = self.p
        try:
            p.solve()
            ok = True
        except Exception:
            ok = False
        vals = [np.atleast_1d(v.value) if np.size(v.value) else [] for v in self.vars]
        if not ok:
            kw = {}
            if self.farkas is None and self.accuracy() < 5e-7:
                kw["witness"] = self.x0
            self.rec("Solve", ok=False, vals=vals, **kw)
            return False
        n = self.n
        x = np.atleast_1d(p.x)[:n]
        kw = {}
        if self.farkas is not None:
            kw["farkas"] = self.farkas
        if certificate and np.isfinite(x).all() and len(x) == n:
            g = self.reg * x
            scale = 1 + np.abs(g).max(initial=0)
            Aeq, Ain, rin, where = [np.zeros((0, n))], [np.zeros((0, n))], [], []
            for k, c in enumerate(self.cons):
                A = np.zeros((c["A"].shape[0], n))
                A[:, :c["A"].shape[1]] = c["A"]
                r = A @ x + c["b"]
                if c["hard"]:
                    (Ain if c["ineq"] else Aeq).append(A)
                    if c["ineq"]:
                        rin += list(r)
                else:
                    res = np.minimum(r, 0) if c["ineq"] else r
                    t = c["w"] * A.T @ res
                    g = g + t
                    scale += np.abs(t).max(initial=0) + 0.01 * c["w"] * np.abs(A).max(initial=0) * (np.abs(c["b"]).max(initial=0) + np.abs(A).max(initial=0) * np.abs(x).max(initial=0))
            Aeq, Ain, rin = np.vstack(Aeq), np.vstack(Ain), np.array(rin)
            lam, mu = kkt_multipliers(g, Aeq, Ain, 5e-5, rin)
            mult, ie, ii = [], 0, 0
            for c in self.cons:
                m = len(c["b"])
                if not c["hard"]:
                    mult.append([])
                elif c["ineq"]:
                    mult.append(mu[ii:ii + m])
                    ii += m
                else:
                    mult.append(lam[ie:ie + m])
                    ie += m
            act = np.vstack([Aeq, Ain[rin <= 5e-5]]) if len(rin) else Aeq
            sv = np.linalg.svd(act, compute_uv=False) if act.shape[0] else np.ones(1)
            unique = act.shape[0] <= n and (sv.min() > 1e-3 * max(1, sv.max()))
            kw.update(mult=mult, scale=float(scale), unique=bool(unique))
        self.rec("Solve", ok=True, x=x, vals=vals, active=[bool(h.is_active) for h in self.handles], n=p.n_variables, exact=bool(self.accuracy() < 1e-6),
                 slack_variables=p.slack_variables, slacks=np.atleast_1d(p.slacks) if np.size(p.slacks) else [], **kw)
        return True

    # ---- random pieces, all consistent with the witness x0
    def rows(self, m, style):
        n, rng = self.n, self.rng
        A = rng.normal(size=(m, n))
        if style == "int":
            A = rng.integers(-2, 3, size=(m, n)).astype(float)
        elif style == "sparse":
            keep = rng.random((1, n)) < 0.4
            if not keep.any():
                keep[0, rng.integers(n)] = True
            A = A * keep
        elif style == "unit":
            A = np.zeros((m, n))
            for i in range(m):
                A[i, rng.integers(n)] = rng.choice([-1.0, 1.0])
        return A

    def style(self):
        return self.rng.choice(["dense", "sparse", "sparse", "unit"])

    def eq_rows(self):
        return sum(len(c["b"]) for c in self.cons if c["hard"] and not c["ineq"])

    def random_con(self):
        rng, n = self.rng, self.n
        kind = rng.choice(["heq", "hin", "seq", "seq", "sin", "lim", "lims"])
        m = int(rng.integers(1, 4)) if rng.random() < 0.8 else int(rng.integers(4, 9))
        w = float(rng.choice([1.0, 1.0, 10.0, 100.0, 0.1, round(rng.uniform(0.2, 5), 3)]))
        if kind == "heq":
            m = min(m, n - self.eq_rows())
            if rng.random() < 0.8:
                m = min(m, n - 1 - self.eq_rows())
            if m <= 0:
                return
            A = self.rows(m, rng.choice(["dense", "sparse"]))
            full = np.vstack([np.hstack([c["A"], np.zeros((len(c["b"]), n - c["A"].shape[1]))]) for c in self.cons if c["hard"] and not c["ineq"]] + [A])
            if np.linalg.svd(full, compute_uv=False).min() < 0.05:
                return
            self.add_con(A, -A @ self.x0, False, True, w)
        elif kind == "hin":
            A = self.rows(m, self.style())
            self.add_con(A, -A @ self.x0 + rng.uniform(0.05, 1.0, m), True, True, w)
        elif kind == "seq":
            A = self.rows(m, self.style())
            self.add_con(A, rng.uniform(-2, 2, m), False, False, w)
        elif kind == "sin":
            A = self.rows(m, self.style())
            self.add_con(A, rng.uniform(-3, 1, m), True, False, w)
        else:
            A = self.rows(m, self.style())
            b = rng.uniform(-1, 1, m)
            hard = kind == "lim"
            t = np.abs(A @ self.x0 + b) + rng.uniform(0.05, 0.5, m) if hard else rng.uniform(0.1, 1, m)
            self.add_limit(A, b, t, hard, w)

    def make_infeasible(self):
        """Adds hard constraints that contradict each other (with the certificate)."""
        rng, n = self.rng, self.n
        # with a tiny regularization the third-party solver can hang on infeasible problems (known finding)
        self.set_reg(float(rng.choice([1e-3, 1e-2, 1.0])))
        far = [[0.0] * len(c["b"]) for c in self.cons]
        gap = rng.uniform(0.1, 1)
        kind = rng.integers(4)
        a = self.rows(1, "dense")[0]
        if kind == 0:
            b = rng.uniform(-1, 1)
            self.add_con([a], [b], True, True, 1)
            self.add_con([-a], [-b - gap], True, True, 1)
            far += [[1.0], [1.0]]
        elif kind == 1:
            c = self.rows(1, "dense")[0]
            b = rng.uniform(-1, 1, 2)
            self.add_con([a, c], b, True, True, 1)
            self.add_con([-a - c], [-b.sum() - gap], True, True, 1)
            far += [[1.0, 1.0], [1.0]]
        elif kind == 2 and self.eq_rows() < n:
            b = rng.uniform(-1, 1)
            self.add_con([a], [b], False, True, 1)
            self.add_con([-a], [-b - gap], True, True, 1)
            far += [[1.0], [1.0]]
        else:
            b = rng.uniform(-1, 1)
            self.add_con([a], [b], False, True, 1)
            self.add_con([a], [b - gap], False, True, 1)
            far += [[-1.0], [1.0]]
        self.farkas = far

    def options(self):
        self.p.use_sparsity = bool(self.rng.integers(2))
        self.p.rewrite_equalities = bool(self.rng.integers(2))


def s_histories(rng, rec, k):
    s = Sim(rng, rec)
    for _ in range(rng.integers(1, 4)):
        s.add_var(int(rng.integers(1, 5)))
    s.options()
    if rng.random() < 0.3:
        s.set_reg(float(rng.choice([1e-6, 1e-4, 1e-2, 1.0])))
    for _ in range(rng.integers(1, 5)):
        for _ in range(rng.integers(1, 5)):
            s.random_con()
        s.options()
        s.solve()
        r = rng.random()
        if r < 0.25:
            s.clear()
        elif r < 0.4 and s.cons:
            i = int(rng.integers(len(s.cons)))
            was = s.cons[i]["hard"]
            s.conf(i, False, float(rng.uniform(0.5, 20)))
            s.solve()
            if was and rng.random() < 0.7:
                s.conf(i, True, float(rng.uniform(0.5, 20)))
                s.solve()
        elif r < 0.5:
            s.add_var(int(rng.integers(1, 3)))
        elif r < 0.55:
            s.clear_variables()
            for _ in range(rng.integers(1, 4)):
                s.add_var(int(rng.integers(1, 5)))
        elif r < 0.7:
            s.make_infeasible()
            s.options()
            s.solve()
            if rng.random() < 0.5:
                s.solve()
            s.clear()
        elif r < 0.8:
            s.set_reg(float(rng.choice([1e-8, 1e-6, 1e-3])))


def s_options(rng, rec, k):
    """The same problem under the four option combinations."""
    s = Sim(rng, rec)
    for _ in range(rng.integers(1, 4)):
        s.add_var(int(rng.integers(1, 6)))
    for _ in range(rng.integers(2, 7)):
        s.random_con()
    if k % 3 == 0:
        s.make_infeasible()
    for sp in (False, True):
        for rw in (False, True):
            s.p.use_sparsity, s.p.rewrite_equalities = sp, rw
            s.solve()


def s_large(rng, rec, k):
    s = Sim(rng, rec)
    for _ in range(rng.integers(3, 7)):
        s.add_var(int(rng.integers(2, 8)))
    if rng.random() < 0.6:
        s.set_reg(float(rng.choice([1e-5, 1e-3, 1e-2])))
    s.options()
    for _ in range(rng.integers(6, 16)):
        s.random_con()
    s.solve()
    s.options()
    s.solve()


def s_replay(rng, rec, beh):
    """Behaviours emitted by MCQP."""
    s = Sim(rng, rec)
    s.set_reg(1e-3)
    for op in beh:
        if op["op"] == "var":
            s.add_var(op["n"])
            s.x0 = np.zeros(0)
        elif op["op"] == "con":
            c = op["c"]
            A = np.array(c["A"], float)
            if A.shape[1] > s.n:
                # not expressible with the existing variables: the raw expression is given to the problem
                e = placo.Expression()
                e.A, e.b = A, np.array(c["b"], float)
                h = s.p.add_constraint((e >= 0.0) if c["ineq"] else (e == 0.0))
                if not c["hard"]:
                    h.configure("soft", float(c["w"]))
                s.cons.append(dict(A=A, b=np.array(c["b"], float), ineq=c["ineq"], hard=c["hard"], w=c["w"]))
                s.handles.append(h)
                rec("Con", A=A, b=c["b"], ineq=c["ineq"], hard=c["hard"], w=c["w"])
            else:
                s.add_con(np.hstack([A, np.zeros((len(A), s.n - A.shape[1]))]), c["b"], c["ineq"], c["hard"], c["w"])
        elif op["op"] == "clear":
            s.clear()
        elif op["op"] == "soften":
            s.conf(op["i"] - 1, False, 5)
        elif op["op"] == "solve":
            s.options()
            s.farkas = [] if not op["ok"] else None   # only used to tell that no witness is known
            wf = all(c["A"].shape[1] <= s.n for c in s.cons)
            x0 = None
            if op["ok"]:
                # a grid point satisfying the hard constraints
                import itertools
                for g in itertools.product(range(-1, 4), repeat=s.n):
                    x = np.array(g, float)
                    def val(c):
                        return np.hstack([c["A"], np.zeros((len(c["A"]), s.n - c["A"].shape[1]))]) @ x + c["b"]
                    if all((not c["hard"]) or ((val(c) >= 0).all() if c["ineq"] else (val(c) == 0).all()) for c in s.cons):
                        x0 = x
                        break
                s.x0 = x0
            eqs = [c for c in s.cons if c["hard"] and not c["ineq"]]
            if len(eqs) > 1:
                return  # redundant equalities: not required to be accepted
            expect_ok(s, op["ok"], wf)
            s.farkas = None


def s_findings(rng, rec, k):
    """The listed inputs of known-findings.json, each in a child process (they can hang in the QP solver)."""
    import os, signal
    a = np.array([[0.02, 0.9]])  # F01: 1 <= a.x <= 0.5 with the default regularization
    pid = os.fork()
    if pid == 0:
        signal.alarm(4)
        p = placo.Problem()
        x = p.add_variable(2)
        e = x.expr().left_multiply(a)
        p.add_constraint(e >= np.array([1.0]))
        p.add_constraint(e <= np.array([0.5]))
        try:
            p.solve()
            os._exit(7)
        except Exception:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    st = "refused" if st == 0 else ("accepted" if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7 else "hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else "crash")
    rec("Finding", id="F01", outcome=st)


def expect_ok(s, ok, wf):
    rec = s.rec
    if ok:
        s.solve()
        return
    # the model says that no solution exists: the code must refuse
    far = s.farkas
    s.farkas = None
    try:
        s.p.solve()
        refused = False
    except Exception:
        refused = True
    vals = [np.atleast_1d(v.value) if np.size(v.value) else [] for v in s.vars]
    if refused:
        rec("Solve", ok=False, vals=vals)
    else:
        rec("SolveUnexpected", vals=vals)
