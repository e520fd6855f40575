"""Walk pattern generator (spec/Wpg.tla)."""
import numpy as np
import placo
from common import kkt_multipliers, raises
from d_walk import NAME, SIDE, feet, foot, other, params, pose, rand_step, record_par, robot, sup


class Walk:
    """A generator, its current supports and trajectory, and a numpy rendering of its programs (only used to find certificates)."""

    def __init__(self, rng, rec, soft=None, **kw):
        self.rng, self.rec = rng, rec
        p = self.p = params(rng, **kw)
        p.single_support_timesteps = int(rng.integers(3, 7))
        p.single_support_duration = float(rng.uniform(0.3, 0.8))
        p.walk_com_height = float(rng.uniform(0.2, 0.6))
        p.walk_foot_height = float(rng.uniform(0.01, 0.08))
        p.walk_foot_rise_ratio = float(rng.choice([0.0, 0.2, 0.5, rng.uniform(0, 0.9)]))
        p.walk_trunk_pitch = float(rng.choice([0.0, rng.uniform(-0.3, 0.3)]))
        p.double_support_ratio = float(rng.choice([0.0, 0.0, 0.4, 0.7, 1.0]))
        p.zmp_margin = float(rng.choice([0.0, 0.005, 0.015]))
        p.zmp_reference_weight = float(rng.choice([0.1, 1e-3, 0.5, 2.0]))
        p.foot_zmp_target_x = float(rng.choice([0.0, rng.uniform(-0.01, 0.01)]))
        p.foot_zmp_target_y = float(rng.choice([0.0, rng.uniform(-0.01, 0.01)]))
        for k, v in kw.items():
            setattr(p, k, v)
        self.soft = bool(rng.random() < 0.25) if soft is None else soft
        if self.soft:
            # soft programs are only solved accurately when they are well scaled
            p.zmp_reference_weight = max(0.1, p.zmp_reference_weight)
        record_par(rec, p)
        self.g = placo.WalkPatternGenerator(robot(), p)
        self.g.soft = self.soft
        if rng.random() < 0.5:
            self.g.zmp_in_support_weight = float(rng.choice([10.0, 100.0, 1e3]))
            self.g.stop_end_support_weight = float(rng.choice([10.0, 100.0, 1e3]))
        self.om = float(np.sqrt(9.80665 / p.walk_com_height))
        rec("Gen", soft=self.soft, wz=self.g.zmp_in_support_weight, wstop=self.g.stop_end_support_weight)
        if soft is None and rng.random() < 0.3:
            # parameters are read when planning (the height of the centre of mass only matters for its own height then)
            p.walk_com_height = float(p.walk_com_height * rng.uniform(0.9, 1.1))
            p.zmp_margin = float(rng.choice([0.0, 0.01]))
            record_par(rec, p)
        self.traj, self.replanned = None, False

    # ---- programs
    def steps(self, s):
        return max(1, int((1 - s.elapsed_ratio) * self.g.support_default_timesteps(s)))

    def left(self, s):
        return (1 - s.elapsed_ratio) * self.g.support_default_duration(s) * s.time_ratio

    def program(self, S, X0, Y0, margin=None):
        p = self.p
        margin = p.zmp_margin if margin is None else margin
        ns = [self.steps(s) for s in S]
        N = sum(ns)
        M = np.zeros((3, N + 3))
        M[:, N:] = np.eye(3)
        cons, m = [], 0
        polys = [np.array([np.array(q) for q in s.support_polygon()]) for s in S]
        for s, n, poly in zip(S, ns, polys):
            h = self.left(s) / n
            A = np.array([[1, h, h * h / 2], [0, 1, h], [0, 0, 1]])
            b = np.array([h ** 3 / 6, h * h / 2, h])
            F = np.array(s.frame())
            o = np.zeros(2)
            if not s.is_both():
                o = np.array([p.foot_zmp_target_x, p.foot_zmp_target_y * (1 if NAME[s.side()] == "left" else -1)])
            ref = (F @ np.array([o[0], o[1], 0, 1]))[:2]
            d = np.roll(poly, -1, axis=0) - poly
            nrm = np.stack([d[:, 1], -d[:, 0]], axis=1)
            nrm /= np.linalg.norm(nrm, axis=1)[:, None]
            dist = (nrm * poly).sum(axis=1) + margin

            def rows(D, r):
                a = np.hstack([np.outer(D[:, 0], r[:N]), np.outer(D[:, 1], r[:N])])
                return a, D[:, 0] * (r[N:] @ X0) + D[:, 1] * (r[N:] @ Y0)
            for j in range(n):
                M = A @ M
                M[:, m] += b
                m += 1
                z = M[0] - M[2] / self.om ** 2
                a, c = rows(nrm, z)
                cons.append((a, c - dist, True, not self.soft, self.g.zmp_in_support_weight))
                a, c = rows(np.eye(2), z)
                cons.append((a, c - ref, False, False, p.zmp_reference_weight))
                if s.end and j == n - 1:
                    a, c = zip(*[rows(np.eye(2), M[i]) for i in range(3)])
                    c = np.hstack(c)
                    c[:2] -= F[:2, 3]
                    cons.append((np.vstack(a), c, False, not self.soft, self.g.stop_end_support_weight))
        return cons, polys, ns

    def jerks(self, T, traj, ts, ns):
        R = T[:2, :2].T
        out = []
        for (a, b), n in zip(ts, ns):
            h = (b - a) / n
            out.append(np.array([R @ np.array(traj.get_j_world_CoM(a + (k + 0.5) * h))[:2] for k in range(n)]))
        return [u[:, 0] for u in out], [u[:, 1] for u in out]

    def spans(self, traj, S):
        """Part times, found by walking from one end to the next."""
        ts, t = [], traj.t_start
        for s in S:
            q = t + 0.4 * self.left(s)
            ts.append((traj.get_part_t_start(q), traj.get_part_t_end(q)))
            t = ts[-1][1]
        return ts

    def spans_before(self, t):
        """The parts that end before t."""
        tr, out, u = self.traj, [], self.traj.t_start
        while True:
            e = tr.get_part_t_end(u + 1e-5)
            if e >= t:
                return out
            out.append(e)
            u = e

    def witness(self, S, X0, Y0):
        """A point inside the hard constraints, if the same problem with a larger margin has one."""
        cons, polys, _ = self.program(S, X0, Y0, self.p.zmp_margin + 1e-4)
        pb = placo.Problem()
        n = cons[0][0].shape[1]
        v = pb.add_variable(n)
        for A, b, ineq, hard, w in cons:
            if not hard:
                continue
            e = placo.Expression()
            e.A, e.b = np.asfortranarray(A), np.array(b)
            pb.add_constraint(e >= 0 if ineq else e == 0)
        pb.regularization = 1e-3
        f, _ = raises(pb.solve)
        if f:
            return {}
        return dict(witness=np.array(pb.x), polys=polys)

    def fields(self, traj, S, X0, Y0):
        cons, polys, ns = self.program(S, X0, Y0)
        ts = self.spans(traj, S)
        ux, uy = self.jerks(np.eye(4), traj, ts, ns)
        x = np.hstack([np.hstack(ux), np.hstack(uy)])
        mult, scale = certificate(cons, x, 1e-8)
        if self.soft:
            mult, scale = dict(best=best(cons, x, 1e-8)), 1.0
        else:
            mult = dict(mult=mult)
        return dict(t0=traj.t_start, te=traj.t_end, ts=ts, ux=ux, uy=uy, polys=polys, **mult, scale=scale, after=[sup(s) for s in S])

    # ---- actions
    def set_sups(self, S):
        self.S = S
        self.rec("Sups", sups=[sup(s) for s in S])

    def supports(self, n=None, d=None, t=0.0, flying=None, LR=None, start=True, end=True):
        rng, p = self.rng, self.p
        pl = placo.FootstepsPlannerRepetitive(p)
        d = rand_step(rng, p) if d is None else d
        pl.configure(float(d[0]), float(d[1]), float(d[2]), int(rng.integers(1, 4)) if n is None else n)
        flying = str(rng.choice(["left", "right"])) if flying is None else flying
        L, R = feet(rng, p) if LR is None else LR
        fs = pl.plan(SIDE[flying], L, R)
        S = placo.FootstepsPlanner.make_supports(fs, t, start, p.has_double_support(), end)
        self.planner = pl
        self.set_sups(S)
        return S

    def plan(self, t=None, com=None):
        rng, S = self.rng, self.S
        t = float(rng.choice([0.0, rng.uniform(-3, 3)])) if t is None else t
        if com is None:
            com = np.array(S[0].frame())[:3, 3] + np.r_[rng.uniform(-0.005, 0.005, 2), 0.3] if len(S) else np.zeros(3)
        f, traj = raises(lambda: self.g.plan(S, com, t))
        X0, Y0 = np.array([com[0], 0, 0]), np.array([com[1], 0, 0])
        if f:
            well = len(S) > 0 and S[0].is_both() and S[len(S) - 1].is_both()
            self.rec("Plan", ok=False, at=t, com=com, **(self.witness(S, X0, Y0) if well else {}))
            return None
        if not (len(S) > 0 and S[0].is_both() and S[len(S) - 1].is_both()):
            self.rec("Plan", ok=True, at=t, com=com)
            return None
        self.rec("Plan", ok=True, at=t, com=com, **self.fields(traj, S, X0, Y0))
        self.traj, self.replanned, self.t_last = traj, False, t
        return traj

    def times(self, n):
        tr, rng = self.traj, self.rng
        a, b = tr.t_start, tr.t_end
        out = [a, b, a - 0.3, b + 0.3]
        out += list(rng.uniform(a, b, n))
        t = a
        while t < b - 1e-6:
            e = tr.get_part_t_end(t + 1e-4)
            out += [e, e - 1e-3, e + 1e-3]
            t = e
        rng.shuffle(out)
        return [float(x) for x in out[:n]]

    def query(self, t):
        tr, om, rec = self.traj, self.om, self.rec
        n = int(self.rng.integers(0, 4))
        s = tr.get_support(t)
        both = tr.support_is_both(t)
        kw = {}
        kw["side"] = "" if both else NAME[tr.support_side(t)]
        z3, z2 = np.zeros(3), np.zeros(2)
        rec("Query", t=t, replanned=self.replanned, tie=True if self.tie(t) else False, n=n, p=np.array(tr.get_p_world_CoM(t)), v=np.array(tr.get_v_world_CoM(t)), a=np.array(tr.get_a_world_CoM(t)),
            j=np.array(tr.get_j_world_CoM(t)), zmp=np.array(tr.get_p_world_ZMP(t, om)), dcm=np.array(tr.get_p_world_DCM(t, om)),
            feet=dict(left=np.array(tr.get_T_world_left(t)), right=np.array(tr.get_T_world_right(t))),
            vfeet=dict(left=np.array(tr.get_v_world_foot(SIDE["left"], t)), right=np.array(tr.get_v_world_right(t))), trunk=np.array(tr.get_R_world_trunk(t)),
            sup=sup(s), next=sup(tr.get_next_support(t, n)), prev=sup(tr.get_prev_support(t, n)), both=both, ts=tr.get_part_t_start(t), te=tr.get_part_t_end(t),
            end_dcm=np.array(tr.get_part_end_dcm(t, om)), sp=z3 if both else np.array(tr.get_p_support_CoM(t)), sv=z3 if both else np.array(tr.get_v_support_CoM(t)),
            sdcm=z2 if both else np.array(tr.get_p_support_DCM(t, om)), **kw)

    def tie(self, t):
        """Close to the end of a planning step: the jerk is either the one before or the one after."""
        tr = self.traj
        j = [np.array(tr.get_j_world_CoM(t + d)) for d in (-1e-7, 0, 1e-7)]
        return np.abs(j[0] - j[1]).max() > 1e-9 or np.abs(j[2] - j[1]).max() > 1e-9

    def queries(self, n):
        for t in self.times(n):
            self.query(t)

    def all(self):
        tr = self.traj
        self.rec("All", replanned=self.replanned, sups=[sup(s) for s in tr.get_supports()], t0=tr.t_start, te=tr.t_end, ok=tr.replan_success, z=tr.com_target_z,
                 pitch=tr.trunk_pitch)

    def transform(self, T=None):
        T = pose(*self.rng.uniform(-1, 1, 2), self.rng.uniform(-3, 3)) if T is None else T
        self.traj.apply_transform(np.asfortranarray(T))
        self.rec("Transform", T=T)

    def can_replan(self, t):
        v = self.g.can_replan_supports(self.traj, t)
        self.rec("CanReplan", t=t, v=v)
        return v

    def clear(self, t):
        """Not close to where the number of planning steps, or the current part, changes."""
        tr = self.traj
        a, b = tr.get_part_t_start(t), tr.get_part_t_end(t)
        if t < tr.t_start or t > tr.t_end or t - a < 1e-4 or b - t < 5e-3:
            return False
        s = tr.get_support(t)
        w = self.g.support_default_duration(s) * s.time_ratio
        el = s.elapsed_ratio + (t - max(self.t_last, s.t_start)) / w
        k = (1 - el) * self.g.support_default_timesteps(s)
        return 0 < el < 1 and abs(k - round(k)) > 1e-6

    def replan_sups(self, t, d=None, n=None):
        tr, rng, p = self.traj, self.rng, self.p
        d = rand_step(rng, p) if d is None else d
        pl = placo.FootstepsPlannerRepetitive(p)
        pl.configure(float(d[0]), float(d[1]), float(d[2]), int(rng.integers(0, 3)) if n is None else n)
        s, nx = tr.get_support(t), tr.get_next_support(t, 1)
        f, S = raises(lambda: self.g.replan_supports(pl, tr, t, self.t_last))
        fs = []
        if not s.is_both() and self.g.can_replan_supports(tr, t):
            side = NAME[s.side()]
            T = {side: np.array(s.footstep_frame(SIDE[side])), other(side): np.array(nx.footstep_frame(SIDE[other(side)]))}
            fs = [foot(x) for x in pl.plan(SIDE[side], np.asfortranarray(T["left"]), np.asfortranarray(T["right"]))]
        self.rec("ReplanSups", t=t, since=self.t_last, steps=fs, ok=not f, sups=[] if f else [sup(x) for x in S])
        if not f:
            self.S = S
        return not f

    def replan(self, t):
        S, tr = self.S, self.traj
        com = [np.array(x)[:2] for x in (tr.get_p_world_CoM(t), tr.get_v_world_CoM(t), tr.get_a_world_CoM(t))]
        X0, Y0 = np.array([c[0] for c in com]), np.array([c[1] for c in com])
        before = [sup(s) for s in S]
        f, new = raises(lambda: self.g.replan(S, tr, t))
        if f or len(S) == 0 or not S[len(S) - 1].is_both():
            self.rec("Replan", raised=f, ok=False, at=t)
            return
        if not new.replan_success:
            self.rec("Replan", raised=False, ok=False, at=t, **self.witness(S, X0, Y0))
        else:
            self.rec("Replan", raised=False, ok=True, at=t, **self.fields(new, S, X0, Y0))
        self.traj, self.replanned, self.t_last = new, True, t

    # ---- reaction to the measured DCM
    def area(self, rng):
        p = self.p
        a, b, c = p.feet_spacing * rng.uniform(0.6, 0.9), p.feet_spacing * rng.uniform(1.2, 1.8), rng.uniform(0.05, 0.2)
        op = [np.array(x) for x in ((-c, a), (-c, b), (c, b), (c, a))]
        u, v = rng.uniform(0.01, 0.1, 2)
        off = [np.array(x) for x in ((-u, -v), (-u, v), (u, v), (u, -v))]
        p.op_space_polygon = op
        p.dcm_offset_polygon = off
        return np.array(op), np.array(off)

    def optimal_zmp(self, frm, to, d):
        s = self.S[0]
        poly = np.array([np.array(q) for q in s.support_polygon()])
        f, x = raises(lambda: np.array(self.g.get_optimal_zmp(frm, to, d, s)))
        e = np.exp(self.om * d)
        t = (to - frm * e) / (1 - e)
        dd = np.roll(poly, -1, axis=0) - poly
        nrm = np.stack([dd[:, 1], -dd[:, 0]], axis=1)
        nrm /= np.linalg.norm(nrm, axis=1)[:, None]
        c = -((nrm * poly).sum(axis=1) + self.p.zmp_margin)
        cons = [(np.eye(2), -t, False, False, 1.0), (nrm, c, True, True, 1.0)]
        kw = {}
        if f:
            if (nrm @ poly.mean(axis=0) + c > 1e-3).all():
                kw = dict(witness=poly.mean(axis=0))
        else:
            mult, scale = certificate(cons, x, 1e-8)
            kw = dict(x=x, mult=mult, scale=scale)
        self.rec("OptimalZmp", poly=poly, d=d, ok=not f, **{"from": frm}, to=to, **kw)
        return None if f else x

    def update(self, t, dcm, op, off):
        """Supports adapted to a measured DCM."""
        S = self.S
        s = S[0]
        if s.is_both():
            f, _ = raises(lambda: self.g.update_supports(t, S, dcm))
            self.rec("Update", t=t, dcm=dcm, ok=not f, op=op, off=off, zmp=np.zeros(2), sups=[sup(x) for x in S])
            return False
        om, D = self.om, self.g.support_default_duration(s)
        el = t - s.t_start
        zmp = self.optimal_zmp(dcm, np.array(s.target_world_dcm), max(1e-5, D - el))
        f, S2 = raises(lambda: self.g.update_supports(t, S, dcm))
        if zmp is None:
            return False
        F, G = np.array(s.frame()), np.array(S[1].frame())
        R, p0, q0 = F[:2, :2], F[:2, 3], G[:2, 3]
        sg = 1 if NAME[s.side()] == "right" else -1

        def edges(poly):
            d = np.roll(poly, -1, axis=0) - poly
            n = np.stack([d[:, 1], -d[:, 0]], axis=1)
            n /= np.linalg.norm(n, axis=1)[:, None]
            return n, -(n * poly).sum(axis=1)
        g = np.exp(-om * el) * (dcm - zmp)
        z22, z21, z = np.zeros((2, 2)), np.zeros((2, 1)), lambda n, m: np.zeros((n, m))
        E, e0 = edges(sg * op)
        O, o0 = edges(off)
        e3 = np.array([[0, 0, 1.0, 0, 0]])
        cons = [(e3, np.array([-np.exp(om * D)]), False, False, 5.0),
                (np.hstack([R, z21, z22]), p0 - q0, False, False, 100.0),
                (np.hstack([z22, z21, R]), -(np.array(s.target_world_dcm) - q0), False, False, 1000.0),
                (e3, np.array([-np.exp(om * max(0.15, el))]), True, True, 1.0),
                (-e3, np.array([np.exp(om * max(3.0, el))]), True, True, 1.0),
                (np.hstack([E, z(len(E), 3)]), e0, True, True, 1.0),
                (np.hstack([z(len(O), 3), O]), o0, True, False, 1e6),
                (np.hstack([R, -g[:, None], R]), p0 - zmp, False, True, 1.0)]
        if f:
            # some landing in the area, at the reference time; the offset follows
            tau = np.exp(om * np.clip(D, max(0.15, el) + 1e-3, 2.9))
            c = sg * op.mean(axis=0)
            o = R.T @ (g * tau + zmp - p0) - c
            self.rec("Update", t=t, dcm=dcm, ok=False, op=op, off=off, zmp=zmp, sups=[], witness=np.r_[c, tau, o])
            return False
        tr = S2[0].time_ratio
        left = tr * D * (1 - s.elapsed_ratio)
        tau, kw = np.exp(om * (el + left)), {}
        if left < 1.2e-3:
            # the phase ends now (a millisecond is left): the end that was decided is not visible, one is proposed
            hint = optimum(cons, 5)
            if hint is None or abs(hint[2] - np.exp(om * max(0.15, el))) > 1e-5 * hint[2]:
                return False
            tau = np.exp(om * max(0.15, el))
            kw = dict(tau=tau)
        T = np.array(S2[1].footsteps[0].frame)[:2, 3]
        x = np.r_[R.T @ (T - p0), tau, R.T @ (g * tau + zmp - T)]
        mult, scale = certificate(cons, x, 1e-8, 1e-5)
        self.rec("Update", t=t, dcm=dcm, ok=True, op=op, off=off, zmp=zmp, sups=[sup(y) for y in S2], mult=mult, scale=scale, **kw)
        self.S = S2
        return True


def optimum(cons, n):
    """Solution of a program (a proposal)."""
    p = placo.Problem()
    x = p.add_variable(n)
    for A, b, ineq, hard, w in cons:
        e = x.expr().left_multiply(A) + b
        p.add_constraint(e >= 0 if ineq else e == 0).configure("hard" if hard else "soft", w)
    f, _ = raises(p.solve)
    return None if f else np.array(x.value).reshape(-1)


def best(cons, x, reg):
    """Minimum of the soft constraints, by Newton steps from x."""
    x = x.copy()

    def cost(x):
        return reg * x @ x + sum(w * (np.minimum(A @ x + b, 0) if ineq else A @ x + b) @ (A @ x + b) for A, b, ineq, _, w in cons)
    c = cost(x)
    for _ in range(60):
        H, g = reg * np.eye(len(x)), reg * x
        for A, b, ineq, _, w in cons:
            r = A @ x + b
            a = r < 0 if ineq else np.ones(len(b), bool)
            H += w * A[a].T @ A[a]
            g = g + w * A[a].T @ r[a]
        d = -np.linalg.solve(H, g)
        s = 1.0
        while s > 1e-6 and cost(x + s * d) > c:
            s /= 2
        if s <= 1e-6:
            break
        x, old = x + s * d, c
        c = cost(x)
        if old - c < 1e-12 * (1 + c):
            break
    return x


def certificate(cons, x, reg, active=1e-6):
    """Multipliers of the rows of the constraints at x, and the magnitude of the forces."""
    g = reg * x
    scale = 1.0
    for A, b, ineq, hard, w in cons:
        if hard:
            continue
        r = A @ x + b
        if ineq:
            r = np.minimum(r, 0)
        f = w * A.T @ r
        scale = max(scale, np.abs(f).max())
        g = g + f
    n = len(x)
    eq = [A for A, b, ineq, hard, w in cons if hard and not ineq]
    iq = [A for A, b, ineq, hard, w in cons if hard and ineq]
    ri = [A @ x + b for A, b, ineq, hard, w in cons if hard and ineq]
    Aeq = np.vstack(eq) if eq else np.zeros((0, n))
    Ain = np.vstack(iq) if iq else np.zeros((0, n))
    lam, mu = kkt_multipliers(g, Aeq, Ain, active, np.hstack(ri) if ri else np.zeros(0))
    out, i, j = [], 0, 0
    for A, b, ineq, hard, w in cons:
        k = len(b)
        if not hard:
            out.append([])
        elif ineq:
            out.append(np.maximum(mu[j:j + k], 0))
            j += k
        else:
            out.append(lam[i:i + k])
            i += k
    return out, scale


def s_plans(rng, rec, k):
    w = Walk(rng, rec)
    r = rng.random()
    if r < 0.08:
        w.supports(start=bool(rng.random() < 0.5), end=bool(rng.random() < 0.3))
        if rng.random() < 0.3:
            w.set_sups(placo.Supports())
        w.plan()
        return
    S = w.supports()
    if rng.random() < 0.3:
        # walks that already spent part of their first phase, or with stretched phases
        S[0].elapsed_ratio = float(rng.uniform(0, 0.7))
        for s in S:
            s.time_ratio = float(rng.uniform(0.8, 1.5))
        w.set_sups(S)
    if w.plan() is None:
        return
    w.all()
    w.queries(5)
    for _ in range(int(rng.integers(0, 3))):
        w.transform()
        w.queries(2)
    w.all()


def s_replans(rng, rec, k):
    w = Walk(rng, rec)
    S = w.supports(n=int(rng.integers(2, 4)))
    if rng.random() < 0.5:
        # stretched phases
        for s in S:
            s.time_ratio = float(rng.uniform(0.8, 1.5))
        w.set_sups(S)
    if w.plan() is None:
        return
    for _ in range(4):
        tr = w.traj
        if rng.random() < 0.4:
            w.transform()
        for _ in range(6):
            t = float(rng.uniform(tr.t_start, tr.t_start + (0.7 if rng.random() < 0.7 else 0.2) * (tr.t_end - tr.t_start)))
            if w.clear(t) and (rng.random() < 0.1 or w.g.can_replan_supports(tr, t)):
                break
        if not w.clear(t):
            continue
        w.can_replan(t)
        r = rng.random()
        if not w.replan_sups(t):
            # the same walk, from here
            S = placo.Supports()
            for s in [s for s in tr.get_supports()][len(w.spans_before(t)):]:
                S.append(s)
            s = S[0]
            s.elapsed_ratio = float(s.elapsed_ratio + (t - max(w.t_last, s.t_start)) / (w.g.support_default_duration(s) * s.time_ratio))
            w.set_sups(S)
        if r < 0.15:
            # a step that cannot be followed
            i = len(w.S) - 1
            w.S[i].apply_offset(rng.uniform(-1, 1, 2) * 3)
            w.set_sups(w.S)
        elif r < 0.2:
            w.S = placo.FootstepsPlanner.truncate_supports(w.S, 1, False)
            w.set_sups(w.S)
        w.replan(t)
        w.all()
        w.queries(4)


def s_measure(rng, rec, k):
    w = Walk(rng, rec, zmp_margin=0.0)
    op, off = w.area(rng)
    w.supports(n=3)
    if w.plan() is None:
        return
    tr = w.traj
    for _ in range(3):
        t = float(rng.uniform(tr.t_start, tr.t_start + 0.8 * (tr.t_end - tr.t_start)))
        if not w.clear(t):
            continue
        if w.g.can_replan_supports(tr, t):
            if not w.replan_sups(t):
                continue
            w.S[0].target_world_dcm = np.array(tr.get_support(t).target_world_dcm)
            w.set_sups(w.S)
        else:
            S = tr.get_supports()
            w.set_sups(S)
        dcm = np.array(tr.get_p_world_DCM(t, w.om)) + rng.uniform(-1, 1, 2) * rng.choice([0.0, 0.005, 0.02, 0.06])
        w.update(t, dcm, op, off)
        # the walk follows what was decided
        again = w.S if rng.random() < 0.5 and not tr.get_support(t).is_both() else None
        for _ in range(2):
            w.optimal_zmp(dcm + rng.uniform(-1, 1, 2) * 0.02, np.array(tr.get_part_end_dcm(t, w.om)) + rng.uniform(-1, 1, 2) * 0.02, float(rng.uniform(0.05, 0.8)))
        if again is not None and w.g.can_replan_supports(tr, t):
            w.replan(t)
            w.all()
            w.queries(2)
            if not w.traj.replan_success:
                return
            tr = w.traj


def s_replay(rng, rec, b):
    """Histories of MCWpg."""
    h = b["hist"]
    par = dict(single_support_duration=0.5, single_support_timesteps=5, startend_double_support_ratio=1.4, double_support_ratio=0.6 if h[0]["dbl"] else 0.0,
               walk_foot_height=0.04, walk_foot_rise_ratio=0.2, walk_com_height=0.3, walk_trunk_pitch=0.1, zmp_margin=0.0, walk_max_dx_forward=0.08,
               walk_max_dx_backward=0.04, walk_max_dy=0.05, walk_max_dtheta=0.4, walk_dtheta_spacing=0.05, feet_spacing=0.1301, foot_width=0.09, foot_length=0.15,
               foot_zmp_target_x=0.0, foot_zmp_target_y=0.0, zmp_reference_weight=0.1)
    w = Walk(rng, rec, soft=False, **par)
    ask = np.array([0.05, 0.01, 0.2])
    w.supports(n=h[0]["n"], d=ask, t=0.7, flying=h[0]["flying"], LR=(pose(0.3, 0.26505, 0.4), pose(0.35066, 0.14523, 0.4)))
    if w.plan(t=0.7) is None:
        return
    for o in h[1:]:
        if o["op"] == "move":
            w.transform(pose(1.0, -0.5, 2.5))
        else:
            ends = [w.traj.t_start] + w.spans_before(w.traj.t_end)
            ends.append(w.traj.t_end)
            k = o["i"]
            t = float(ends[k - 1] + float(o["f"]) * (ends[k] - ends[k - 1]))
            can = w.can_replan(t)
            if o["op"] == "replan":
                if not w.replan_sups(t, ask, o["n"]):
                    return
                w.replan(t)
                if not w.traj.replan_success:
                    return
            else:
                # something that cannot be done
                S = w.traj.get_supports()
                f = S[len(S) - 1]
                f.apply_offset(np.array([4.0, -3.0]))
                w.set_sups(S)
                w.replan(t)
        w.all()
        w.queries(2)
