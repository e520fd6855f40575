"""Splines, polynomials and swing foot trajectories (spec/Curves.tla)."""
import numpy as np
import placo
from common import raises


def f3(v):
    return np.array(v, float).reshape(3)


def query(rec, s, t):
    rec("Query", t=t, pos=s.pos(t), vel=s.vel(t), acc=s.acc(t))


def s_splines(rng, rec, k):
    angular = rng.random() < 0.4
    three = rng.random() < 0.25
    axis = int(rng.integers(3))
    if three:
        s3 = placo.CubicSpline3D()

        class S:
            add_point = staticmethod(lambda t, x, dx: s3.add_point(t, np.where(np.arange(3) == axis, x, rng.uniform(-9, 9, 3)),
                                                                   np.where(np.arange(3) == axis, dx, rng.uniform(-9, 9, 3))))
            pos = staticmethod(lambda t: s3.pos(t)[axis])
            vel = staticmethod(lambda t: s3.vel(t)[axis])
            acc = staticmethod(lambda t: s3.acc(t)[axis])
            clear = staticmethod(s3.clear)
            duration = staticmethod(s3.duration)
        s, angular = S, False
    else:
        s = placo.CubicSpline(angular) if angular or rng.random() < 0.5 else placo.CubicSpline()
    rec("Angular", v=angular)
    t = float(rng.choice([0.0, rng.uniform(-5, 50)]))
    times = []
    for _ in range(int(rng.integers(2, 9))):
        r = rng.random()
        if r < 0.08:
            s.clear()
            rec("Clear")
            times = []
            continue
        if r < 0.2 and times:
            ta = float(rng.choice([times[-1], times[-1] - rng.uniform(0, 2), times[0]]))
        else:
            ta = t = t + rng.uniform(0.05, 2)
        x, dx = rng.uniform(-7, 7), rng.uniform(-3, 3)
        if angular and times and abs(abs((x - last + np.pi) % (2 * np.pi) - np.pi) - np.pi) < 1e-3:
            x += 0.01
        failed, _ = raises(lambda: s.add_point(ta, x, dx))
        rec("Add", t=ta, x=x, dx=dx, ok=not failed)
        if not failed:
            times.append(ta)
            last = x
        if rng.random() < 0.5:
            rec("Duration", v=s.duration())
        for _ in range(int(rng.integers(0, 4))):
            q = float(rng.uniform(times[0] - 1, times[-1] + 1)) if times and rng.random() < 0.8 else float(rng.choice(times + [0.3]))
            query(rec, s, q)
    rec("Duration", v=s.duration())
    for _ in range(4):
        query(rec, s, float(rng.uniform(t - 4, t + 1)))


def s_replay(rng, rec, hist):
    s = placo.CubicSpline()
    for h in hist:
        if h["op"] == "add":
            failed, _ = raises(lambda: s.add_point(float(h["t"]), float(h["x"]), float(h["dx"])))
            rec("Add", t=h["t"], x=h["x"], dx=h["dx"], ok=not failed)
        elif h["op"] == "clear":
            s.clear()
            rec("Clear")
        else:
            query(rec, s, 1.5)
    rec("Duration", v=s.duration())
    for t in (-1.0, 0.0, 0.5, 1.0, 2.0, 3.0, 4.0):
        query(rec, s, t)


def s_polynoms(rng, rec, k):
    size = lambda: int(rng.integers(1, 9) if rng.random() < 0.7 else rng.integers(9, 21))
    c = rng.uniform(-2, 2, size())
    p = placo.Polynom(c)
    for _ in range(8):
        x = float(rng.uniform(-3, 3))
        d = int(rng.integers(0, len(c) + 2))
        rec("Poly", c=c, x=x, d=d, v=p.value(x, d) if d or rng.random() < 0.5 else p.value(x))
        if rng.random() < 0.2:
            c = rng.uniform(-2, 2, size())
            p.coefficients = c
    for _ in range(4):
        n, d = int(rng.integers(0, 21)), int(rng.integers(0, 22))
        rec("Coef", n=n, d=d, v=float(placo.Polynom.derivative_coefficient(n, d)))


def s_swings(rng, rec, k):
    t0 = float(rng.choice([0.0, rng.uniform(-2, 100)]))
    T = float(rng.uniform(0.1, 2))
    h = float(rng.uniform(0.01, 0.3))
    start, target = rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3)
    if rng.random() < 0.5:
        start[2], target[2] = 0.0, float(rng.choice([0.0, 0.05]))

    def times(n):
        for _ in range(n):
            yield float(rng.choice([t0, t0 + T / 4, t0 + 3 * T / 4, t0 + T, rng.uniform(t0 - 0.1 * T, t0 + 1.1 * T), rng.uniform(t0, t0 + T), rng.uniform(t0, t0 + T)]))
    rec("Make", t0=t0, t1=t0 + T, h=h, start=start, target=target)
    q = placo.SwingFootQuintic.make_trajectory(t0, t0 + T, h, start, target)
    for t in times(6):
        rec("Quintic", t=t, pos=f3(q.pos(t)), vel=f3(q.vel(t)))
    s = placo.SwingFoot.make_trajectory(t0, t0 + T, h, start, target)
    for t in times(6):
        rec("Swing", t=t, pos=f3(s.pos(t)), vel=f3(s.vel(t)))
    tr = t0
    for _ in range(int(rng.integers(0, 3))):
        tr = float(rng.uniform(tr, t0 + 0.8 * T))
        target = rng.uniform(-1, 1, 3)
        s = placo.SwingFoot.remake_trajectory(s, tr, target)
        rec("Remake", t=tr, target=target)
        for t in [tr, t0 + T] + list(times(4)):
            rec("Swing", t=t, pos=f3(s.pos(t)), vel=f3(s.vel(t)))
    for _ in range(2):
        elapsed = float(rng.choice([0.0, rng.uniform(0, 0.95), 0.5]))
        rise = float(rng.choice([0.0, rng.uniform(0.02, 0.95), 0.2]))
        vel = rng.uniform(-1, 1, 3) if rng.random() < 0.7 else np.zeros(3)
        pl = [t0 - elapsed * T + T / 2 + x * T / 2 * rise for x in ((-1, 1) if rise > 0 else (0,))]
        if any(abs(p - t0) < 1e-3 for p in pl):
            elapsed += 0.013
        c = placo.SwingFootCubic.make_trajectory(t0, T, h, rise, start, target, elapsed, vel)
        rec("Cubic", t0=t0, T=T, h=h, rise=rise, start=start, target=target, elapsed=elapsed, vel=vel)
        for t in times(6):
            rec("CubicAt", t=t, start=start, target=target, vel0=vel, pos=f3(c.pos(t)), vel=f3(c.vel(t)))
