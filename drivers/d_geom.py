"""Geometry helpers (spec/Geom.tla)."""
import numpy as np
import placo
from common import raises, rand_rot, rand_frame, rotz, frame, rot

E = 1e-6


def seg_event(rec, s, o, off=(0.0, 0.0), k=1.0):
    off = np.array(off, float)

    def pt(p):
        return k * np.array(p, float) + off
    S, O = placo.Segment(pt(s["a"]), pt(s["b"])), placo.Segment(pt(o["a"]), pt(o["b"]))
    ev = dict(s=s, o=o, parallel=S.is_parallel(O, E), aligned_a=S.is_point_aligned(pt(o["a"]), E), aligned=S.is_segment_aligned(O, E),
              in_a=S.is_point_in_segment(pt(o["a"]), E), in_b=S.is_point_in_segment(pt(o["b"]), E), norm=S.norm() / k)
    r = [raises(lambda: S.intersects(O)), raises(lambda: S.line_pass_through(O)), raises(lambda: S.half_line_pass_through(O)), raises(lambda: S.lines_intersection(O))]
    raised = any(x for x, _ in r)
    if raised and not all(x for x, _ in r):
        raise Exception("only some of the intersections were refused")
    if not raised:
        ev.update(intersects=r[0][1], through=r[1][1], half=r[2][1], meet=(np.array(r[3][1], float).reshape(2) - off) / k)
    rec("Seg", raised=raised, **ev)


def s_replay(rng, rec, b):
    seg_event(rec, b["s"], b["o"])


def s_segments(rng, rec, k):
    """Integer segments (exact answers), possibly moved by dyadic offsets and scales (exact in floating point)."""
    for _ in range(12):
        m = int(rng.choice([3, 6, 20]))

        def P():
            return [int(x) for x in rng.integers(-m, m + 1, 2)]

        def S():
            while True:
                a, b = P(), P()
                if a != b:
                    return dict(a=a, b=b)
        s, o = S(), S()
        r = rng.random()
        if r < 0.2:     # parallel or aligned
            d = np.array(s["b"]) - np.array(s["a"])
            o["a"] = P() if rng.random() < 0.5 else [int(x) for x in np.array(s["a"]) + int(rng.integers(-2, 3)) * d]
            o["b"] = [int(x) for x in np.array(o["a"]) + int(rng.choice([-2, -1, 1, 2])) * d]
        elif r < 0.4:   # common point
            o["a"] = s["a"] if rng.random() < 0.5 else s["b"]
            if o["a"] == o["b"]:
                continue
        # stay clear of the tolerance of the code: nearly (not exactly) parallel segments do not occur at this scale
        seg_event(rec, s, o, off=rng.choice([0, 0.5, -2.25, 16.0], 2), k=float(rng.choice([1.0, 0.5, 4.0])))


def s_tools(rng, rec, k):
    m = placo.AxisesMask()
    M = rng.uniform(-1, 1, (3, int(rng.integers(2, 6))))

    def apply():
        v = np.array(m.apply(M), float)
        rec("Apply", M=M, v=v.reshape(-1, M.shape[1]))
    apply()
    for _ in range(5):
        if rng.random() < 0.5:
            Rl, Rc = rand_rot(rng), rand_rot(rng)
            m.R_local_world, m.R_custom_world = Rl, Rc
            rec("Rotations", Rl=Rl, Rc=Rc)
        r = rng.random()
        axes = "".join(rng.choice(list("xyz"), int(rng.integers(1, 4)), replace=False))
        if rng.random() < 0.2:
            axes = axes.upper()
        fr = str(rng.choice(["task", "world", "local", "custom", "default"]))
        if r < 0.1 or r > 0.9:
            # refused settings on another mask (what a refused call leaves is not specified)
            b = placo.AxisesMask()
            if r < 0.1:
                axes = str(rng.choice(["w", "xw", "1", "x y"]))
                fr = "task"
            else:
                fr = str(rng.choice(["base", "Local", ""]))
            f, _ = raises(lambda: b.set_axises(axes, fr))
            rec("Mask", axes=list(axes), frame=fr, ok=not f)
            continue
        if fr == "default":
            f, _ = raises(lambda: m.set_axises(axes))
            fr = "task"
        else:
            f, _ = raises(lambda: m.set_axises(axes, fr))
        rec("Mask", axes=list(axes), frame=fr, ok=not f)
        apply()
    for _ in range(4):
        a = float(rng.choice([rng.uniform(-10, 10), rng.uniform(-1000, 1000), np.pi, -np.pi, 0.0, 3 * np.pi, rng.uniform(3.1, 3.2)]))
        rec("Wrap", a=a, v=placo.wrap_angle(a))
    for _ in range(4):
        T = rand_frame(rng, 2)
        if rng.random() < 0.3:
            T[:3, :3] = rotz(rng.uniform(-np.pi, np.pi)) @ rot(np.array([0, rng.uniform(-1, 1), 0]))
        if np.hypot(T[0, 0], T[1, 0]) < 1e-2:
            continue
        rec("Yaw", R=T[:3, :3], v=placo.frame_yaw(T[:3, :3]))
        rec("Flatten", T=T, v=np.array(placo.flatten_on_floor(T)))
        A = rand_frame(rng, 2)
        B = A @ frame(rot(rng.normal(size=3) * float(rng.choice([0.0, 1e-6, 0.1, 1.0]))), rng.uniform(-1, 1, 3)) if rng.random() < 0.5 else rand_frame(rng, 2)
        if np.trace(A[:3, :3].T @ B[:3, :3]) < -0.999:
            continue
        s = float(rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 1)]))
        rec("Interpolate", A=A, B=B, s=s, v=np.array(placo.interpolate_frames(A, B, s)))
    for _ in range(4):
        axis = str(rng.choice(["x", "y", "z", "x", "y", "z", "x", "y", "z", "w", "X", ""]))
        v = rng.normal(size=3) * float(rng.choice([1, 10, 0.1])) if rng.random() < 0.7 else np.eye(3)[int(rng.integers(3))] * float(rng.choice([-1, 1, 2]))
        if rng.random() < 0.15:
            v = np.eye(3)["xyz".find(axis) if axis in "xyz" and axis else 0] + rng.normal(size=3) * 1e-7
        f, R = raises(lambda: placo.rotation_from_axis(axis, v))
        rec("FromAxis", axis=axis, v=v, ok=not f, R=np.eye(3) if f else np.array(R))
    for _ in range(2):
        n = int(rng.integers(3, 12))
        T = rand_frame(rng, 3)
        B = rng.uniform(-1, 1, (n, 3)) * [1, 1, float(rng.choice([1, 1, 0.0]))] + rng.uniform(-5, 5, 3)
        A = B @ T[:3, :3].T + T[:3, 3] + rng.normal(size=(n, 3)) * float(rng.choice([0, 0.001, 0.05]))
        sv = np.linalg.svd(B - B.mean(0), compute_uv=False)
        if sv[1] < 0.15 * sv[0] or sv[0] < 0.3:
            continue
        f, R = raises(lambda: placo.optimal_transformation(A, B))
        rec("Optimal", A=A, B=B, bad=False, ok=not f, T=np.eye(4) if f else np.array(R))
    if rng.random() < 0.3:
        A, B = [(rng.uniform(size=(4, 2)), rng.uniform(size=(4, 2))), (rng.uniform(size=(4, 3)), rng.uniform(size=(5, 3))), (rng.uniform(size=(2, 3)), rng.uniform(size=(2, 3)))][int(rng.integers(3))]
        f, R = raises(lambda: placo.optimal_transformation(A, B))
        rec("Optimal", A=A, B=B, bad=True, ok=not f, T=np.eye(4))
    n = int(rng.integers(2, 40))
    rec("Dir2", n=n, v=np.array(placo.directions_2d(n)))
    if rng.random() < 0.5:
        rec("Dir3", n=n, eps=0.5, v=np.array(placo.directions_3d(n)))
    else:
        e = float(rng.uniform(0, 1))
        rec("Dir3", n=n, eps=e, v=np.array(placo.directions_3d(n, e)))
