"""Footsteps, supports (spec/Walk.tla)."""
import numpy as np
import placo
from common import raises, rotz, rot, frame
from robotgen import Humanoid, load

PAR = ["single_support_duration", "single_support_timesteps", "double_support_ratio", "startend_double_support_ratio", "zmp_margin", "walk_foot_height",
       "walk_foot_rise_ratio", "walk_com_height", "walk_trunk_pitch", "walk_max_dx_forward", "walk_max_dx_backward", "walk_max_dy", "walk_max_dtheta",
       "walk_dtheta_spacing", "feet_spacing", "foot_width", "foot_length", "foot_zmp_target_x", "foot_zmp_target_y", "zmp_reference_weight"]
SIDE = {"left": placo.HumanoidRobot_Side.left, "right": placo.HumanoidRobot_Side.right}
NAME = {v: k for k, v in SIDE.items()}
_robot = None


def robot():
    global _robot
    if _robot is None:
        _robot = load(Humanoid(np.random.default_rng(1)), cls=placo.HumanoidRobot)
    return _robot


def pose(x, y, t):
    return frame(rotz(t), np.array([x, y, 0.0]))


def other(s):
    return "right" if s == "left" else "left"


def params(rng, **kw):
    p = placo.HumanoidParameters()
    p.single_support_duration = float(rng.uniform(0.3, 1.0))
    p.single_support_timesteps = int(rng.integers(4, 13))
    p.double_support_ratio = float(rng.choice([0.0, 0.0, 0.25, 0.3, 0.5, 1.0, rng.uniform(0, 1.5)]))
    p.startend_double_support_ratio = float(rng.choice([1.0, 1.5, 2.0, rng.uniform(0.5, 2.5)]))
    p.walk_max_dx_forward = float(rng.uniform(0.03, 0.15))
    p.walk_max_dx_backward = float(rng.uniform(0.02, 0.1))
    p.walk_max_dy = float(rng.uniform(0.02, 0.08))
    p.walk_max_dtheta = float(rng.uniform(0.15, 0.7))
    p.walk_dtheta_spacing = float(rng.choice([0.0, 0.05, rng.uniform(0, 0.1)]))
    p.foot_width = float(rng.uniform(0.05, 0.1))
    p.foot_length = float(rng.uniform(0.1, 0.18))
    p.feet_spacing = float(p.foot_width + rng.uniform(0.01, 0.1))
    p.zmp_margin = float(rng.uniform(0, 0.02))
    for k, v in kw.items():
        setattr(p, k, v)
    return p


def record_par(rec, p):
    rec("Par", p={k: getattr(p, k) for k in PAR})


def foot(f):
    return dict(side=NAME[f.side], T=np.array(f.frame), w=f.foot_width, l=f.foot_length)


def sup(s):
    return dict(feet=[foot(f) for f in s.footsteps], start=s.start, end=s.end, t=s.t_start, el=s.elapsed_ratio, tr=s.time_ratio, dcm=np.array(s.target_world_dcm))


def make_foot(p, side, T):
    f = placo.Footstep(p.foot_width, p.foot_length)
    f.side = SIDE[side]
    f.frame = np.asfortranarray(T)
    return f


def feet(rng, p, far=2.0, exact=False):
    """Two feet next to each other somewhere on the floor."""
    C = pose(*rng.uniform(-far, far, 2), rng.uniform(-np.pi, np.pi))
    n = 0.0 if exact or rng.random() < 0.3 else 0.03
    L = C @ pose(rng.normal() * n, p.feet_spacing / 2 + abs(rng.normal()) * n, rng.normal() * n)
    R = C @ pose(rng.normal() * n, -p.feet_spacing / 2 - abs(rng.normal()) * n, rng.normal() * n)
    return L, R


def rand_step(rng, p):
    k = float(rng.choice([0.3, 0.8, 1.0, 2.0, 6.0]))
    d = rng.uniform(-1, 1, 3) * k * [p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta]
    d[rng.random(3) < 0.25] = 0
    return d


def plan_repetitive(rng, rec, p, n=None, d=None, flying=None, LR=None):
    pl = placo.FootstepsPlannerRepetitive(p)
    d = rand_step(rng, p) if d is None else d
    n = int(rng.integers(0, 9)) if n is None else n
    pl.configure(float(d[0]), float(d[1]), float(d[2]), n)
    flying = str(rng.choice(["left", "right"])) if flying is None else flying
    L, R = feet(rng, p) if LR is None else LR
    fs = pl.plan(SIDE[flying], L, R)
    rec("Repetitive", d=d, n=n, flying=flying, L=L, R=R, steps=[foot(f) for f in fs])
    return pl, fs


def plan_naive(rng, rec, p, far=2.0):
    pl = placo.FootstepsPlannerNaive(p)
    win = [p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta]
    while True:
        L, R = feet(rng, p)
        r = rng.random()
        if r < 0.6:
            C = pose(*rng.uniform(-far, far, 2), rng.uniform(-np.pi, np.pi))
            C = C @ (L @ pose(0, -p.feet_spacing / 2, 0))
        else:
            C = L @ pose(0, -p.feet_spacing / 2, 0) @ pose(*(rng.uniform(-2, 2, 3) * win * [1, 1, 1]))
        GL, GR = C @ pose(0, p.feet_spacing / 2, 0), C @ pose(0, -p.feet_spacing / 2, 0)
        if rng.random() < 0.2:
            GL = GL @ pose(*(rng.uniform(-0.4, 0.4, 3) * win))
        break
    pl.configure(GL, GR)
    flying = str(rng.choice(["left", "right"]))
    fs = pl.plan(SIDE[flying], L, R)
    rec("Naive", flying=flying, L=L, R=R, goal=dict(left=GL, right=GR), win=win, steps=[foot(f) for f in fs])
    return pl, fs


def s_plans(rng, rec, k):
    p = params(rng)
    record_par(rec, p)
    for _ in range(4):
        d = rand_step(rng, p)
        for kind in ("ellipsoid", "box", "conic"):
            rec("Clip", kind=kind, d=d, v=np.array(getattr(p, kind + "_clip")(d)))
    for kind in ("ellipsoid", "box", "conic"):
        d = rand_step(rng, p)
        side = str(rng.choice(["left", "right"]))
        rec("OverlapClip", kind=kind, side=side, d=d, v=np.array(getattr(p, kind + "_overlap_clip")(SIDE[side], d)))
    pl = placo.FootstepsPlannerRepetitive(p)
    for clipped in (False, True):
        side = str(rng.choice(["left", "right"]))
        f = make_foot(p, side, feet(rng, p)[0])
        d = rand_step(rng, p)
        g = (pl.clipped_opposite_footstep if clipped else pl.opposite_footstep)(f, *[float(x) for x in d])
        rec("Opposite", clipped=clipped, f=foot(f), d=d, g=foot(g))
    plan_repetitive(rng, rec, p)
    plan_naive(rng, rec, p)


def support_event(rec, wpg, S, k):
    s = S[k]
    f, side = raises(lambda: NAME[s.side()])
    one = {}
    for x in ("left", "right"):
        b, T = raises(lambda: np.array(s.footstep_frame(SIDE[x])))
        one[x] = dict(ok=not b, T=np.eye(4) if b else T)
    rec("Support", k=k + 1, both=s.is_both(), side_ok=not f, side="" if f else side, frame=np.array(s.frame()), foot=one,
        poly=[np.array(x) for x in s.support_polygon()], steps=wpg.support_default_timesteps(s), duration=wpg.support_default_duration(s))


def walk_supports(rec, wpg, S, ks=None):
    for k in (range(len(S)) if ks is None else ks):
        support_event(rec, wpg, S, k)


def edit_supports(rng, rec, p, wpg, S):
    """Move supports and feet around, through every way the API has; S is a Python list of Support."""
    for _ in range(3):
        if not S:
            return
        k = int(rng.integers(len(S)))
        s = S[k]
        r = rng.random()
        if r < 0.4:
            o = rng.uniform(-0.3, 0.3, 2)
            s.apply_offset(o)
            rec("Offset", k=k + 1, o=o)
        else:
            i = int(rng.integers(len(s.footsteps)))
            T = np.array(s.footsteps[i].frame) @ pose(*rng.uniform(-0.2, 0.2, 2), rng.uniform(-0.5, 0.5))
            if r < 0.7:
                s.footsteps[i].frame = np.asfortranarray(T)
            else:
                T[:3, :3] = np.array(s.footsteps[i].frame)[:3, :3]
                s.footsteps[i].set_frame_xy(float(T[0, 3]), float(T[1, 3]))
            rec("Place", k=k + 1, i=i + 1, T=T)
        support_event(rec, wpg, S, k)


def s_supports(rng, rec, k):
    p = params(rng)
    record_par(rec, p)
    rec("Phases", dt=p.dt(), dbl=p.double_support_timesteps(), startend=p.startend_double_support_timesteps(), dbl_duration=p.double_support_duration(),
        startend_duration=p.startend_double_support_duration(), has=p.has_double_support())
    wpg = placo.WalkPatternGenerator(robot(), p)
    if rng.random() < 0.3:
        n = int(rng.integers(0, 3))
        fs = placo.Footsteps()
        L, R = feet(rng, p)
        for i in range(n):
            fs.append(make_foot(p, ["left", "right"][i], [L, R][i]))
        rec("Steps", steps=[foot(f) for f in fs])
    else:
        _, fs = plan_repetitive(rng, rec, p)
    a = [bool(x) for x in rng.random(3) < 0.6]
    t = float(rng.choice([0.0, rng.uniform(-5, 5)]))
    S = placo.FootstepsPlanner.make_supports(fs, t, *a)
    rec("Make", t=t, start=a[0], dbl=a[1], end=a[2], sups=[sup(s) for s in S])
    walk_supports(rec, wpg, S)
    if rng.random() < 0.6:
        n = int(rng.integers(0, len(S) + 2))
        close = bool(rng.random() < 0.7)
        f, S2 = raises(lambda: placo.FootstepsPlanner.truncate_supports(S, n, close))
        rec("Truncate", n=n, close=close, ok=not f, sups=[] if f else [sup(s) for s in S2])
        if not f:
            S = S2
            walk_supports(rec, wpg, S)
    edit_supports(rng, rec, p, wpg, S)
    # soles
    for _ in range(3):
        f = make_foot(p, "left", feet(rng, p)[0])
        f.support_polygon()
        if rng.random() < 0.5:
            f.frame = np.asfortranarray(np.array(f.frame) @ pose(*rng.uniform(-1, 1, 3)))
        rec("Foot", f=foot(f), poly=[np.array(x) for x in f.support_polygon()])
        g = make_foot(p, "right", np.array(f.frame) @ pose(*(rng.uniform(-1, 1, 2) * [p.foot_length, p.foot_width] * rng.choice([0.5, 1.0, 2.0])), rng.uniform(-0.7, 0.7)))
        m = float(rng.choice([0.0, 0.01, 0.05]))
        rec("Overlap", f=foot(f), g=foot(g), m=m, v=f.overlap(g, m))
        poly = f.support_polygon()
        q = (np.array(f.frame) @ np.array([*(rng.uniform(-0.7, 0.7, 2) * [p.foot_length, p.foot_width]), 0, 1]))[:2]
        rec("Contains", poly=[np.array(x) for x in poly], p=q, v=placo.Footstep.polygon_contains(poly, q))


def s_replay(rng, rec, b):
    """Behaviours of MCWalk."""
    p = placo.HumanoidParameters()
    for k, v in dict(walk_max_dx_forward=0.08, walk_max_dx_backward=0.04, walk_max_dy=0.05, walk_max_dtheta=0.4, walk_dtheta_spacing=0.05, feet_spacing=0.1301,
                     foot_width=0.09, foot_length=0.15).items():
        setattr(p, k, v)
    record_par(rec, p)
    if b["ask"]:
        side, kind, d = b["ask"]
        d = np.array([float(x) for x in d])
        rec("Clip", kind=kind, d=d, v=np.array(getattr(p, kind + "_clip")(d)))
        rec("OverlapClip", kind=kind, side=side, d=d, v=np.array(getattr(p, kind + "_overlap_clip")(SIDE[side], d)))
        pl = placo.FootstepsPlannerRepetitive(p)
        f = make_foot(p, side, pose(*rng.uniform(-2, 2, 3)))
        for clipped in (False, True):
            g = (pl.clipped_opposite_footstep if clipped else pl.opposite_footstep)(f, *[float(x) for x in d])
            rec("Opposite", clipped=clipped, f=foot(f), d=d, g=foot(g))
        C = pose(*rng.uniform(-2, 2, 3))
        plan_repetitive(rng, rec, p, 4, d, other(side), (C @ pose(0, p.feet_spacing / 2, 0), C @ pose(0, -p.feet_spacing / 2, 0)))
        return
    w = b["hist"][0]
    fs = placo.Footsteps()
    for k in range(w["n"]):
        s = w["first"] if k % 2 == 0 else other(w["first"])
        fs.append(make_foot(p, s, pose(0.1 * k, 0.06 if s == "left" else -0.06, 0.2 * k)))
    rec("Steps", steps=[foot(f) for f in fs])
    S = placo.FootstepsPlanner.make_supports(fs, 5.0, w["start"], w["dbl"], w["end"])
    rec("Make", t=5.0, start=w["start"], dbl=w["dbl"], end=w["end"], sups=[sup(s) for s in S])
    wpg = placo.WalkPatternGenerator(robot(), p)
    if len(b["hist"]) > 1:
        n, close = b["hist"][1]["n"], b["hist"][1]["close"]
        f, S2 = raises(lambda: placo.FootstepsPlanner.truncate_supports(S, n, close))
        rec("Truncate", n=n, close=close, ok=not f, sups=[] if f else [sup(s) for s in S2])
        if not f:
            S = S2
    walk_supports(rec, wpg, S)
