------------------------------ MODULE Humanoid ------------------------------
(***************************************************************************)
(* A humanoid robot (src/placo/humanoid/humanoid_robot.cpp) standing on a  *)
(* support foot, the tasks that make it follow a walk (walk_tasks.cpp) and *)
(* the quasi-static walk (dummy_walk.cpp).                                 *)
(*                                                                         *)
(* hum: [left, right, trunk (frames of the robot), side, frame (of the     *)
(*      current support), T (where the support is on the floor)]           *)
(* wt:  the walk tasks [mode ("com" or "trunk": what the last update left  *)
(*      in the solver), L, R, com, trunk: targets]                         *)
(* dw:  the walk [left (support is left), L, R: feet at the beginning of   *)
(*      the step, next: where the flying foot lands]                       *)
(***************************************************************************)
EXTENDS Robot, Walk
VARIABLES hum, wt, dw
humVars == <<robotVars, walkVars, hum, wt, dw>>
OnlyRobot == UNCHANGED <<walkVars, wt, dw>>

\* ---- the support
WithRot(T, R) == Frame(R, FPos(T))
\* base that puts frame f of configuration c at T
BaseAt(c, f, T) == MM(MM(T, FInv(FrameIn(KinOf(c), f))), c.base)
StandOn(c, f, T) == [c EXCEPT !.base = TLCEval(BaseAt(c, f, T))]
\* put the support back on the floor: the configuration and its kinematics are both updated
Stand(h) == /\ hum' = h
            /\ \E c \in {StandOn(conf, h.frame, h.T)} : conf' = c /\ kin' = KinOf(c)
            /\ UNCHANGED <<rob, lim>>
NewHum(l, r, t) == [left |-> l, right |-> r, trunk |-> t, side |-> "left", frame |-> l, T |-> I4]
FootFrame(side) == IF side = "left" THEN hum.left ELSE hum.right
\* the support becomes frame f, where it is now, laid flat on the floor; nothing moves until the robot is put on the floor
SwitchSupport(side, f) ==
  hum' = IF f = hum.frame THEN hum ELSE [hum EXCEPT !.side = side, !.frame = f, !.T = TLCEval(Flatten(FrameIn(kin, f)))]
\* the robot turns around its support until its trunk has the orientation R
Turned(R) == [hum EXCEPT !.T = TLCEval(WithRot(hum.T, MM(R, FRot(Relative(KinOf(conf), hum.trunk, hum.frame)))))]

\* ---- quantities derived from measures
\* velocities v (joints known, base deduced): the support does not translate and the trunk turns at omega (in its axes)
SupportMotion(f, trunk, v, w, tol) ==
  /\ VNearAbs(MV(Lin(FrameJac(kin, f, "local")), v), <<0, 0, 0>>, tol)
  /\ VNearAbs(MV(Ang(FrameJac(kin, trunk, "local")), v), w, tol)
RECURSIVE NormalForces(_, _, _)
\* generalized forces of normal forces (along z of the frames)
NormalForces(fs, x, k) == IF k = 0 THEN VZero(NV)
                          ELSE VAdd(NormalForces(fs, x, k - 1), VScale(x[k], FrameJac(kin, fs[k], "local")[3]))

\* ---- walk tasks
TrunkOffset(p) == MV(FRot(FrameIn(kin, hum.trunk)), <<p.com_x, p.com_y, 0>>)
Tasks(mode, L, R, com, trunk) == [mode |-> mode, L |-> L, R |-> R, com |-> com, trunk |-> trunk]
PosError(f, p) == VSub(p, FPos(FrameIn(kin, f)))
OriError(f, R) == RotLog(MM(R, MT(FRot(FrameIn(kin, f)))))

\* ---- quasi-static walk
SupportFoot(w) == [side |-> IF w.left THEN "left" ELSE "right", T |-> IF w.left THEN w.L ELSE w.R, w |-> par.foot_width, l |-> par.foot_length]
\* where the flying foot may land for a step d (limited, reduced while the soles overlap)
Landings(w, d) == LET f == SupportFoot(w)  D == TLCEval(ClippedSteps("conic", f, d)) IN [i \in 1..Len(D) |-> TLCEval(Opposite(f, D[i]).T)]
StartWalk(left) == [left |-> left, L |-> Planar(0, NDiv(par.feet_spacing, "2.0"), 0), R |-> Planar(0, NDiv(par.feet_spacing, "-2.0"), 0), next |-> I4]
\* the flying foot has landed and becomes the support
Landed(w) == IF w.left THEN [w EXCEPT !.left = FALSE, !.R = w.next] ELSE [w EXCEPT !.left = TRUE, !.L = w.next]
\* the whole walk is moved so that the support is at T (on the floor)
MovedWalk(w, T) == LET D == TLCEval(MM(Flatten(T), FInv(SupportFoot(w).T))) IN
  [w EXCEPT !.L = TLCEval(Flatten(MM(D, w.L))), !.R = TLCEval(Flatten(MM(D, w.R))), !.next = TLCEval(Flatten(MM(D, w.next)))]
\* height of the flying foot: it rises, stays up for the rise ratio of the step, and goes down
Smooth(s) == NMul(NMul(s, s), NSub(3, NMul(2, s)))
Lift(t) == LET u == NSub("0.5", NDiv(par.walk_foot_rise_ratio, "2.0")) IN
  NMul(par.walk_foot_height, IF NLe(t, u) THEN Smooth(NDiv(t, u)) ELSE IF NLe(NSub(1, u), t) THEN Smooth(NDiv(NSub(1, t), u)) ELSE 1)
RaisedTo(T, z) == [T EXCEPT ![3][4] = z]
FlyingAt(w, t) == RaisedTo(Interpolate(IF w.left THEN w.R ELSE w.L, w.next, t), Lift(t))
FeetAt(w, t) == LET F == TLCEval(FlyingAt(w, t)) IN IF w.left THEN [L |-> w.L, R |-> F] ELSE [L |-> F, R |-> w.R]
RotY(a) == RotExp(<<0, a, 0>>)
TrunkXOffset == "0.05"
TrunkAt(w, t) == LET F == TLCEval(FeetAt(w, t)) IN
  MM(Interpolate(Flatten(F.L), Flatten(F.R), "0.5"), Frame(RotY(par.walk_trunk_pitch), <<TrunkXOffset, 0, par.walk_com_height>>))
=============================================================================
