-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Footsteps of a biped: where the feet can go, what the planners produce, *)
(* and the sequence of supports (feet on the ground) of a walk.            *)
(*                                                                         *)
(* A footstep is [side, T, w, l]: which foot, its placement (4x4), width   *)
(* and length of its sole.  A support is [feet, start, end, t, el, tr, dcm]: *)
(* one or two footsteps, whether it starts or ends the walk, its starting  *)
(* time (-1 when not known yet), the elapsed part (0 to 1) of the phase    *)
(* when planning starts, the time scaling of the phase, and the DCM to     *)
(* reach at its end.                                                       *)
(* par is the record of the walk parameters.                               *)
(***************************************************************************)
EXTENDS Geom, Sequences
LOCAL INSTANCE TLC
VARIABLES par, steps, sups
walkVars == <<geomVars, par, steps, sups>>

Other(side) == IF side = "left" THEN "right" ELSE "left"
\* the other foot is on the right of the left foot, on the left of the right foot
Toward(side) == IF side = "left" THEN -1 ELSE 1

\* ---- one step, given as <<dx, dy, dtheta>> around the neutral placement next to the other foot
Planar(x, y, th) == Frame(RotZ(th), <<x, y, 0>>)
OppositeT(T, side, d) == MM(T, Planar(d[1], NAdd(NMul(Toward(side), par.feet_spacing), d[2]), d[3]))
Opposite(f, d) == [f EXCEPT !.side = Other(f.side), !.T = TLCEval(OppositeT(f.T, f.side, d))]
\* the step <<dx, dy, dtheta>> that leads from a foot to a placement of the other one
StepBetween(f, T) == LET D == TLCEval(MM(FInv(f.T), T)) IN <<D[1][4], NSub(D[2][4], NMul(Toward(f.side), par.feet_spacing)), Yaw(FRot(D))>>

\* ---- step limits: the step in units of the largest ones, and three ways to measure it
InUnits(d) == <<NDiv(d[1], IF NLe(0, d[1]) THEN par.walk_max_dx_forward ELSE par.walk_max_dx_backward),
                NDiv(d[2], par.walk_max_dy), NDiv(d[3], par.walk_max_dtheta)>>
StepSize(kind, d) == LET u == InUnits(d) IN
  CASE kind = "ellipsoid" -> VNorm(u)
    [] kind = "box" -> NAdd(NAdd(NAbs(u[1]), NAbs(u[2])), NAbs(u[3]))
    [] kind = "conic" -> NAdd(VNorm(<<u[1], u[2]>>), NAbs(u[3]))
\* a step that is too large is scaled down to the limit, others are kept
Clip(kind, d) == LET s == StepSize(kind, d) IN IF NLe(s, 1) THEN d ELSE VScale(NDiv("1.0", s), d)
\* turning needs room between the feet
Spaced(side, d) == <<d[1], NAdd(d[2], NMul(Toward(side), NMul(par.walk_dtheta_spacing, NAbs(d[3])))), d[3]>>

\* ---- soles
Signs == << <<-1, 1>>, <<1, 1>>, <<1, -1>>, <<-1, -1>> >>
Half(x, m) == NAdd(m, NDiv(x, "2.0"))
Corner(f, m, k) == LET p == MV(f.T, <<NMul(Signs[k][1], Half(f.l, m)), NMul(Signs[k][2], Half(f.w, m)), 0, 1>>) IN <<p[1], p[2]>>
Corners(f, m) == TLCEval([k \in 1..4 |-> Corner(f, m, k)])
\* depth of a point in a clockwise polygon: smallest (unnormalised) distance to the inner side of its edges
Inner(a, b, p) == NSub(NMul(NSub(b[2], a[2]), NSub(p[1], a[1])), NMul(NSub(b[1], a[1]), NSub(p[2], a[2])))
Nxt(k, n) == IF k = n THEN 1 ELSE k + 1
InPoly(poly, p, tol) == \A k \in 1..Len(poly) : NLe(tol, Inner(poly[k], poly[Nxt(k, Len(poly))], p))
\* two soles, grown by m, overlap: no edge separates them (tol > 0: surely; tol < 0: possibly)
Separates(A, B, tol) == \E k \in 1..Len(A) : \A i \in 1..Len(B) : NLt(Inner(A[k], A[Nxt(k, Len(A))], B[i]), tol)
Overlap(f, g, m, tol) == LET A == Corners(f, m)  B == Corners(g, m) IN ~Separates(A, B, tol) /\ ~Separates(B, A, tol)
Tie == "1e-10"

\* the steps a planner may make when asked for the step d from f: it is spaced, clipped, then reduced while the soles overlap
Reduction == 32
RECURSIVE Reduced(_, _, _)
Reduced(f, d, k) ==
  IF k = 0 THEN <<d>>
  ELSE LET g == TLCEval(Opposite(f, d)) IN
       (IF Overlap(g, f, "0.01", NNeg(Tie)) THEN Reduced(f, TLCEval(VScale("0.9", d)), k - 1) ELSE <<>>)
       \o (IF Overlap(g, f, "0.01", Tie) THEN <<>> ELSE <<d>>)
ClippedSteps(kind, f, d) == Reduced(f, TLCEval(Clip(kind, Spaced(f.side, d))), Reduction)

\* ---- naive planner: the step toward the target of the flying foot, from the support f; <<step, surely arrived, possibly arrived>>
Box(x, m) == IF NLe(NAbs(x), m) THEN "1.0" ELSE NDiv(m, NAbs(x))
NaiveStep(f, goal, place_yaw) ==
  LET D == TLCEval(MM(FInv(f.T), goal[Other(f.side)]))
      e == <<D[1][4], NSub(D[2][4], NMul(Toward(f.side), par.feet_spacing))>>
      far == NLt("0.5", VNorm(e))
      C == MM(FInv(f.T), Interpolate(goal["left"], goal["right"], "0.5"))
      yaw == IF far THEN NAtan2(NSub(C[2][4], NDiv(NMul(Toward(f.side), par.feet_spacing), "2.0")), C[1][4]) ELSE Yaw(FRot(D))
      r == NMin(NMin(Box(e[1], place_yaw[1]), Box(e[2], place_yaw[2])), "1.0")
      w == NMul(IF NLe(0, yaw) THEN 1 ELSE -1, NMin(NAbs(yaw), place_yaw[3]))
      d == TLCEval(<<NMul(e[1], r), NMul(e[2], r), w>>)
      near(m) == /\ \A i \in 1..2 : NLe(NAbs(e[i]), NMul(m, place_yaw[i]))
                 /\ NLe(NAbs(yaw), NMul(m, place_yaw[3])) /\ NLe(StepSize("ellipsoid", d), m)
  IN <<Clip("ellipsoid", d), near("0.999999"), near("1.000001")>>
\* windows of the naive planner, fixed when it is created
Window(p) == <<p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta>>

\* ---- plans: the current feet (the first flying foot first), then the steps
Initial(flying, L, R) == LET F(s) == [side |-> s, T |-> IF s = "left" THEN L ELSE R, w |-> par.foot_width, l |-> par.foot_length] IN <<F(flying), F(Other(flying))>>
Alternates(fs) == \A k \in 2..Len(fs) : fs[k].side = Other(fs[k - 1].side)

\* ---- supports
Support(feet, start, end) == [feet |-> feet, start |-> start, end |-> end, t |-> "-1.0", el |-> 0, tr |-> 1, dcm |-> <<0, 0>>]
Single(f) == Support(<<f>>, FALSE, FALSE)
Double(f, g) == Support(<<f, g>>, FALSE, FALSE)
RECURSIVE Middle(_, _, _)
\* from the k-th footstep: its single support, a double support when asked, and so on until the last but one
Middle(fs, k, dbl) ==
  IF k > Len(fs) - 1 THEN <<>>
  ELSE <<Single(fs[k])>> \o (IF dbl /\ k < Len(fs) - 1 THEN <<Double(fs[k], fs[k + 1])>> ELSE <<>>) \o Middle(fs, k + 1, dbl)
MakeSupports(fs, t, start, dbl, end) ==
  LET n == Len(fs)
      walk == IF n <= 2 THEN <<>>
              ELSE IF start THEN <<[Support(<<fs[1], fs[2]>>, TRUE, FALSE) EXCEPT !.t = t]>> \o Middle(fs, 2, dbl)
              ELSE <<[Single(fs[1]) EXCEPT !.t = t]>> \o (IF dbl THEN <<Double(fs[1], fs[2])>> ELSE <<>>) \o Middle(fs, 2, dbl)
  IN walk \o (IF end /\ n >= 2 THEN <<Support(<<fs[n - 1], fs[n]>>, FALSE, TRUE)>> ELSE <<>>)
\* the first n supports, closed by a double support on the last foot and the next one of the other side
FootOf(s, side) == s.feet[CHOOSE i \in 1..Len(s.feet) : s.feet[i].side = side]
CanTruncate(ss, n, close) == n <= Len(ss) /\ ~(close /\ n > 0 /\ ~ss[n].end /\ n = Len(ss))
Truncate(ss, n, close) ==
  LET head == SubSeq(ss, 1, n) IN
  IF close /\ n > 0 /\ ~ss[n].end
  THEN Append(head, Support(<<ss[n].feet[1], FootOf(ss[n + 1], Other(ss[n].feet[1].side))>>, FALSE, TRUE))
  ELSE head

IsBoth(s) == Len(s.feet) = 2
Moved(s, f(_)) == [s EXCEPT !.feet = [k \in 1..Len(s.feet) |-> [s.feet[k] EXCEPT !.T = f(s.feet[k].T)]]]
Shifted(T, o) == [T EXCEPT ![1][4] = NAdd(@, o[1]), ![2][4] = NAdd(@, o[2])]
SupportT(s) == IF Len(s.feet) = 1 THEN s.feet[1].T ELSE Interpolate(s.feet[1].T, s.feet[2].T, "0.5")
AllCorners(s) == IF Len(s.feet) = 1 THEN Corners(s.feet[1], 0) ELSE Corners(s.feet[1], 0) \o Corners(s.feet[2], 0)
\* poly is the convex hull of the points, clockwise, without aligned points
IsHull(poly, pts, tol) ==
  /\ Len(poly) >= 3
  /\ \A k \in 1..Len(poly) : \E i \in 1..Len(pts) : VNearAbs(poly[k], pts[i], tol)
  /\ \A i \in 1..Len(pts) : InPoly(poly, pts[i], NNeg(tol))
  /\ \A k \in 1..Len(poly) : LET b == poly[Nxt(k, Len(poly))]  c == poly[Nxt(Nxt(k, Len(poly)), Len(poly))] IN
        NLt(Inner(poly[k], b, poly[k]), NAdd(Inner(poly[k], b, c), tol)) /\ ~VNearAbs(poly[k], b, tol)

\* ---- durations of the phases
Round(x) == NFloor(NAdd(x, "0.5"))
Dt == NDiv(par.single_support_duration, par.single_support_timesteps)
DoubleSteps == Round(NMul(par.double_support_ratio, par.single_support_timesteps))
StartEndSteps == Round(NMul(par.startend_double_support_ratio, par.single_support_timesteps))
HasDouble == DoubleSteps > 0
PhaseSteps(s) == IF ~IsBoth(s) THEN par.single_support_timesteps ELSE IF s.start \/ s.end THEN StartEndSteps ELSE DoubleSteps
PhaseDuration(s) == IF ~IsBoth(s) THEN par.single_support_duration ELSE NMul(PhaseSteps(s), Dt)

WalkInit == GeomInit /\ par = <<>> /\ steps = <<>> /\ sups = <<>>
SetPar(p) == par' = p /\ UNCHANGED <<geomVars, steps, sups>>
SetSteps(fs) == steps' = fs /\ UNCHANGED <<geomVars, par, sups>>
SetSups(ss) == sups' = ss /\ UNCHANGED <<geomVars, par, steps>>
=============================================================================
