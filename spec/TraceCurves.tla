----------------------------- MODULE TraceCurves -----------------------------
EXTENDS Curves, TraceLib

Tol == "1e-6"
TReset == IsEvent("Reset") /\ knots' = <<>> /\ angular' = FALSE /\ swing' = <<>>
TCrash == IsEvent("Crash") /\ Report("crash") /\ UNCHANGED curveVars

TAngular == IsEvent("Angular") /\ angular' = Ev.v /\ UNCHANGED <<knots, swing>>
TAdd == /\ IsEvent("Add")
        /\ Check("C07.accept", Ev.ok = CanAdd(Ev.t))
        /\ IF CanAdd(Ev.t) THEN AddKnot(Ev.t, Unwrap(Ev.x), Ev.dx) ELSE UNCHANGED curveVars
TClear == IsEvent("Clear") /\ ClearKnots
\* accelerations are not continuous: close to a knot either side is admissible
Sides(t, d) == IF d < 2 \/ Len(knots) < 2 THEN SplineValues(t, d)
               ELSE SplineValues(t, d) \cup SplineValues(NAdd(t, "1e-9"), d) \cup SplineValues(NSub(t, "1e-9"), d)
TQuery == /\ IsEvent("Query") /\ UNCHANGED curveVars
          /\ Check("C07.value", \E v \in SplineValues(Ev.t, 0) : NNear(Ev.pos, v, Tol))
          /\ Check("C07.vel", \E v \in SplineValues(Ev.t, 1) : NNear(Ev.vel, v, Tol))
          /\ Check("C07.acc", \E v \in Sides(Ev.t, 2) : NNear(Ev.acc, v, "1e-5"))
TDuration == IsEvent("Duration") /\ UNCHANGED curveVars /\ Check("C07.duration", NNear(Ev.v, Duration, Tol))
\* a polynomial is given with the highest degree first
TPoly == /\ IsEvent("Poly") /\ UNCHANGED curveVars
         /\ LET p == PDiffN(Reverse(Ev.c), Ev.d)
                m == PEval([k \in 1..Len(p) |-> NAbs(p[k])], NAbs(Ev.x)) IN   \* magnitude of the terms
            Check("C07.poly", NNearAbs(Ev.v, PEval(p, Ev.x), NMul("1e-9", NAdd(1, m))))
RECURSIVE Falling(_, _)
Falling(n, d) == IF d = 0 THEN 1 ELSE NMul(n, Falling(n - 1, d - 1))
TCoef == /\ IsEvent("Coef") /\ UNCHANGED curveVars
         /\ Check("C07.coef", NNear(Ev.v, IF Ev.d > Ev.n THEN 0 ELSE Falling(Ev.n, Ev.d), "1e-12"))

\* swings
TMake == IsEvent("Make") /\ SwingMake(Ev.t0, Ev.t1, Ev.h, Ev.start, Ev.target) /\ UNCHANGED <<knots, angular>>
TRemake == IsEvent("Remake") /\ SwingRemake(Ev.t, Ev.target) /\ UNCHANGED <<knots, angular>>
T == NSub(swing.t1, swing.t0)
S == NSub(Ev.t, swing.t0)
TSwing == /\ IsEvent("Swing") /\ UNCHANGED curveVars
          /\ LET z(d) == OfPhase(CubicBump(swing.z0, swing.z1, swing.h), T, S, d)
                 w(d) == <<XY(swing, 1, Ev.t, d), XY(swing, 2, Ev.t, d), z(d)>>
             IN /\ Check("C08.swing_pos", VNear(Ev.pos, w(0), Tol))
                /\ Check("C08.swing_vel", VNear(Ev.vel, w(1), Tol))
TQuintic == /\ IsEvent("Quintic") /\ UNCHANGED curveVars
            /\ LET p(c) == IF c = 3 THEN QuinticBump(swing.z0, swing.z1, swing.h) ELSE MinJerk(swing.xy[c].pa, swing.xy[c].pb)
                   w(d) == [c \in 1..3 |-> OfPhase(p(c), T, S, d)]
               IN /\ Check("C08.quintic_pos", VNear(Ev.pos, w(0), Tol))
                  /\ Check("C08.quintic_vel", VNear(Ev.vel, w(1), Tol))
\* swing made of cubic splines, possibly started in the middle of the flight: x and y are one arc, z goes through the height
\* with zero velocity at the times of the plateau that are still to come
Plateau == LET half == NDiv(Ev.T, "2")
               v0 == NSub(Ev.t0, NMul(Ev.elapsed, Ev.T)) IN
  IF NLt(0, Ev.rise) THEN <<NAdd(v0, NSub(half, NMul(half, Ev.rise))), NAdd(v0, NAdd(half, NMul(half, Ev.rise)))>> ELSE <<NAdd(v0, half)>>
TCubic ==
  /\ IsEvent("Cubic") /\ swing' = swing /\ angular' = FALSE
  /\ LET pl == SelectSeq(Plateau, LAMBDA t : NLt(Ev.t0, t))
         t1 == NAdd(Ev.t0, NMul(NSub(1, Ev.elapsed), Ev.T)) IN
     knots' = <<[t |-> Ev.t0, x |-> Ev.start[3], dx |-> Ev.vel[3]]>> \o [k \in 1..Len(pl) |-> [t |-> pl[k], x |-> Ev.h, dx |-> 0]]
              \o <<[t |-> t1, x |-> Ev.target[3], dx |-> 0]>>
TCubicAt ==
  /\ IsEvent("CubicAt") /\ UNCHANGED curveVars
  /\ LET t0 == knots[1].t  t1 == knots[Len(knots)].t
         xy(c, d) == ArcAt(NSub(t1, t0), Ev.start[c], Ev.vel0[c], Ev.target[c], 0, NSub(ClampT(Ev.t), t0), d)
     IN /\ Check("C08.cubic_pos", /\ VNear(<<Ev.pos[1], Ev.pos[2]>>, <<xy(1, 0), xy(2, 0)>>, Tol)
                                  /\ \E v \in SplineValues(Ev.t, 0) : NNear(Ev.pos[3], v, Tol))
        /\ Check("C08.cubic_vel", /\ VNear(<<Ev.vel[1], Ev.vel[2]>>, <<xy(1, 1), xy(2, 1)>>, Tol)
                                  /\ \E v \in SplineValues(Ev.t, 1) : NNear(Ev.vel[3], v, Tol))

TNext == \/ TReset \/ TCrash \/ TAngular \/ TAdd \/ TClear \/ TQuery \/ TDuration \/ TPoly \/ TCoef
         \/ TMake \/ TRemake \/ TSwing \/ TQuintic \/ TCubic \/ TCubicAt
TraceSpec == TraceStart /\ CurveInit /\ [][TNext]_<<curveVars, l>>
=============================================================================
