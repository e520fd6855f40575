------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* Cubic splines, polynomials and swing foot trajectories                  *)
(* (src/placo/tools/cubic_spline*.cpp, polynom.cpp,                        *)
(* src/placo/humanoid/swing_foot*.cpp).                                    *)
(*                                                                         *)
(* A spline is the sequence of its knots [t, x, dx], strictly increasing   *)
(* in time; between two knots it is the cubic with the knots' values and   *)
(* derivatives, and it is constant in time outside of the knots.           *)
(* A swing is a flight from a start to a target position: on x and y it is *)
(* the cubic arc from the last (re)planning to the landing, on z it is a   *)
(* bump through the flight height.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num

VARIABLES knots,     \* sequence of [t, x, dx]
          angular,   \* knots are angles: each one is unwrapped after the previous one
          swing      \* [t0, t1, h, z0, z1, xy] or <<>>; xy: [ta, tb, pa, va, pb] per axis, zero final velocity
curveVars == <<knots, angular, swing>>

CurveInit == knots = <<>> /\ angular = FALSE /\ swing = <<>>

\* ---- polynomials: sequence of coefficients, lowest degree first
PEval(p, x) == LET RECURSIVE H(_) H(k) == IF k > Len(p) THEN 0 ELSE NAdd(p[k], NMul(x, H(k + 1))) IN H(1)
PDiff(p) == IF Len(p) <= 1 THEN <<>> ELSE TLCEval([k \in 1..(Len(p) - 1) |-> NMul(k, p[k + 1])])
RECURSIVE PDiffN(_, _)
PDiffN(p, n) == IF n = 0 THEN p ELSE PDiffN(PDiff(p), n - 1)
PCoef(p, k) == IF k \in 1..Len(p) THEN p[k] ELSE 0
PAdd(p, q) == [k \in 1..(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |-> NAdd(PCoef(p, k), PCoef(q, k))]
PScale(s, p) == [k \in 1..Len(p) |-> NMul(s, p[k])]
PMul(p, q) == TLCEval([k \in 1..(Len(p) + Len(q) - 1) |->
                 VSum([i \in 1..Len(p) |-> NMul(p[i], PCoef(q, k - i + 1))])])
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) - k + 1]]

\* ---- cubic arc on [0, h] with values xa, xb and derivatives va, vb, multiplied by h^3 (polynomial in the elapsed time)
Arc3(h, xa, va, xb, vb) ==
  LET h2 == NMul(h, h)
      h3 == NMul(h2, h)
  IN << NMul(h3, xa),
        NMul(h3, va),
        NMul(h, NSub(NMul(3, NSub(xb, xa)), NMul(h, NAdd(NMul(2, va), vb)))),
        NAdd(NMul(2, NSub(xa, xb)), NMul(h, NAdd(va, vb))) >>
\* d-th derivative of the arc after s
ArcAt(h, xa, va, xb, vb, s, d) == NDiv(PEval(PDiffN(Arc3(h, xa, va, xb, vb), d), s), NPow(h, 3))

\* ---- splines
\* The value given to a new angular knot: equal modulo a turn, and the closest to the previous knot
Unwrap(x) == IF angular /\ knots # <<>> THEN LET p == knots[Len(knots)].x IN NAdd(p, NWrap(NSub(x, p))) ELSE x
CanAdd(t) == knots = <<>> \/ NLt(knots[Len(knots)].t, t)
AddKnot(t, x, dx) == knots' = Append(knots, [t |-> t, x |-> x, dx |-> dx]) /\ UNCHANGED <<angular, swing>>
ClearKnots == knots' = <<>> /\ UNCHANGED <<angular, swing>>
Duration == IF knots = <<>> THEN 0 ELSE NSub(knots[Len(knots)].t, knots[1].t)

ClampT(t) == NMin(NMax(t, knots[1].t), knots[Len(knots)].t)
\* admissible d-th derivatives at t: the arcs that contain it (two at an inner knot, which agree up to d = 1)
ArcsAt(t) == {i \in 1..(Len(knots) - 1) : NLe(knots[i].t, ClampT(t)) /\ NLe(ClampT(t), knots[i + 1].t)}
OnArc(i, t, d) == LET a == knots[i]  b == knots[i + 1] IN
  ArcAt(NSub(b.t, a.t), a.x, a.dx, b.x, b.dx, NSub(ClampT(t), a.t), d)
SplineValues(t, d) ==
  IF knots = <<>> THEN {"0.0"}
  ELSE IF Len(knots) = 1 THEN {NAdd("0.0", CASE d = 0 -> knots[1].x [] d = 1 -> knots[1].dx [] OTHER -> 0)}
  ELSE {NAdd("0.0", OnArc(i, t, d)) : i \in ArcsAt(t)}

\* ---- swings
SwingMake(t0, t1, h, start, target) ==
  swing' = [t0 |-> t0, t1 |-> t1, h |-> h, z0 |-> start[3], z1 |-> target[3], ta |-> t0,
            xy |-> [c \in 1..2 |-> [pa |-> start[c], va |-> 0, pb |-> target[c]]]]
XY(w, c, t, d) == LET a == w.xy[c] IN ArcAt(NSub(w.t1, w.ta), a.pa, a.va, a.pb, 0, NSub(t, w.ta), d)
\* replanned at t: position and velocity are kept at t, and the landing is the new target; the flight height is not replanned
SwingRemake(t, target) ==
  swing' = [swing EXCEPT !.ta = t, !.xy = [c \in 1..2 |-> [pa |-> XY(swing, c, t, 0), va |-> XY(swing, c, t, 1), pb |-> target[c]]]]

\* bumps, as polynomials of the phase (0 to 1), given by what they must satisfy
\* cubic through z0, h, h, z1 at the phases 0, 1/4, 3/4, 1
CubicBump(z0, z1, h) ==
  LET r(n, d) == <<NNeg(NDiv(n, d)), 1>>
      t(a, b, c, s) == PScale(s, PMul(a, PMul(b, c)))
  IN PAdd(PAdd(t(r(1, 4), r(3, 4), r(1, 1), NDiv(NMul(-16, z0), "3")), t(r(0, 1), r(3, 4), r(1, 1), NDiv(NMul(32, h), "3"))),
          PAdd(t(r(0, 1), r(1, 4), r(1, 1), NDiv(NMul(-32, h), "3")), t(r(0, 1), r(1, 4), r(3, 4), NDiv(NMul(16, z1), "3"))))
\* quintic with zero initial and final derivatives through z0, h, h, z1 at the same phases:
\* the cubic arc plus tau^2 (1 - tau)^2 (alpha + beta tau)
QuinticBump(z0, z1, h) ==
  LET arc == Arc3(1, z0, 0, z1, 0)
      ga == NMul(NSub(h, PEval(arc, "0.25")), NDiv("256", "9"))
      gb == NMul(NSub(h, PEval(arc, "0.75")), NDiv("256", "9"))
      beta == NMul(2, NSub(gb, ga))
      alpha == NSub(ga, NMul("0.25", beta))
  IN PAdd(arc, PMul(<<0, 0, 1, -2, 1>>, <<alpha, beta>>))
\* quintic with zero initial and final derivatives and second derivatives
MinJerk(a, b) == <<a, 0, 0, NMul(10, NSub(b, a)), NMul(-15, NSub(b, a)), NMul(6, NSub(b, a))>>

OfPhase(p, T, s, d) == NDiv(PEval(PDiffN(p, d), NDiv(s, T)), NPow(T, d))
=============================================================================
