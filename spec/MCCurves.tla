------------------------------ MODULE MCCurves ------------------------------
(***************************************************************************)
(* Every history of a few operations on a spline with small integer knots  *)
(* (including refused ones).  Values are compared scaled by h^3, so that   *)
(* everything is an integer.  The histories are replayed on the code.      *)
(***************************************************************************)
EXTENDS Curves, Json
CONSTANTS Depth

VARIABLES hist
Times == {0, 1, 3}
Vals == {<<0, 1>>, <<2, -1>>}

MCInit == CurveInit /\ hist = <<>>
Try(t, v) == IF CanAdd(t) THEN AddKnot(t, v[1], v[2]) ELSE UNCHANGED curveVars
MCNext == /\ Len(hist) < Depth
          /\ \/ \E t \in Times, v \in Vals : Try(t, v) /\ hist' = Append(hist, [op |-> "add", t |-> t, x |-> v[1], dx |-> v[2]])
             \/ ClearKnots /\ hist' = Append(hist, [op |-> "clear", t |-> 0, x |-> 0, dx |-> 0])
             \/ hist # <<>> /\ hist[Len(hist)].op # "query" /\ UNCHANGED curveVars /\ hist' = Append(hist, [op |-> "query", t |-> 0, x |-> 0, dx |-> 0])
MCSpec == MCInit /\ [][MCNext]_<<curveVars, hist>>

Increasing == \A i \in 1..(Len(knots) - 1) : knots[i].t < knots[i + 1].t
\* the curve goes through the knots with their derivatives, on both sides
Through == \A i \in 1..(Len(knots) - 1) :
   LET a == knots[i]  b == knots[i + 1]  h == b.t - a.t  p == Arc3(h, a.x, a.dx, b.x, b.dx)  c == h * h * h
   IN /\ PEval(p, 0) = c * a.x /\ PEval(PDiff(p), 0) = c * a.dx
      /\ PEval(p, h) = c * b.x /\ PEval(PDiff(p), h) = c * b.dx
\* outside of the knots, the curve keeps its border values
Held == Len(knots) > 1 => /\ ArcsAt(knots[1].t - 5) = {1} /\ ArcsAt(knots[Len(knots)].t + 5) = {Len(knots) - 1}
\* only the last knots of a history since the last clear matter; a refused knot changes nothing
Fresh == (hist # <<>> /\ hist[Len(hist)].op = "clear") => knots = <<>>
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
