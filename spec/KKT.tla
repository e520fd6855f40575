-------------------------------- MODULE KKT --------------------------------
(***************************************************************************)
(* Convex programs given by rows: cons is a sequence of [A, b, ineq, hard, *)
(* w], each the rows A x + b (= 0, or >= 0 when ineq) over n variables.    *)
(* Among the points satisfying the hard ones, the optimum minimises        *)
(*   1/2 (sum over the soft ones of w |residual|^2 + reg |x|^2).           *)
(* The conditions below are necessary and sufficient (affine constraints,  *)
(* convex objective); the multipliers are a certificate.                   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Num

RowsAt(c, x) == VAdd(MV(c.A, x), c.b)
RowsHold(c, x, tol) == LET r == RowsAt(c, x) IN
  IF c.ineq THEN VLe(VZero(Len(r)), r, tol) ELSE VNearAbs(r, VZero(Len(r)), tol)
KFeasible(cons, x, tol) == \A i \in 1..Len(cons) : cons[i].hard => RowsHold(cons[i], x, tol)

KResidual(c, x) == LET r == RowsAt(c, x) IN IF c.ineq THEN [i \in 1..Len(r) |-> NMin(r[i], 0)] ELSE r
RECURSIVE KGradient(_, _, _, _)
KGradient(cons, x, reg, k) ==
  IF k = 0 THEN VScale(reg, x)
  ELSE IF cons[k].hard THEN KGradient(cons, x, reg, k - 1)
  ELSE VAdd(KGradient(cons, x, reg, k - 1), VScale(cons[k].w, MTV(cons[k].A, KResidual(cons[k], x), Len(x))))
RECURSIVE KReaction(_, _, _, _)
KReaction(cons, mult, n, k) ==
  IF k = 0 THEN VZero(n)
  ELSE IF ~cons[k].hard THEN KReaction(cons, mult, n, k - 1)
  ELSE VAdd(KReaction(cons, mult, n, k - 1), MTV(cons[k].A, mult[k], n))
\* the objective
RECURSIVE KCost(_, _, _, _)
KCost(cons, x, reg, k) ==
  IF k = 0 THEN NMul(reg, VDot(x, x))
  ELSE IF cons[k].hard THEN KCost(cons, x, reg, k - 1)
  ELSE LET r == KResidual(cons[k], x) IN NAdd(KCost(cons, x, reg, k - 1), NMul(cons[k].w, VDot(r, r)))
\* x does (almost) as well as y
KNoWorse(cons, x, y, reg, tol) == NLe(KCost(cons, x, reg, Len(cons)), NAdd(NMul(NAdd(1, tol), KCost(cons, y, reg, Len(cons))), NMul(tol, "0.001")))
\* x is the optimum: mult[k] are the multipliers of the rows of cons[k], scale the magnitude of the forces at play
KOptimal(cons, x, reg, mult, tol, scale) ==
  /\ VNearAbs(KGradient(cons, x, reg, Len(cons)), KReaction(cons, mult, Len(x), Len(cons)), NMul(tol, scale))
  /\ \A k \in 1..Len(cons) : (cons[k].hard /\ cons[k].ineq) =>
        LET r == RowsAt(cons[k], x) IN
        \A i \in 1..Len(r) : /\ NLe(0, mult[k][i])
                             /\ NLe(NAbs(mult[k][i]), NMul(tol, scale)) \/ NLe(r[i], tol)
\* no point satisfies the hard constraints (Farkas)
KInfeasible(cons, mult, n, tol) ==
  /\ VNearAbs(KReaction(cons, mult, n, Len(cons)), VZero(n), tol)
  /\ \A k \in 1..Len(cons) : (cons[k].hard /\ cons[k].ineq) => \A i \in 1..Len(mult[k]) : NLe(0, mult[k][i])
  /\ LET RECURSIVE Const(_)
         Const(k) == IF k = 0 THEN 0 ELSE IF ~cons[k].hard THEN Const(k - 1)
                     ELSE NAdd(Const(k - 1), VDot(cons[k].b, mult[k]))
     IN NLe(Const(Len(cons)), "-0.01")
=============================================================================
