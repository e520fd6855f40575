-------------------------------- MODULE QP --------------------------------
(***************************************************************************)
(* The quadratic problem object (src/placo/problem/problem.cpp).           *)
(*                                                                         *)
(* State: the sizes of the variables (laid out contiguously, in order of   *)
(* creation), the constraints (affine rows A x + b, equality or            *)
(* inequality >= 0, hard or soft with a weight), and the last published    *)
(* solution of each variable.                                              *)
(*                                                                         *)
(* A solve either publishes a point that satisfies every hard constraint   *)
(* and minimises                                                           *)
(*    1/2 ( sum_soft-eq   w |A x + b|^2                                    *)
(*        + sum_soft-ineq w |min(0, A x + b)|^2 + reg |x|^2 )              *)
(* among the points that do, or it reports an error and publishes nothing. *)
(* Optimality is a state predicate over a certificate (multipliers of the  *)
(* hard constraints): the objective is convex and the constraints affine,  *)
(* so the KKT conditions are necessary and sufficient.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

VARIABLES
  sizes,    \* sequence of the variables' sizes
  cons,     \* sequence of [A, b, ineq, hard, w]
  reg,      \* regularization weight
  vals      \* sequence of the published values (<<>> before the first successful solve)

qpVars == <<sizes, cons, reg, vals>>

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
NVars == SumTo(sizes, Len(sizes))
StartOf(i) == SumTo(sizes, i - 1)          \* first column (0-based) of variable i

PadRow(r, n) == [j \in 1..n |-> IF j <= Len(r) THEN r[j] ELSE 0]
Pad(A, n) == [i \in 1..Len(A) |-> PadRow(A[i], n)]

\* A constraint can be part of the problem when it only uses existing columns and has as many rows in A and b
WellFormed(c) == Len(c.A) > 0 /\ Len(c.A) = Len(c.b) /\ \A i \in 1..Len(c.A) : Len(c.A[i]) <= NVars

QPInit == sizes = <<>> /\ cons = <<>> /\ reg = "1e-8" /\ vals = <<>>

AddVariable(n) ==
  /\ sizes' = Append(sizes, n) /\ vals' = Append(vals, <<>>)
  /\ UNCHANGED <<cons, reg>>

AddConstraint(c) == cons' = Append(cons, c) /\ UNCHANGED <<sizes, reg, vals>>

Configure(i, hard, w) ==
  /\ cons' = [cons EXCEPT ![i].hard = hard, ![i].w = w]
  /\ UNCHANGED <<sizes, reg, vals>>

ClearConstraints == cons' = <<>> /\ UNCHANGED <<sizes, reg, vals>>

ClearVariables == sizes' = <<>> /\ vals' = <<>> /\ UNCHANGED <<cons, reg>>

SetRegularization(r) == reg' = r /\ UNCHANGED <<sizes, cons, vals>>

----------------------------------------------------------------------------
\* What a point must satisfy
At(c, x) == VAdd(MV(Pad(c.A, NVars), x), c.b)

HardHolds(c, x, tol) ==
  LET r == At(c, x) IN
  IF c.ineq THEN VLe(VZero(Len(r)), r, tol) ELSE VNearAbs(r, VZero(Len(r)), tol)

Feasible(x, tol) == \A i \in 1..Len(cons) : cons[i].hard => HardHolds(cons[i], x, tol)

\* Residual of a soft constraint: inequalities only cost when violated
Residual(c, x) ==
  LET r == At(c, x) IN IF c.ineq THEN [i \in 1..Len(r) |-> NMin(r[i], 0)] ELSE r

RECURSIVE Gradient(_, _)
Gradient(x, k) ==
  IF k = 0 THEN VScale(reg, x)
  ELSE IF cons[k].hard THEN Gradient(x, k - 1)
  ELSE VAdd(Gradient(x, k - 1), VScale(cons[k].w, MTV(Pad(cons[k].A, NVars), Residual(cons[k], x), NVars)))

RECURSIVE Reaction(_, _)
Reaction(mult, k) ==
  IF k = 0 THEN VZero(NVars)
  ELSE IF ~cons[k].hard THEN Reaction(mult, k - 1)
  ELSE VAdd(Reaction(mult, k - 1), MTV(Pad(cons[k].A, NVars), mult[k], NVars))

\* mult[k]: multipliers of the rows of constraint k (used for the hard ones); scale: magnitude of the forces at play
Optimal(x, mult, tol, scale) ==
  /\ VNearAbs(Gradient(x, Len(cons)), Reaction(mult, Len(cons)), NMul(tol, scale))
  /\ \A k \in 1..Len(cons) : (cons[k].hard /\ cons[k].ineq) =>
        LET r == At(cons[k], x) IN
        \A i \in 1..Len(r) :
           /\ NLe(0, mult[k][i])                                                \* dual feasibility
           /\ NLe(NAbs(mult[k][i]), NMul(tol, scale)) \/ NLe(r[i], tol)         \* complementarity

\* Farkas certificate that no point satisfies the hard constraints: a combination of the rows, with nonnegative
\* coefficients on the inequalities, whose linear part vanishes and whose constant part is negative
Infeasible(mult, tol) ==
  /\ VNearAbs(Reaction(mult, Len(cons)), VZero(NVars), tol)
  /\ \A k \in 1..Len(cons) : (cons[k].hard /\ cons[k].ineq) => \A i \in 1..Len(mult[k]) : NLe(0, mult[k][i])
  /\ LET RECURSIVE Const(_)
         Const(k) == IF k = 0 THEN 0 ELSE IF ~cons[k].hard THEN Const(k - 1)
                     ELSE NAdd(Const(k - 1), VDot(cons[k].b, mult[k]))
     IN NLe(Const(Len(cons)), "-0.01")

\* Slices of x per variable
Slices(x) == [i \in 1..Len(sizes) |-> SubSeq(x, StartOf(i) + 1, StartOf(i) + sizes[i])]

\* Slack of each row of the soft inequalities, in order: by how much it is satisfied
RECURSIVE SlacksOf(_, _)
SlacksOf(x, k) ==
  IF k = 0 THEN <<>>
  ELSE IF cons[k].hard \/ ~cons[k].ineq THEN SlacksOf(x, k - 1)
  ELSE LET r == At(cons[k], x) IN SlacksOf(x, k - 1) \o [i \in 1..Len(r) |-> NMax(r[i], 0)]
\* (a row without weight leaves its slack free)
RECURSIVE SlackWeights(_)
SlackWeights(k) ==
  IF k = 0 THEN <<>> ELSE IF cons[k].hard \/ ~cons[k].ineq THEN SlackWeights(k - 1)
  ELSE SlackWeights(k - 1) \o [i \in 1..Len(cons[k].b) |-> cons[k].w]

SolveOk(x) ==
  /\ \A i \in 1..Len(cons) : WellFormed(cons[i])
  /\ vals' = Slices(x)
  /\ UNCHANGED <<sizes, cons, reg>>

SolveFail == UNCHANGED qpVars
=============================================================================
