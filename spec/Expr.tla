-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Affine expressions over decision variables, the constraints built from  *)
(* them, polygon-belonging and polynomial helpers, and column sparsity     *)
(* (src/placo/problem/expression.cpp, variable.cpp, polygon_constraint.cpp,*)
(* problem_polynom.cpp, sparsity.cpp).                                     *)
(*                                                                         *)
(* An expression [A, b] denotes the function x |-> A x + b of the decision *)
(* vector x (rows of A may be shorter than x: missing columns are zeros).  *)
(* State: a register file of expressions and of column sets; an action     *)
(* appends the result of an operation, or is refused when the operands     *)
(* have no common meaning.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Num

VARIABLES regs,   \* sequence of expressions
          cols    \* sequence of sets of columns (sparsity objects)
exprVars == <<regs, cols>>

None == [A |-> <<>>, b |-> <<>>]      \* marks the result of a refused operation

Rows(e) == Len(e.b)
Width(e) == IF e.A = <<>> THEN 0 ELSE Len(e.A[1])
PadTo(r, n) == [j \in 1..n |-> IF j <= Len(r) THEN r[j] ELSE 0]
Max2(a, b) == IF a >= b THEN a ELSE b
IsConst(e) == Width(e) = 0

Val(e, x) == [i \in 1..Rows(e) |-> NAdd(VDot(e.A[i], SubSeq(x, 1, Len(e.A[i]))), e.b[i])]

Fill(n, v) == [i \in 1..n |-> v]
Const(v) == [A |-> Fill(Len(v), <<>>), b |-> v]

ScaleE(s, e) == [A |-> [i \in 1..Rows(e) |-> VScale(s, e.A[i])], b |-> VScale(s, e.b)]
ShiftE(e, v) == [A |-> e.A, b |-> VAdd(e.b, v)]
PlusE(a, b) == LET n == Max2(Width(a), Width(b)) IN
   [A |-> [i \in 1..Rows(a) |-> VAdd(PadTo(a.A[i], n), PadTo(b.A[i], n))], b |-> VAdd(a.b, b.b)]

\* Sum of two expressions: a constant scalar is added to every row, otherwise the sizes must match
CanAdd(a, b) == Rows(a) = Rows(b) \/ (Rows(a) = 1 /\ IsConst(a)) \/ (Rows(b) = 1 /\ IsConst(b))
AddE(a, b) == IF Rows(a) = 1 /\ IsConst(a) THEN ShiftE(b, Fill(Rows(b), a.b[1]))
              ELSE IF Rows(b) = 1 /\ IsConst(b) THEN ShiftE(a, Fill(Rows(a), b.b[1]))
              ELSE PlusE(a, b)
SubE(a, b) == AddE(a, ScaleE(-1, b))

\* Product: a scalar expression by a constant one (the result has the rows of the constant)
CanMul(a, b) == (Rows(a) = 1 /\ IsConst(b)) \/ (Rows(b) = 1 /\ IsConst(a))
MulE(a, b) == LET s == IF Rows(a) = 1 /\ IsConst(b) THEN a ELSE b
                  k == IF Rows(a) = 1 /\ IsConst(b) THEN b ELSE a
              IN [A |-> [i \in 1..Rows(k) |-> VScale(k.b[i], s.A[1])], b |-> VScale(s.b[1], k.b)]

StackE(a, b) == LET n == Max2(Width(a), Width(b)) IN
   [A |-> [i \in 1..(Rows(a) + Rows(b)) |-> IF i <= Rows(a) THEN PadTo(a.A[i], n) ELSE PadTo(b.A[i - Rows(a)], n)],
    b |-> a.b \o b.b]
SliceE(e, start, n) == [A |-> SubSeq(e.A, start + 1, start + n), b |-> SubSeq(e.b, start + 1, start + n)]
LeftE(M, e) == [A |-> [i \in 1..Len(M) |-> MTV(e.A, M[i], Width(e))], b |-> MV(M, e.b)]
SumE(e) == [A |-> <<MTV(e.A, Fill(Rows(e), 1), Width(e))>>, b |-> <<VSum(e.b)>>]
MeanE(e) == ScaleE(NDiv(1, Rows(e)), SumE(e))

\* Expression of n entries of a variable that occupies the columns start, start + 1, ...
VarE(start, k, n) == [A |-> [i \in 1..n |-> [j \in 1..(start + k + n) |-> IF j = start + k + i THEN 1 ELSE 0]], b |-> VZero(n)]

\* A comparison is an affine constraint, given by the expression which has to be nonnegative (zero for "eq")
CompareE(rel, a, b) == CASE rel = "ge" -> SubE(a, b) [] rel = "le" -> SubE(b, a) [] rel = "eq" -> SubE(a, b)

ExprInit == regs = <<>> /\ cols = <<>>
Push(e) == regs' = Append(regs, e) /\ UNCHANGED cols

----------------------------------------------------------------------------
\* Signed distance of a point to the edge i of a clockwise polygon (positive inside)
Edge(poly, i) == <<poly[i], poly[(i % Len(poly)) + 1]>>
EdgeSide(poly, i, p) ==          \* times the length of the edge
  LET a == Edge(poly, i)[1] b == Edge(poly, i)[2]
  IN NAdd(NMul(NSub(b[2], a[2]), NSub(p[1], a[1])), NMul(NSub(a[1], b[1]), NSub(p[2], a[2])))
EdgeDist(poly, i, p) == NDiv(EdgeSide(poly, i, p), VNorm(VSub(Edge(poly, i)[2], Edge(poly, i)[1])))
RECURSIVE MinEdge(_, _, _)
MinEdge(poly, k, p) == IF k = 1 THEN EdgeDist(poly, 1, p) ELSE NMin(MinEdge(poly, k - 1, p), EdgeDist(poly, k, p))
\* How far inside the polygon a point is (negative outside)
Inside(poly, p) == MinEdge(poly, Len(poly), p)
RECURSIVE VMin(_)
VMin(v) == IF Len(v) = 1 THEN v[1] ELSE NMin(v[1], VMin(Tail(v)))

\* Value of the d-th derivative at x of the polynomial whose coefficients are given, highest degree first
RECURSIVE Falling(_, _)
Falling(n, d) == IF d = 0 THEN 1 ELSE NMul(n, Falling(n - 1, d - 1))
PolyVal(c, x, d) ==
  VSum([i \in 1..Len(c) |-> LET deg == Len(c) - i IN
        IF deg < d THEN 0 ELSE NMul(NMul(Falling(deg, d), c[i]), NPow(x, deg - d))])

----------------------------------------------------------------------------
\* Column sets
NewCols(s) == cols' = Append(cols, s) /\ UNCHANGED regs
AddCols(i, a, b) == cols' = [cols EXCEPT ![i] = @ \cup (a..b)] /\ UNCHANGED regs
\* A list of intervals represents a set when it is sorted, disjoint, and covers exactly the set
RECURSIVE Covered(_, _)
Covered(iv, k) == IF k = 0 THEN {} ELSE Covered(iv, k - 1) \cup (iv[k][1]..iv[k][2])
Represents(iv, s) ==
  /\ \A k \in 1..Len(iv) : iv[k][1] <= iv[k][2]
  /\ \A k \in 1..(Len(iv) - 1) : iv[k][2] < iv[k + 1][1]
  /\ Covered(iv, Len(iv)) = s
=============================================================================
