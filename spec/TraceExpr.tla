------------------------------ MODULE TraceExpr ------------------------------
EXTENDS Expr, TraceLib

Tol == "1e-9"
TReset == IsEvent("Reset") /\ regs' = <<>> /\ cols' = <<>>
TCrash == IsEvent("Crash") /\ Report("crash") /\ UNCHANGED exprVars

Same(e, o) ==                   \* the recorded expression is the expected one (columns beyond the width are zeros)
  /\ Len(o.A) = Rows(e) /\ Len(o.b) = Rows(e)
  /\ LET n == IF o.A = <<>> THEN 0 ELSE Max2(Len(o.A[1]), Width(e)) IN
     \A i \in 1..Rows(e) : VNear(PadTo(o.A[i], n), PadTo(e.A[i], n), Tol)
  /\ VNear(o.b, e.b, Tol)

R(i) == regs[i]
\* <<whether the operation has a meaning, its meaning>>
Meaning ==
  CASE Ev.op = "add" -> IF CanAdd(R(Ev.i), R(Ev.j)) THEN <<TRUE, AddE(R(Ev.i), R(Ev.j))>> ELSE <<FALSE, None>>
    [] Ev.op = "sub" -> IF CanAdd(R(Ev.i), R(Ev.j)) THEN <<TRUE, SubE(R(Ev.i), R(Ev.j))>> ELSE <<FALSE, None>>
    [] Ev.op = "mul" -> IF CanMul(R(Ev.i), R(Ev.j)) THEN <<TRUE, MulE(R(Ev.i), R(Ev.j))>> ELSE <<FALSE, None>>
    [] Ev.op = "neg" -> <<TRUE, ScaleE(-1, R(Ev.i))>>
    [] Ev.op = "stack" -> <<TRUE, StackE(R(Ev.i), R(Ev.j))>>
    [] Ev.op = "scale" -> <<TRUE, ScaleE(Ev.s, R(Ev.i))>>
    [] Ev.op = "addv" -> IF Len(Ev.v) = Rows(R(Ev.i)) THEN <<TRUE, ShiftE(R(Ev.i), Ev.v)>> ELSE <<FALSE, None>>
    [] Ev.op = "subv" -> IF Len(Ev.v) = Rows(R(Ev.i)) THEN <<TRUE, ShiftE(R(Ev.i), VScale(-1, Ev.v))>> ELSE <<FALSE, None>>
    [] Ev.op = "rsubv" -> IF Len(Ev.v) = Rows(R(Ev.i)) THEN <<TRUE, ShiftE(ScaleE(-1, R(Ev.i)), Ev.v)>> ELSE <<FALSE, None>>
    [] Ev.op = "addf" -> <<TRUE, ShiftE(R(Ev.i), Fill(Rows(R(Ev.i)), Ev.s))>>
    [] Ev.op = "subf" -> <<TRUE, ShiftE(R(Ev.i), Fill(Rows(R(Ev.i)), NNeg(Ev.s)))>>
    [] Ev.op = "rsubf" -> <<TRUE, ShiftE(ScaleE(-1, R(Ev.i)), Fill(Rows(R(Ev.i)), Ev.s))>>
    [] Ev.op = "left" -> <<TRUE, LeftE(Ev.M, R(Ev.i))>>
    [] Ev.op = "sum" -> <<TRUE, SumE(R(Ev.i))>>
    [] Ev.op = "mean" -> <<TRUE, MeanE(R(Ev.i))>>
    [] Ev.op = "slice" -> <<TRUE, SliceE(R(Ev.i), Ev.start, Ev.n)>>
    [] Ev.op = "const" -> <<TRUE, Const(Ev.v)>>
    [] Ev.op = "var" -> <<TRUE, VarE(Ev.start, Ev.k, Ev.n)>>
    \* comparisons: the constraint's expression
    [] Ev.op \in {"ge", "le", "eq"} -> IF CanAdd(R(Ev.i), R(Ev.j)) THEN <<TRUE, CompareE(Ev.op, R(Ev.i), R(Ev.j))>> ELSE <<FALSE, None>>

TOp == /\ IsEvent("Op")
       /\ LET m == Meaning IN
          IF ~m[1] THEN Check("C04.refuse", ~Ev.ok) /\ UNCHANGED exprVars
          ELSE IF ~Ev.ok THEN Report("C04.refused") /\ UNCHANGED exprVars
          ELSE LET neg == Ev.op = "eq" /\ Same(ScaleE(-1, m[2]), Ev)       \* an equality may be negated
                   e == IF neg THEN ScaleE(-1, m[2]) ELSE m[2]
               IN
               /\ Push(e)
               /\ Check("C04." \o Ev.op, Same(e, Ev))
               /\ Check("C04.shape", Ev.rows = Rows(m[2]) /\ Ev.scalar = (Rows(m[2]) = 1))
               \* what is declared constant depends on no variable, and what is built from values only is declared constant
               /\ Check("C04.constant", /\ Ev.const => \A i \in 1..Rows(m[2]) : \A j \in 1..Len(m[2].A[i]) : NLe(NAbs(m[2].A[i][j]), 0)
                                        /\ Ev.op = "const" => Ev.const)

\* the operands are left untouched
TSame == IsEvent("Same") /\ Check("C04.operands", Same(R(Ev.i), Ev)) /\ UNCHANGED exprVars
TValue == IsEvent("Value") /\ Check("C04.value", VNear(Ev.v, Val(R(Ev.i), Ev.x), Tol)) /\ UNCHANGED exprVars

\* polygon: at x, the least row of the constraint is the distance inside the polygon minus the margin
TPolygon ==
  /\ IsEvent("Polygon") /\ UNCHANGED exprVars
  /\ LET c == [A |-> Ev.A, b |-> Ev.b]
         p == Val(R(Ev.i), Ev.x)
     IN Check("C04.polygon", /\ Len(Ev.b) = Len(Ev.A) /\ Len(Ev.A) > 0
                             /\ NNear(VMin(Val(c, Ev.x)), NSub(Inside(Ev.poly, p), Ev.margin), "1e-7"))
\* polynomial: the expression of the d-th derivative
TPoly == /\ IsEvent("Poly") /\ UNCHANGED exprVars
         /\ Check("C04.polynom", NNear(Ev.v, PolyVal(Ev.c, Ev.t, Ev.d), "1e-7"))
TPolySolved == /\ IsEvent("PolySolved") /\ UNCHANGED exprVars
               /\ Check("C04.polynom_solved", NNear(Ev.v, PolyVal(Ev.c, Ev.t, Ev.d), "1e-6"))

TCols == IsEvent("Cols") /\ NewCols({}) /\ Check("C02.sparsity", Represents(Ev.iv, {}))
TInterval == IsEvent("Interval") /\ AddCols(Ev.i, Ev.a, Ev.b) /\ Check("C02.sparsity", Represents(Ev.iv, cols'[Ev.i]))
TUnion == IsEvent("Union") /\ NewCols(cols[Ev.i] \cup cols[Ev.j]) /\ Check("C02.sparsity", Represents(Ev.iv, cols'[Len(cols')]))
TDetect == /\ IsEvent("Detect")
           /\ NewCols({c - 1 : c \in {c \in 1..Ev.n : \E i \in 1..Len(Ev.M) : NLt("1e-9", NAbs(Ev.M[i][c]))}})
           /\ Check("C02.sparsity", Represents(Ev.iv, cols'[Len(cols')]))

TNext == \/ TReset \/ TCrash \/ TOp \/ TSame \/ TValue \/ TPolygon \/ TPoly \/ TPolySolved \/ TCols \/ TInterval \/ TUnion \/ TDetect
TraceSpec == TraceStart /\ ExprInit /\ [][TNext]_<<exprVars, l>>
=============================================================================
