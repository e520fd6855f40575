------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* Bounded programs over expressions (two scalar variables and integer     *)
(* constants): the operations are homomorphisms of the pointwise meaning,  *)
(* refused exactly when the operands have no common meaning.               *)
(***************************************************************************)
EXTENDS Expr, TLC, Json
CONSTANTS Depth

VARIABLES prog
mcVars == <<exprVars, prog>>

X0 == <<3, -2>>
Base == << VarE(0, 0, 1), VarE(0, 0, 2), VarE(1, 0, 1), Const(<<5>>), Const(<<2, -1>>) >>
MCInit == regs = Base /\ cols = <<>> /\ prog = <<>>
Step(o) == prog' = Append(prog, o)
Last == Len(regs)

MCNext ==
  /\ Len(prog) < Depth
  /\ \/ \E i, j \in {1, 2, 4, 5, Last} : i # j /\ CanAdd(regs[i], regs[j]) /\ Push(AddE(regs[i], regs[j])) /\ Step([op |-> "add", i |-> i, j |-> j])
     \/ \E i, j \in {2, 4, Last} : i # j /\ CanAdd(regs[i], regs[j]) /\ Push(SubE(regs[i], regs[j])) /\ Step([op |-> "sub", i |-> i, j |-> j])
     \/ \E i, j \in {1, 3, 4, 5, Last} : i # j /\ CanMul(regs[i], regs[j]) /\ Push(MulE(regs[i], regs[j])) /\ Step([op |-> "mul", i |-> i, j |-> j])
     \/ \E i, j \in {1, 2, Last} : i # j /\ Rows(regs[i]) + Rows(regs[j]) < 4 /\ Push(StackE(regs[i], regs[j])) /\ Step([op |-> "stack", i |-> i, j |-> j])
     \/ Push(SumE(regs[Last])) /\ Step([op |-> "sum", i |-> Last])
     \/ Rows(regs[Last]) > 1 /\ Push(SliceE(regs[Last], 1, 1)) /\ Step([op |-> "slice", i |-> Last, start |-> 1, n |-> 1])
     \/ Push(ScaleE(-2, regs[Last])) /\ Step([op |-> "scale", i |-> Last, s |-> -2])

MCSpec == MCInit /\ [][MCNext]_mcVars

Shaped == \A i \in 1..Len(regs) : Len(regs[i].A) = Len(regs[i].b) /\ \A k \in 1..Len(regs[i].A) : Len(regs[i].A[k]) <= 2
\* the register just computed means what the operation says, at X0
Pad(v, n) == IF Len(v) = n THEN v ELSE Fill(n, v[1])
Meaning ==
  prog # <<>> =>
  LET o == prog[Len(prog)]
      v == Val(regs[Last], X0)
      a == Val(regs[o.i], X0)
      b == IF o.op \in {"add", "sub", "mul", "stack"} THEN Val(regs[o.j], X0) ELSE <<>>
      n == Max2(Len(a), Len(b))
  IN CASE o.op = "add" -> v = VAdd(Pad(a, n), Pad(b, n))
       [] o.op = "sub" -> v = VSub(Pad(a, n), Pad(b, n))
       [] o.op = "mul" -> v = [i \in 1..n |-> Pad(a, n)[i] * Pad(b, n)[i]]
       [] o.op = "stack" -> v = a \o b
       [] o.op = "sum" -> v = <<VSum(a)>>
       [] o.op = "slice" -> v = <<a[2]>>
       [] o.op = "scale" -> v = VScale(-2, a)
       [] OTHER -> TRUE
\* comparisons: "le" is "ge" with the operands exchanged
Duality == \A i, j \in {Last, 4} : CanAdd(regs[i], regs[j]) => Val(CompareE("le", regs[i], regs[j]), X0) = Val(CompareE("ge", regs[j], regs[i]), X0)

Emit == (Len(prog) = Depth) => PrintT(<<"BEH", ToJson(prog)>>)
=============================================================================
