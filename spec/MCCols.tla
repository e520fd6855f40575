------------------------------- MODULE MCCols -------------------------------
(***************************************************************************)
(* Every sequence of interval insertions over a few columns.  Refine gives *)
(* the list of intervals the code maintains as a function of the set, so   *)
(* that the list is exact, sorted and disjoint for every history.          *)
(***************************************************************************)
EXTENDS Expr, TLC, Json
CONSTANTS Depth, Columns

VARIABLES prog
mcVars == <<exprVars, prog>>

MCInit == regs = <<>> /\ cols = <<{}>> /\ prog = <<>>
MCNext == /\ Len(prog) < Depth
          /\ \E a \in 0..(Columns - 1), b \in 0..(Columns - 1) :
                a <= b /\ AddCols(1, a, b) /\ prog' = Append(prog, [op |-> "interval", a |-> a, b |-> b])
MCSpec == MCInit /\ [][MCNext]_mcVars

\* maximal runs of the set
Starts(s) == {c \in s : c - 1 \notin s}
EndOf(s, c) == CHOOSE d \in s : d >= c /\ (c..d) \subseteq s /\ d + 1 \notin s
RECURSIVE Runs(_, _)
Runs(s, st) == IF st = {} THEN <<>> ELSE LET c == CHOOSE c \in st : \A d \in st : c <= d IN <<<<c, EndOf(s, c)>>>> \o Runs(s, st \ {c})
Exact == Represents(Runs(cols[1], Starts(cols[1])), cols[1])
Grows == [][cols[1] \subseteq cols'[1]]_mcVars
Emit == Len(prog) = Depth => PrintT(<<"BEH", ToJson(prog)>>)
=============================================================================
