-------------------------------- MODULE MCQP --------------------------------
(***************************************************************************)
(* Bounded model of the problem object: every history of at most Depth     *)
(* operations over a few one-dimensional constraints (integers, so that    *)
(* feasibility is decided exactly by enumeration on a grid that contains   *)
(* every vertex).  The histories are emitted and replayed on the code.     *)
(***************************************************************************)
EXTENDS QP, TLC, Json, FiniteSets
CONSTANTS Depth, MaxVars

VARIABLES hist, solved   \* history of operations; whether the last solve succeeded ("none", "ok", "fail")
mcVars == <<qpVars, hist, solved>>

Cat == << [A |-> <<<<1>>>>, b |-> <<-1>>, ineq |-> FALSE, hard |-> TRUE, w |-> 1],             \* x1 = 1
          [A |-> <<<<1>>>>, b |-> <<-2>>, ineq |-> TRUE, hard |-> TRUE, w |-> 1],              \* x1 >= 2
          [A |-> <<<<1, 1>>>>, b |-> <<-4>>, ineq |-> FALSE, hard |-> FALSE, w |-> 3],         \* x1 + x2 ~ 4
          [A |-> <<<<1>>, <<-1>>>>, b |-> <<3, 3>>, ineq |-> TRUE, hard |-> TRUE, w |-> 1],    \* |x1| <= 3
          [A |-> <<<<0, 1>>>>, b |-> <<-1>>, ineq |-> TRUE, hard |-> FALSE, w |-> 2] >>        \* x2 >= 1 if possible

Grid == IF NVars = 0 THEN {<<>>} ELSE [1..NVars -> -1..3]
Solvable == Len(sizes) > 0 /\ (\A i \in 1..Len(cons) : WellFormed(cons[i])) /\ \E x \in Grid : Feasible(x, 0)

MCInit == QPInit /\ hist = <<>> /\ solved = "none"

Step(h) == hist' = Append(hist, h)

MCNext ==
  /\ Len(hist) < Depth
  /\ \/ Len(sizes) < MaxVars /\ AddVariable(1) /\ Step([op |-> "var", n |-> 1]) /\ UNCHANGED solved
     \/ \E k \in 1..Len(Cat) : /\ Len(cons) < 3
                               /\ AddConstraint(Cat[k]) /\ Step([op |-> "con", c |-> Cat[k]]) /\ UNCHANGED solved
     \/ cons # <<>> /\ ClearConstraints /\ Step([op |-> "clear"]) /\ UNCHANGED solved
     \/ \E i \in 1..Len(cons) : /\ cons[i].hard
                                /\ Configure(i, FALSE, 5) /\ Step([op |-> "soften", i |-> i]) /\ UNCHANGED solved
     \/ /\ Len(sizes) > 0
        /\ IF Solvable
           THEN (\E x \in Grid : Feasible(x, 0) /\ SolveOk(x)) /\ solved' = "ok"
           ELSE SolveFail /\ solved' = "fail"
        /\ Step([op |-> "solve", ok |-> Solvable])

MCSpec == MCInit /\ [][MCNext]_mcVars

\* The published values are abstracted to their sizes in the explored state space (the code's values are checked on the traces)
View == <<sizes, cons, [i \in 1..Len(vals) |-> Len(vals[i])], hist, solved>>

\* Every published value has its variable's size; a variable has no value before a successful solve
Published == \A i \in 1..Len(sizes) : Len(vals[i]) \in {0, sizes[i]}
\* A failed solve changes nothing; a successful one publishes a point satisfying the hard constraints
Atomic == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "solve") =>
               IF solved' = "fail" THEN UNCHANGED qpVars
               ELSE /\ \A i \in 1..Len(sizes) : Len(vals'[i]) = sizes[i]
                    /\ UNCHANGED <<sizes, cons>>]_mcVars
\* The variables tile the columns
Layout == \A i \in 1..Len(sizes) : StartOf(i) + sizes[i] = (IF i = Len(sizes) THEN NVars ELSE StartOf(i + 1))

\* Emission of the maximal histories that end with a solve
Emit == (Len(hist) = Depth /\ hist[Depth].op = "solve") => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
