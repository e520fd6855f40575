------------------------------ MODULE TraceQP ------------------------------
EXTENDS QP, TraceLib

Hi == "1e-5"    \* tolerance on hard constraints

TReset == IsEvent("Reset") /\ sizes' = <<>> /\ cons' = <<>> /\ reg' = "1e-8" /\ vals' = <<>>
TCrash == IsEvent("Crash") /\ Report("crash") /\ UNCHANGED qpVars

TVar == /\ IsEvent("Var") /\ AddVariable(Ev.n)
        /\ Check("C03.layout", Ev.start = NVars /\ Ev.end = NVars + Ev.n)

\* the constraint as the code built it
TCon == IsEvent("Con") /\ AddConstraint([A |-> Ev.A, b |-> Ev.b, ineq |-> Ev.ineq, hard |-> Ev.hard, w |-> Ev.w])
\* |expression| <= target: the two halves
TLimit == /\ IsEvent("Limit")
          /\ AddConstraint([A |-> MScale(-1, Ev.A) \o Ev.A,
                            b |-> VSub(Ev.target, Ev.b) \o VAdd(Ev.target, Ev.b),
                            ineq |-> TRUE, hard |-> Ev.hard, w |-> Ev.w])
TConf == IsEvent("Conf") /\ Configure(Ev.i, Ev.hard, Ev.w)
TClear == IsEvent("Clear") /\ ClearConstraints
TClearVariables == IsEvent("ClearVariables") /\ ClearVariables
TReg == IsEvent("Reg") /\ SetRegularization(Ev.r)

\* multipliers of a Limit constraint follow the order of the rows of this specification
TSolved ==
  /\ IsEvent("Solve") /\ Ev.ok
  /\ LET x == Ev.x IN
     IF Len(x) # NVars \/ (\E i \in 1..Len(cons) : ~WellFormed(cons[i]))
     THEN /\ Report("C03.size") /\ UNCHANGED qpVars
     ELSE /\ SolveOk(x)
          /\ Check("C01.finite", VFinite(x))
          /\ Check("C01.hard", Feasible(x, Hi))
          /\ Check("C01.accepts_infeasible", ~(Has("farkas") /\ Infeasible(Ev.farkas, "1e-7")))
          \* (exact: the conditioning of the problem lets the QP solver be accurate)
          /\ Check("C02.optimal", Has("mult") => Optimal(x, Ev.mult, IF Ev.exact THEN "1e-4" ELSE "5e-3", Ev.scale))
          /\ Check("C03.values", Ev.vals = Slices(x))
          /\ Check("C03.active", \A k \in 1..Len(cons) :
               LET r == At(cons[k], x) IN
               IF ~cons[k].ineq THEN Ev.active[k]
               ELSE IF cons[k].hard
                    THEN /\ Ev.active[k] => \E i \in 1..Len(r) : NLe(r[i], "1e-3")
                         /\ (Has("mult") /\ Ev.unique /\ \E i \in 1..Len(r) : NLe(NMul("0.01", Ev.scale), Ev.mult[k][i])) => Ev.active[k]
                    ELSE /\ Ev.active[k] => \E i \in 1..Len(r) : NLe(r[i], "1e-3")
                         /\ (Ev.exact /\ \E i \in 1..Len(r) : NLe(r[i], "-1e-3")) => Ev.active[k])
          /\ Check("C03.counts", /\ Ev.n = NVars
                                 /\ Ev.slack_variables = Len(Ev.slacks)
                                 /\ Ev.exact => \A i \in 1..Len(Ev.slacks) : NLe("-1e-5", Ev.slacks[i]))
          /\ Check("C03.slacks", LET s == SlacksOf(x, Len(cons)) w == SlackWeights(Len(cons)) IN
                                 /\ Len(s) = Len(Ev.slacks)
                                 /\ Ev.exact => \A i \in 1..Len(s) : NLe("0.05", w[i]) => NNear(s[i], Ev.slacks[i], "1e-3"))

\* A refused problem: nothing is published, and there is no point that satisfies the hard constraints
TRefused ==
  /\ IsEvent("Solve") /\ ~Ev.ok /\ SolveFail
  /\ Check("C03.unchanged", [i \in 1..Len(sizes) |-> Ev.vals[i]] = vals)
  /\ Check("C01.refused", ~Has("witness") \/ (\E i \in 1..Len(cons) : ~WellFormed(cons[i])) \/ ~Feasible(Ev.witness, "1e-9"))

TUnexpected == IsEvent("SolveUnexpected") /\ Report("C01.accepts_infeasible") /\ UNCHANGED qpVars

\* inputs of known-findings.json: contradictory hard constraints must be refused
TFinding == IsEvent("Finding") /\ Check("C01." \o Ev.id \o "-" \o Ev.outcome, Ev.outcome = "refused") /\ UNCHANGED qpVars

TNext == \/ TFinding \/ TUnexpected \/ TReset \/ TCrash \/ TVar \/ TCon \/ TLimit \/ TConf \/ TClear \/ TClearVariables \/ TReg \/ TSolved \/ TRefused
TraceSpec == TraceStart /\ QPInit /\ [][TNext]_<<qpVars, l>>
=============================================================================
