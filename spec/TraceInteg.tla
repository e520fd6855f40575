------------------------------ MODULE TraceInteg ------------------------------
EXTENDS Integ, TraceLib

Tol == "1e-7"
TReset == IsEvent("Reset") /\ segs' = <<>> /\ sol' = <<>>
TCrash == IsEvent("Crash") /\ Report("crash") /\ UNCHANGED integVars

S == segs[Ev.i]
TSeg == /\ IsEvent("Seg")
        /\ LET s == [M |-> Ev.M, order |-> Ev.order, dt |-> Ev.dt, n |-> Ev.n, start |-> Ev.start, t0 |-> Ev.t0, prev |-> Ev.prev, XA |-> Ev.XA, Xb |-> Ev.Xb]
           IN /\ AddSegment(s)
              /\ Check("C05.matrices", Has("A") =>
                    LET E == Transition(s, s.dt) IN
                    /\ MNear(Ev.A, [i \in 1..s.order |-> SubSeq(E[i], 1, s.order)], Tol)
                    /\ VNear(Ev.B, [i \in 1..s.order |-> E[i][s.order + 1]], Tol))
\* effect of the commands on the final state
TFinal == /\ IsEvent("Final") /\ UNCHANGED integVars
          /\ Check("C05.final", VNear(Ev.v, StateAtStep([S EXCEPT !.prev = 0, !.XA = [i \in 1..S.order |-> <<>>], !.Xb = [i \in 1..S.order |-> 0]], Ev.x, S.n), Tol))
TMove == IsEvent("Move") /\ MoveStart(Ev.i, Ev.t)
TShift == IsEvent("Shift") /\ UNCHANGED integVars /\ Check("C05.shift", MNear(Ev.M, Shift(Ev.order), Tol))

\* the full state [X, command] at a step; the last command is held at the final step
AtStep(x, k) == Append(StateAtStep(S, x, k), Command(S, x, IF k >= S.n THEN S.n - 1 ELSE k))

\* an expression of the integrator, evaluated at an arbitrary decision vector
TExpr == /\ IsEvent("Expr") /\ UNCHANGED integVars
         /\ IF Ev.step < 0 \/ Ev.step > S.n \/ Ev.diff > S.order \/ Ev.diff < -1
            THEN Check("C05.refuse", ~Ev.ok)
            ELSE Check("C05.expr", /\ Ev.ok
                                   /\ LET X == AtStep(Ev.x, Ev.step) IN
                                      IF Ev.diff = -1 THEN VNear(Ev.v, SubSeq(X, 1, S.order), Tol)
                                      ELSE VNear(Ev.v, <<X[Ev.diff + 1]>>, Tol))
Good(x, k) == LET X == StateIn(S, x, Ev.t, k) IN
             IF Ev.diff = -1 THEN VNear(Ev.v, SubSeq(X, 1, S.order), Tol) ELSE VNear(Ev.v, <<X[Ev.diff + 1]>>, Tol)
\* at the border of two steps the command of either step is admissible
TExprT == /\ IsEvent("ExprT") /\ UNCHANGED integVars
          /\ IF Ev.diff > S.order \/ Ev.diff < -1
             THEN Check("C05.refuse", ~Ev.ok)
             ELSE Check("C05.expr_t", /\ Ev.ok
                                      /\ LET k == ClampStep(S, Ev.t) IN Good(Ev.x, k) \/ (Ev.border /\ (Good(Ev.x, IF k > 0 THEN k - 1 ELSE 0) \/ Good(Ev.x, IF k + 1 < S.n THEN k + 1 ELSE k))))

TSolved == IsEvent("Solved") /\ Solved(Ev.x)

\* trajectory of the solution: constant outside of the time range
ValueAt(t, k, d) == StateIn(S, sol, t, k)[d + 1]
TValue == /\ IsEvent("Value") /\ UNCHANGED integVars
          /\ IF sol = <<>> \/ Ev.diff < 0 \/ Ev.diff > S.order
             THEN Check("C05.refuse", ~Ev.ok)
             ELSE LET t == Clamp(S, Ev.t)
                      k == ClampStep(S, t)
                  IN Check("C05.value", /\ Ev.ok
                       /\ \/ NNear(Ev.v, ValueAt(t, k, Ev.diff), Tol)
                          \/ Ev.border /\ (NNear(Ev.v, ValueAt(t, IF k > 0 THEN k - 1 ELSE 0, Ev.diff), Tol)
                                            \/ NNear(Ev.v, ValueAt(t, IF k + 1 < S.n THEN k + 1 ELSE k, Ev.diff), Tol)))
\* a detached trajectory keeps the solution (and time offset) it was built from
TSnap == /\ IsEvent("Snap") /\ UNCHANGED integVars
         /\ LET s == [S EXCEPT !.t0 = Ev.t0]
                t == Clamp(s, Ev.t)
                v(k) == StateIn(s, Ev.sol, t, k)[Ev.diff + 1]
                k == ClampStep(s, t)
            IN Check("C05.detached", \/ NNear(Ev.v, v(k), Tol)
                                     \/ Ev.border /\ (NNear(Ev.v, v(IF k > 0 THEN k - 1 ELSE 0), Tol) \/ NNear(Ev.v, v(IF k + 1 < s.n THEN k + 1 ELSE k), Tol)))
TDuration == IsEvent("Duration") /\ UNCHANGED integVars /\ Check("C05.duration", NNear(Ev.v, Duration(S), Tol))

\* pendulums: i and j are the x and y segments
TLExpr == /\ IsEvent("LExpr") /\ UNCHANGED integVars
          /\ LET X(i) == LET s == segs[i] IN Append(StateAtStep(s, Ev.x, Ev.step), Command(s, Ev.x, IF Ev.step >= s.n THEN s.n - 1 ELSE Ev.step))
             IN Check("C06.expr", VNear(Ev.v, <<Pendulum(Ev.kind, X(Ev.i), Ev.omega), Pendulum(Ev.kind, X(Ev.j), Ev.omega)>>, "1e-6"))
TLValue == /\ IsEvent("LValue") /\ UNCHANGED integVars
           /\ LET V(i, b) == LET s == segs[i]
                                 t == Clamp(s, Ev.t)
                                 k0 == ClampStep(s, t)
                                 k == IF b = 0 THEN k0 ELSE IF b = 1 /\ k0 > 0 THEN k0 - 1 ELSE IF b = 2 /\ k0 + 1 < s.n THEN k0 + 1 ELSE k0
                             IN Pendulum(Ev.kind, StateIn(s, sol, t, k), Ev.omega)
              IN Check("C06.value", \E b \in (IF Ev.border THEN 0..2 ELSE {0}) : VNear(Ev.v, <<V(Ev.i, b), V(Ev.j, b)>>, "1e-6"))
TLEnd == /\ IsEvent("LEnd") /\ UNCHANGED integVars
         /\ Check("C06.t_end", NNear(Ev.v, NAdd(S.t0, Duration(S)), Tol))
TOmega == IsEvent("Omega") /\ UNCHANGED integVars
          /\ Check("C06.omega", NNear(NMul(NMul(Ev.v, Ev.v), Ev.h), "9.80665", "1e-4"))

TNext == \/ TReset \/ TCrash \/ TSeg \/ TMove \/ TFinal \/ TShift \/ TExpr \/ TExprT \/ TSolved \/ TValue \/ TSnap \/ TDuration \/ TLExpr \/ TLValue \/ TLEnd \/ TOmega
TraceSpec == TraceStart /\ IntegInit /\ [][TNext]_<<integVars, l>>
=============================================================================
