-------------------------------- MODULE MCID --------------------------------
(***************************************************************************)
(* The dynamics solver on a robot made of three sliding joints (j1 along x *)
(* carries j2, along y, and j3, along x; four bodies of mass 1).  Every    *)
(* history of Depth edits followed by a solve is enumerated; solutions are *)
(* looked for on a grid of integer accelerations and forces.  The          *)
(* invariants state Newton's law for this robot by hand, the limits, the   *)
(* contacts and the hard tasks.  The histories are replayed on the code.   *)
(***************************************************************************)
EXTENDS ID, Json, FiniteSetsExt
CONSTANTS Depth
VARIABLES hist, out        \* out: result of the solve (<<>> while editing)
vars == <<robotVars, id, hist, out>>

SlideMotion(kind, a, x) == <<<<1, 0, 0, x * a[1]>>, <<0, 1, 0, x * a[2]>>, <<0, 0, 1, x * a[3]>>, <<0, 0, 0, 1>>>>
Tr(x, y, z) == <<<<1, 0, 0, x>>, <<0, 1, 0, y>>, <<0, 0, 1, z>>, <<0, 0, 0, 1>>>>
J(p, T, k, a) == [parent |-> p, T |-> T, kind |-> k, axis |-> a]
Body(j, m) == [joint |-> j, m |-> m, c |-> <<0, 0, 0>>, I |-> MId(3)]
Model == [joints |-> <<J(0, I4, "F", <<0, 0, 0>>), J(1, Tr(1, 0, 0), "P", <<1, 0, 0>>), J(2, Tr(0, 1, 0), "P", <<0, 1, 0>>), J(2, Tr(0, 0, 1), "P", <<1, 0, 0>>)>>,
          bodies |-> <<Body(1, 1), Body(2, 1), Body(3, 1), Body(4, 1)>>,
          frames |-> <<[joint |-> 1, T |-> I4], [joint |-> 2, T |-> I4], [joint |-> 3, T |-> I4], [joint |-> 4, T |-> I4]>>,
          g |-> <<0, 0, -10>>, rotor |-> <<0, 0, 0>>, base0 |-> I4]
Neutral == [base |-> I4, q |-> <<0, 0, 0>>, v |-> VZero(9), a |-> VZero(9)]

MCInit == /\ rob = Model /\ conf = Neutral /\ kin = KinOf(Neutral)
          /\ lim = [lo |-> <<-2, -2, -2>>, hi |-> <<2, 2, 2>>, vmax |-> <<1, 1, 1>>, tmax |-> <<3, 3, 3>>]
          /\ id = [IDInit(3) EXCEPT !.dt = 1, !.gonly = TRUE, !.fbase = TRUE, !.cost = 1]
          /\ hist = <<>> /\ out = <<>>
Do(op) == /\ out = <<>> /\ Len(hist) < Depth /\ hist' = Append(hist, op) /\ out' = <<>>
Put(t, prio, kp) == SetID([id EXCEPT !.tasks = Append(@, MergeR(NewTask(t), [prio |-> prio, kp |-> kp, kd |-> 0]))])
Touch(c) == SetID([id EXCEPT !.contacts = Append(@, NewContact(c))])
Prios == {"soft", "hard"}

\* ---- solutions on the grid
Accs == {<<a, b, c>> : a \in -2..2, b \in -1..1, c \in -2..2}
PointForces == {<<x, 0, z>> : x \in -2..2, z \in 0..1}
RECURSIVE Forces(_)     \* all forces of the active contacts, from the i-th one
Forces(i) == IF i > Len(Active) THEN {<<>>}
             ELSE LET c == id.contacts[Active[i]] IN {f \o r : f \in (IF c.type = "external" THEN {c.wrench} ELSE PointForces), r \in Forces(i + 1)}
Cost(P, x) == VSum([k \in 1..Len(P) |-> IF P[k].hard THEN 0 ELSE LET r == KResidual(P[k], x) IN P[k].w * VDot(r, r)])
Js == [i \in 1..Len(Active) |-> ContactJac(id.contacts[Active[i]])]
Solid(B) == [A |-> MScale(1, B.A), b |-> VScale(1, B.b), ineq |-> B.ineq, hard |-> B.hard, w |-> B.w]     \* evaluated once
TauAt(tau, x) == VAdd(MV(tau.A, x), tau.b)
Applied(a) == LET v == VAdd(conf.v, VScale(id.dt, a)) IN [conf EXCEPT !.v = v, !.a = a, !.q = VAdd(conf.q, VScale(id.dt, SubSeq(v, 7, 9)))]

Best ==
  LET tau == TLCEval(TauOf(TLCEval(MassMatrix(kin)), TLCEval(Drift), TLCEval(Js)))
      P0 == TLCEval(All(Parts(tau, Sizes)))
      P == TLCEval([k \in 1..Len(P0) |-> Solid(P0[k])])
      F == TLCEval({x \in {VZero(6) \o a \o f : a \in Accs, f \in Forces(1)} : KFeasible(P, x, 0)})
      V == TLCEval({<<Cost(P, x), x>> : x \in F})
      least == TLCEval(Min({p[1] : p \in V}))
  IN {[x |-> p[2], tau |-> TauAt(tau, p[2])] : p \in {p \in V : p[1] = least}}

MCNext ==
  \/ \E j \in {1, 3}, x \in {-1, 2, 3}, p \in Prios :
       Do([op |-> "joints", j |-> j, x |-> x, prio |-> p]) /\ Put([type |-> "joints", joints |-> <<[j |-> j, x |-> x, dx |-> 0, ddx |-> 0]>>], p, 1)
  \/ \E j \in {1, 2}, x \in {1, 5}, p \in Prios :
       Do([op |-> "torque", j |-> j, x |-> x, prio |-> p]) /\ Put([type |-> "torque", joints |-> <<[j |-> j, x |-> x, kd |-> 0]>>], p, 1)
  \/ Do([op |-> "gear"]) /\ Put([type |-> "gear", gears |-> <<[j |-> 1, src |-> <<[j |-> 3, r |-> 1]>>]>>], "hard", 1)
  \/ \E x \in {-2, 2} : Do([op |-> "wrench", x |-> x]) /\ Touch([type |-> "external", f |-> 3, ref |-> "lwa", wrench |-> <<x, 1, 0, 0, 0, 0>>])
  \/ /\ Do([op |-> "point"]) /\ \A i \in 1..Len(id.contacts) : id.contacts[i].type # "point"
     /\ LET t == NewTask([type |-> "position", f |-> 4, x |-> <<0, 0, 0>>, dx |-> <<0, 0, 0>>, ddx |-> <<0, 0, 0>>,
                          mask |-> [axes |-> <<1, 2, 3>>, frame |-> "task", R |-> MId(3)]]) IN
        \* the task of the contact has been removed from the solver
        SetID([id EXCEPT !.tasks = Append(@, MergeR(t, [in |-> FALSE])),
                         !.contacts = Append(@, MergeR(NewContact([type |-> "point", pos |-> Len(id.tasks) + 1, uni |-> TRUE]), [wf |-> 1]))])
  \/ \E w \in {"tl", "vl", "jl"} : Do([op |-> w]) /\ SetID(MergeR(id, [x \in {w} |-> ~id[w]]))
  \/ Do([op |-> "damp"]) /\ SetID([id EXCEPT !.damping = 2])
  \/ /\ Do([op |-> "vel"]) /\ conf' = [conf EXCEPT !.v = [@ EXCEPT ![7] = 1 - @]] /\ kin' = kin /\ UNCHANGED <<rob, lim, id>>
  \/ /\ IDTasks # <<>> /\ Do([op |-> "remove"]) /\ SetID([id EXCEPT !.tasks = [@ EXCEPT ![IDTasks[1]] = MergeR(@, [in |-> FALSE])]])
  \/ /\ Active # <<>> /\ Do([op |-> "off"]) /\ SetID([id EXCEPT !.contacts = [@ EXCEPT ![Active[1]] = MergeR(@, [active |-> FALSE])]])
  \/ /\ IDTasks # <<>> /\ Do([op |-> "clear"])
     /\ LET Out(s) == [i \in 1..Len(s) |-> MergeR(s[i], [in |-> FALSE])] IN SetID([id EXCEPT !.tasks = Out(@), !.contacts = Out(@)])
  \/ /\ out = <<>> /\ Len(hist) = Depth
     /\ LET B == TLCEval(Best) IN
        IF B = {} THEN out' = [ok |-> FALSE, before |-> conf] /\ UNCHANGED <<robotVars, id, hist>>
        ELSE \E r \in B : /\ out' = [ok |-> TRUE, before |-> conf, x |-> r.x, tau |-> r.tau]
                          /\ conf' = Applied(SubSeq(r.x, 1, 9)) /\ kin' = KinOf(Applied(SubSeq(r.x, 1, 9))) /\ UNCHANGED <<rob, lim, id, hist>>
MCSpec == MCInit /\ [][MCNext]_vars

----------------------------------------------------------------------------
Solved == out # <<>> /\ out.ok
Acc(j) == out.x[6 + j]
\* force of the i-th active contact
Off(i) == 9 + SumInt(Sizes, i - 1)
Sum(kind, k) == VSum([i \in 1..Len(Active) |-> IF id.contacts[Active[i]].type = kind THEN out.x[Off(i) + k] ELSE 0])
Newton == Solved =>      \* wrenches act on the body of j2, points on the body of j3
  /\ out.tau[7] + Sum("external", 1) + Sum("point", 1) = 3 * Acc(1) + Acc(3) + id.damping * out.before.v[7]
  /\ out.tau[8] + Sum("external", 2) = Acc(2)
  /\ out.tau[9] + Sum("point", 1) = Acc(3) + Acc(1)
Touches == Solved => \A i \in 1..Len(Active) : LET c == id.contacts[Active[i]] IN
  IF c.type = "external" THEN \A k \in 1..6 : out.x[Off(i) + k] = c.wrench[k]
  ELSE out.x[Off(i) + 3] >= 0 /\ NAbs(out.x[Off(i) + 1]) <= out.x[Off(i) + 3]
Limits == Solved =>
  /\ id.tl => \A j \in 1..3 : NAbs(out.tau[6 + j]) <= lim.tmax[j]
  /\ id.vl => \A j \in 1..3 : NAbs(conf.v[6 + j]) <= lim.vmax[j]
  \* it was possible to stop before the limit with a deceleration of 1, from the new speed
  /\ id.jl => \A j \in 1..3 : LET v == conf.v[6 + j] IN v * v <= 2 * (IF v > 0 THEN lim.hi[j] - out.before.q[j] ELSE out.before.q[j] - lim.lo[j])
Hard == Solved => \A i \in 1..Len(id.tasks) : LET t == id.tasks[i] IN (t.in /\ t.prio = "hard") =>
  CASE t.type = "joints" -> Acc(t.joints[1].j) = t.joints[1].x - out.before.q[t.joints[1].j]
    [] t.type = "torque" -> out.tau[6 + t.joints[1].j] = t.joints[1].x
    [] OTHER -> Acc(1) = Acc(3)
Moves == Solved => conf.base = I4 /\ \A j \in 1..3 : conf.v[6 + j] = out.before.v[6 + j] + Acc(j)
Refused == (out # <<>> /\ ~out.ok) => conf = out.before
\* with nothing else than forces, the torques that hold the robot cost the least
Rest == (Solved /\ IDTasks = <<>> /\ Active = <<>> /\ ~(id.jl \/ id.vl) /\ (id.damping = 0 \/ out.before.v[7] = 0)) => \A j \in 1..3 : Acc(j) = 0
Emit == (out = <<>> /\ Len(hist) = Depth) => PrintT(<<"BEH", ToJson([hist |-> hist, wit |-> LET B == TLCEval(Best) IN IF B = {} THEN <<>> ELSE (CHOOSE r \in B : TRUE).x])>>)
=============================================================================
