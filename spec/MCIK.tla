-------------------------------- MODULE MCIK --------------------------------
(***************************************************************************)
(* The kinematics solver on a robot made of three sliding joints: the      *)
(* first order models of the tasks are exact, and every history of Depth   *)
(* edits followed by a solve is enumerated.  The solutions are looked for  *)
(* on a grid of integer displacements; the invariants relate the program   *)
(* (rows) to what the robot does when the displacement is applied.  The    *)
(* histories are replayed on the code.                                     *)
(***************************************************************************)
EXTENDS IK, Json
CONSTANTS Depth
VARIABLES hist, out        \* out: result of the solve (<<>> while editing): [ok, dq, before, s]
vars == <<robotVars, ik, hist, out>>

SlideMotion(kind, a, x) == <<<<1, 0, 0, x * a[1]>>, <<0, 1, 0, x * a[2]>>, <<0, 0, 1, x * a[3]>>, <<0, 0, 0, 1>>>>
Tr(x, y, z) == <<<<1, 0, 0, x>>, <<0, 1, 0, y>>, <<0, 0, 1, z>>, <<0, 0, 0, 1>>>>
J(p, T, k, a) == [parent |-> p, T |-> T, kind |-> k, axis |-> a]
Body(j, m) == [joint |-> j, m |-> m, c |-> <<0, 0, 0>>, I |-> MId(3)]
Model == [joints |-> <<J(0, I4, "F", <<0, 0, 0>>), J(1, Tr(1, 0, 0), "P", <<1, 0, 0>>), J(2, Tr(0, 1, 0), "P", <<0, 1, 0>>), J(2, Tr(0, 0, 1), "P", <<1, 0, 0>>)>>,
          bodies |-> <<Body(1, 1), Body(2, 1), Body(3, 1), Body(4, 1)>>,
          frames |-> <<[joint |-> 1, T |-> I4], [joint |-> 2, T |-> I4], [joint |-> 3, T |-> I4], [joint |-> 4, T |-> I4]>>,
          g |-> <<0, 0, -10>>, rotor |-> <<0, 0, 0>>, base0 |-> I4]
Neutral == [base |-> I4, q |-> <<0, 0, 0>>, v |-> VZero(9), a |-> VZero(9)]

MCInit == /\ rob = Model /\ conf = Neutral /\ kin = KinOf(Neutral)
          /\ lim = [lo |-> <<-2, -2, -2>>, hi |-> <<2, 2, 2>>, vmax |-> <<1, 1, 1>>, tmax |-> <<1, 1, 1>>]
          /\ ik = [dt |-> 1, jl |-> TRUE, vl |-> FALSE, masked |-> {}, fbase |-> TRUE, scale |-> 0, tasks |-> <<>>, cons |-> <<>>]
          /\ hist = <<>> /\ out = <<>>
Do(op) == /\ out = <<>> /\ Len(hist) < Depth /\ hist' = Append(hist, op) /\ out' = <<>>
Prios == {"soft", "hard", "scaled"}
Put(t, prio) == SetIK([ik EXCEPT !.tasks = Append(@, Merge(t, [in |-> TRUE, prio |-> prio, w |-> 1]))])
JTask(j, x) == [type |-> "joints", joints |-> <<[j |-> j, x |-> x]>>]
\* the tip of the third joint (x only), or of the second one (x and y)
PTask(f, x) == [type |-> "position", f |-> f, target |-> <<x, 1, 0>>,
                mask |-> [axes |-> IF f = 4 THEN <<1>> ELSE <<2, 1>>, frame |-> "task", R |-> MId(3)]]

\* ---- solutions on the grid
Grid == [1..3 -> -2..2]
Full(d, s) == VZero(6) \o <<d[1], d[2], d[3]>> \o (IF Scaling THEN <<s>> ELSE <<>>)
Candidates == {Full(d, s) : d \in Grid, s \in {0, 1}}
Cost(P, x) == VSum([k \in 1..Len(P) |-> IF P[k].hard THEN 0 ELSE LET r == KResidual(P[k], x) IN P[k].w * VDot(r, r)])
Best == LET P == TLCEval(Program)
            F == TLCEval({x \in Candidates : KFeasible(P, x, 0)})
            V == TLCEval([x \in F |-> Cost(P, x)])
        IN {x \in F : \A y \in F : V[x] <= V[y]}
Applied(dq) == [conf EXCEPT !.q = VAdd(conf.q, SubSeq(dq, 7, 9))]

MCNext ==
  \/ \E j \in 1..2, x \in {-1, 2, 3}, p \in Prios : Do([op |-> "joints", j |-> j, x |-> x, prio |-> p]) /\ Put(JTask(j, x), p)
  \/ \E f \in {3, 4}, x \in {0, 3}, p \in Prios : Do([op |-> "pos", f |-> f, x |-> x, prio |-> p]) /\ Put(PTask(f, x), p)
  \/ \E j \in {1, 3} : Do([op |-> "mask", j |-> j]) /\ SetIK([ik EXCEPT !.masked = IF j \in @ THEN @ \ {j} ELSE @ \cup {j}])
  \/ Do([op |-> "vl"]) /\ SetIK([ik EXCEPT !.vl = ~@])
  \/ Do([op |-> "jl"]) /\ SetIK([ik EXCEPT !.jl = ~@])
  \/ /\ InTasks # <<>> /\ Do([op |-> "remove"]) /\ SetTask(InTasks[1], [in |-> FALSE])
  \/ /\ InTasks # <<>> /\ Do([op |-> "clear"]) /\ ClearAll
  \/ /\ out = <<>> /\ Len(hist) = Depth /\ InTasks # <<>>
     /\ LET B == TLCEval(Best) IN
        IF B = {} THEN out' = [ok |-> FALSE, before |-> conf, dq |-> VZero(9), s |-> 0] /\ UNCHANGED <<robotVars, ik, hist>>
        ELSE \E x \in B : /\ out' = [ok |-> TRUE, before |-> conf, dq |-> SubSeq(x, 1, 9), s |-> IF Scaling THEN x[10] ELSE 1]
                          /\ conf' = Applied(x) /\ kin' = KinOf(Applied(x)) /\ UNCHANGED <<rob, lim, ik, hist>>
MCSpec == MCInit /\ [][MCNext]_vars

----------------------------------------------------------------------------
Solved == out # <<>> /\ out.ok
Reached(t) == CASE t.type = "joints" -> \A k \in 1..Len(t.joints) : conf.q[t.joints[k].j] = t.joints[k].x
                [] OTHER -> \A a \in 1..Len(t.mask.axes) : FPos(FrameIn(kin, t.f))[t.mask.axes[a]] = t.target[t.mask.axes[a]]
Limits == Solved => /\ ik.jl => \A j \in 1..3 : lim.lo[j] <= conf.q[j] /\ conf.q[j] <= lim.hi[j]
                    /\ ik.vl => \A j \in 1..3 : NAbs(out.dq[6 + j]) <= ik.dt * lim.vmax[j]
Masks == Solved => \A j \in ik.masked : conf.q[j] = out.before.q[j]
BaseStill == Solved => conf.base = out.before.base
Hard == Solved => \A i \in 1..Len(ik.tasks) : (ik.tasks[i].in /\ (ik.tasks[i].prio = "hard" \/ (ik.tasks[i].prio = "scaled" /\ out.s = 1))) => Reached(ik.tasks[i])
\* a scaled task does not move at all when the scale is 0
Still == Solved => \A i \in 1..Len(ik.tasks) : (ik.tasks[i].in /\ ik.tasks[i].prio = "scaled" /\ out.s = 0 /\ ik.tasks[i].type = "joints") =>
            \A k \in 1..Len(ik.tasks[i].joints) : conf.q[ik.tasks[i].joints[k].j] = out.before.q[ik.tasks[i].joints[k].j]
\* a soft task alone on a free joint within the limits is reached
Alone == (Solved /\ Len(InTasks) = 1 /\ ~ik.vl /\ ik.masked = {}) =>
            LET t == ik.tasks[InTasks[1]] IN (t.type = "joints" /\ t.joints[1].x \in {-1, 2}) => Reached(t)
\* refused: the robot is where it was; only hard tasks can be refused here
Refused == (out # <<>> /\ ~out.ok) => conf = out.before /\ \E i \in 1..Len(ik.tasks) : ik.tasks[i].in /\ ik.tasks[i].prio = "hard"
Emit == (out = <<>> /\ Len(hist) = Depth /\ InTasks # <<>>) => PrintT(<<"BEH", ToJson([hist |-> hist])>>)
=============================================================================
