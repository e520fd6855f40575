------------------------------ MODULE TraceID ------------------------------
EXTENDS TraceRobot, ID

KeepID == UNCHANGED id
Still == UNCHANGED <<robotVars, id>>
DReset == IsEvent("Reset") /\ rob' = <<>> /\ conf' = <<>> /\ lim' = <<>> /\ kin' = <<>> /\ id' = <<>>
DSolver == IsEvent("IDSolver") /\ id' = IDInit(NJ - 1) /\ UNCHANGED robotVars
DSet == IsEvent("IDSet") /\ SetID(MergeR(id, Ev.ch))
DAddTask == IsEvent("IDAddTask") /\ SetID([id EXCEPT !.tasks = Append(@, NewTask(Ev.t))])
DSetTask == IsEvent("IDSetTask") /\ SetID([id EXCEPT !.tasks = [@ EXCEPT ![Ev.i] = MergeR(@, Ev.ch)]])
DGains == /\ IsEvent("IDGains")       \* set_kp, set_kd: every task of the solver
          /\ SetID([id EXCEPT !.tasks = [i \in 1..Len(@) |-> IF @[i].in THEN MergeR(@[i], Ev.ch) ELSE @[i]]])
DAddContact == IsEvent("IDAddContact") /\ SetID([id EXCEPT !.contacts = Append(@, NewContact(Ev.t))])
DSetContact == IsEvent("IDSetContact") /\ SetID([id EXCEPT !.contacts = [@ EXCEPT ![Ev.i] = MergeR(@, Ev.ch)]])
DAddCon == IsEvent("IDAddCon") /\ SetID([id EXCEPT !.cons = Append(@, MergeR(Ev.t, [in |-> TRUE, prio |-> "soft", w |-> 1]))])
DSetCon == IsEvent("IDSetCon") /\ SetID([id EXCEPT !.cons = [@ EXCEPT ![Ev.i] = MergeR(@, Ev.ch)]])
Out(s) == [i \in 1..Len(s) |-> MergeR(s[i], [in |-> FALSE])]
DClear == IsEvent("IDClear") /\ SetID([id EXCEPT !.tasks = Out(@), !.contacts = Out(@), !.cons = Out(@)])
DCount == IsEvent("IDCount") /\ Still /\ Check("C18.contacts", Ev.n = Cardinality({i \in 1..Len(id.contacts) : id.contacts[i].in}))
DRefused == IsEvent("IDRefused") /\ Still /\ Check(IF Has("solving") THEN "C19.error" ELSE "C18.refused", \A i \in 1..Len(Ev.ok) : ~Ev.ok[i])

\* the first order model of a task, compared through what its rows determine (they can be written in many ways)
DTaskMat ==
  /\ IsEvent("IDTaskMat") /\ Still
  /\ LET t == id.tasks[Ev.i]
         m == TLCEval(IDTask(t))
         tol == "2e-5"
     IN Check("C21." \o t.type,
          IF Len(m.A) = 0 THEN Ev.A = <<>>
          ELSE /\ Len(Ev.A) = Len(m.A)
               /\ MNear(MM(MT(Ev.A), Ev.A), MM(MT(m.A), m.A), tol)
               /\ VNear(MTV(Ev.A, Ev.b, NV), MTV(m.A, m.b, NV), tol)
               /\ NNear(VDot(Ev.b, Ev.b), VDot(m.b, m.b), tol)
               /\ NNear(VNorm(Ev.error), VNorm(m.e), "1e-6") /\ NNear(VNorm(Ev.derror), VNorm(m.de), "1e-6"))

Holds(B, x, tol) == LET r == TLCEval(RowsAt(B, x)) IN
   RowsHold(B, x, NMul(tol, NAdd(1, NMax(VMaxAbs(B.b), VMaxAbs(VSub(r, B.b))))))
HardHold(blocks, x, tol) == \A i \in 1..Len(blocks) : blocks[i].hard => Holds(blocks[i], x, tol)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))

\* a refusal, or a solution which is not the best one, is also the fault of the limits when there are some
Limited == id.tl \/ id.vl \/ id.jl \/ id.vtl \/ Len(id.cons) > 0
DSolved ==
  /\ IsEvent("IDSolve") /\ Ev.ok
  /\ LET act == Active
         Js == TLCEval([i \in 1..Len(act) |-> ContactJac(id.contacts[act[i]])])
         sizes == [i \in 1..Len(act) |-> Len(Js[i])]
         M == TLCEval(MassMatrix(kin))
         tau == TLCEval(TauOf(M, Drift, Js))
         P == TLCEval(Parts(tau, sizes))
         fs == Ev.wrenches
         x == Ev.qdd \o Flat(fs)
         tol == "2e-5"
     IN IF Len(Ev.qdd) # NV \/ Len(Ev.tau) # NV \/ ~VFinite(x) \/ Len(fs) # Len(act) \/ (\E i \in 1..Len(act) : Len(fs[i]) # sizes[i])
        THEN Report("C19.size") /\ Still
        ELSE
        /\ Check("C19.tau_dict", VNear(Ev.tau_dict, SubSeq(Ev.tau, 7, NV), "1e-9"))
        /\ Check("C19.motion", /\ VNear(VAdd(MV(tau.A, x), tau.b), Ev.tau, tol)
                               /\ VNear(VAdd(VAdd(MV(M, Ev.qdd), tau.b), VScale(-1, Ev.tau_contacts)), Ev.tau, tol))
        /\ Check("C19.base", HardHold(P.base, x, tol))
        /\ Check("C19.contacts", HardHold(P.contacts, x, "1e-6"))
        /\ Check("C19.zmp", \A i \in 1..Len(act) : Len(Ev.zmp[i]) > 0 =>
              LET c == id.contacts[act[i]]  f == fs[i]
                  \* the force of a line contact is expressed in the world: what bears is its component normal to the surface
                  fn == IF c.type = "6d" THEN f[3] ELSE VDot([k \in 1..3 |-> c.R[k][3]], SubSeq(f, 1, 3))
              IN NLe("1e-3", NAbs(fn)) =>
              VNear(Ev.zmp[i], IF c.type = "6d" THEN <<NNeg(NDiv(f[5], fn)), NDiv(f[4], fn), 0>> ELSE <<NNeg(NDiv(f[4], fn)), 0, 0>>, "1e-6"))
        /\ Check("C20.limits", HardHold(P.limits, x, "1e-5"))
        /\ Check("C20.collisions", HardHold(P.cons, x, "1e-5"))
        /\ Check("C21.hard", HardHold(P.tasks, x, tol))
        /\ Check("C19.accepted", ~(Has("farkas") /\ KInfeasible(All(P), Ev.farkas, Len(x), "1e-6")))
        /\ Has("mult") => IF KOptimal(All(P), x, "1e-8", Ev.mult, "1e-4", Ev.mag) THEN TRUE
                          ELSE Report(IF Ev.life THEN "C18.optimal" ELSE "C21.optimal") /\ (Limited => Report("C20.optimal"))
        /\ LET c == IF Ev.integrate THEN TLCEval(IDMoved(Ev.qdd, id.dt)) ELSE conf IN
           /\ conf' = c /\ UNCHANGED <<rob, lim, kin, id>>
           /\ Check("C19.integrate", VNear(Ev.q, c.q, "1e-6") /\ MNear(Ev.base, c.base, "1e-6") /\ VNear(Ev.v, c.v, "1e-6") /\ VNear(Ev.a, c.a, "1e-6"))
Wrong(what, ok) == IF ok THEN TRUE
                   ELSE /\ Report((IF Ev.life THEN "C18." ELSE "C19.") \o what) /\ (~Ev.life /\ Limited) => Report("C20." \o what)
                        /\ (~Ev.life /\ ~Limited) => Report("C21." \o what)
\* an error on a well-formed problem
DRaised == IsEvent("IDRaised") /\ Still /\ Wrong("raised", FALSE)
\* a failure: the robot has not moved, and the known solution of the hard requirements (if any) is not one
DFailed ==
  /\ IsEvent("IDSolve") /\ ~Ev.ok /\ Still
  /\ Check("C19.unchanged", VNear(Ev.q, conf.q, "1e-9") /\ MNear(Ev.base, conf.base, "1e-6") /\ VNear(Ev.v, conf.v, "1e-9") /\ VNear(Ev.a, conf.a, "1e-9"))
  /\ Has("witness") =>
       LET act == Active
           Js == TLCEval([i \in 1..Len(act) |-> ContactJac(id.contacts[act[i]])])
           tau == TLCEval(TauOf(MassMatrix(kin), Drift, Js))
           P == TLCEval(Parts(tau, [i \in 1..Len(act) |-> Len(Js[i])]))
       IN Wrong("refused", ~HardHold(All(P), Ev.witness, "1e-5"))
DSync == /\ IsEvent("Sync") /\ conf' = [conf EXCEPT !.q = Ev.q, !.v = Ev.v, !.a = Ev.a, !.base = Ev.base] /\ UNCHANGED <<rob, lim, kin, id>>

DNext == \/ DReset \/ DSolver \/ DSet \/ DAddTask \/ DSetTask \/ DGains \/ DAddContact \/ DSetContact \/ DAddCon \/ DSetCon \/ DClear \/ DCount \/ DRefused
         \/ DTaskMat \/ DSolved \/ DFailed \/ DRaised \/ DSync
         \/ (l <= Len(Trace) /\ Ev.e # "Reset" /\ TNext /\ KeepID)
IDTraceSpec == TraceStart /\ rob = <<>> /\ conf = <<>> /\ lim = <<>> /\ kin = <<>> /\ id = <<>> /\ [][DNext]_<<robotVars, id, l>>
=============================================================================
