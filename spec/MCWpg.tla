------------------------------- MODULE MCWpg -------------------------------
(***************************************************************************)
(* Every history of a walk: planned, followed up to some moment of some    *)
(* phase, then replanned there (successfully or not), moved, replanned     *)
(* again, and so on.  The histories are replayed on the code.              *)
(* The centre of mass stays still here: the histories are about phases,    *)
(* feet and trunk.                                                         *)
(***************************************************************************)
EXTENDS Wpg, TLC, Json, FiniteSets
CONSTANTS Depth,      \* number of operations after the plan
          Counts      \* number of steps of the plans and replans
VARIABLES hist, was   \* was: what the trajectory was before the last operation, and when this operation happened
vars == <<wpgVars, hist, was>>
Base == [single_support_duration |-> "0.5", single_support_timesteps |-> 5, startend_double_support_ratio |-> "1.4",
         walk_foot_height |-> "0.04", walk_foot_rise_ratio |-> "0.2", walk_com_height |-> "0.3", walk_trunk_pitch |-> "0.1", zmp_margin |-> "0.0",
         walk_max_dx_forward |-> "0.08", walk_max_dx_backward |-> "0.04", walk_max_dy |-> "0.05", walk_max_dtheta |-> "0.4",
         walk_dtheta_spacing |-> "0.05", feet_spacing |-> "0.1301", foot_width |-> "0.09", foot_length |-> "0.15"]
Par(dbl) == [k \in DOMAIN Base \cup {"double_support_ratio"} |-> IF k = "double_support_ratio" THEN (IF dbl THEN "0.6" ELSE 0) ELSE Base[k]]
Ask == <<"0.05", "0.01", "0.2">>
RECURSIVE More(_, _)
\* n steps after the feet fs, the last one next to the other foot
More(fs, n) == IF n = 0 THEN fs
               ELSE The({More(Append(fs, Opposite(f, ClippedSteps("conic", f, IF n = 1 THEN <<0, 0, 0>> ELSE Ask)[1])), n - 1) : f \in {fs[Len(fs)]}})
At == <<Planar("0.3", "0.26505", "0.4"), Planar("0.35066", "0.14523", "0.4")>>
Start(flying) == Initial(flying, At[1], At[2])
Still(ss) == [k \in 1..Len(ss) |-> [j \in 1..PlanSteps(ss[k]) |-> 0]]
Put == Planar("1.0", "-0.5", "2.5")
Fracs == {"0.23", "0.81"}
MCInit ==
  /\ GeomInit /\ steps = <<>> /\ gen = [om2 |-> 32, soft |-> FALSE, wz |-> 1000, wstop |-> 1000] /\ was = <<>>
  /\ \E dbl \in BOOLEAN, flying \in {"left", "right"}, n \in Counts :
       /\ n > 0 /\ par = Par(dbl)
       /\ hist = <<[op |-> "plan", dbl |-> dbl, flying |-> flying, n |-> n]>>
       /\ sups = MakeSupports(More(Start(flying), n), "0.7", TRUE, HasDouble, TRUE)
       /\ traj = Made(sups, "0.7", Still(sups), Still(sups), AtRest(<<0, 0>>))
When(i, f) == NAdd(Parts[i].ts, NMul(f, NSub(Parts[i].te, Parts[i].ts)))
Remember(t, kind) == was' = [traj |-> traj, t |-> t, kind |-> kind]
Replan(i, f, n) ==
  \E t \in {When(i, f)} : \E s \in {SupAt(i, 0)}, x \in {SupAt(i, 1)} :
    \E ss \in {ReplanSups(i, More(<<s.feet[1], FootOf(x, Other(s.feet[1].side))>>, n), t, traj.t0)} :
       /\ CanReplan(i) /\ sups' = ss
       /\ \E from \in {Kept(ss[1], t)} : traj' = Made(ss, t, Still(ss), Still(ss), from)
       /\ hist' = Append(hist, [op |-> "replan", i |-> i, f |-> f, n |-> n]) /\ Remember(t, "replan")
Trim(i, f) ==
  \E t \in {When(i, f)} : /\ traj' = Trimmed(t) /\ UNCHANGED sups
                          /\ hist' = Append(hist, [op |-> "trim", i |-> i, f |-> f]) /\ Remember(t, "trim")
Move == /\ traj' = [traj EXCEPT !.T = MM(Put, @)] /\ UNCHANGED sups
        /\ hist' = Append(hist, [op |-> "move"]) /\ Remember(traj.t0, "move")
MCNext == /\ Len(hist) <= Depth /\ UNCHANGED <<geomVars, par, steps, gen>>
          /\ \/ \E i \in 1..Len(Parts), f \in Fracs : \/ Trim(i, f)
                                                      \/ \E n \in Counts : CanReplan(i) /\ Replan(i, f, n)
             \/ hist[Len(hist)].op # "move" /\ Move
MCSpec == MCInit /\ [][MCNext]_vars

Same(A, B) == MNear(A, B, "1e-7")
Both == {"left", "right"}
N == Len(Parts)
\* phases follow each other, from the start to the end of the trajectory
Contiguous == /\ NNear(Parts[1].ts, traj.t0, "1e-9") /\ NNear(Parts[N].te, traj.te, "1e-9")
              /\ \A k \in 1..(N - 1) : NNear(Parts[k].te, Parts[k + 1].ts, "1e-9")
              /\ \A k \in 1..N : NLt(Parts[k].ts, Parts[k].te)
\* the elapsed part of a phase agrees with the time it started at, whatever the history
PhaseClock == \A k \in 1..N : LET s == Parts[k].sup IN
  /\ NNear(NSub(Parts[k].ts, NMul(s.el, Whole(s))), s.t, "1e-7") /\ NNear(NAdd(s.t, Whole(s)), Parts[k].te, "1e-7")
  /\ NLe(0, s.el) /\ NLt(s.el, 1)
\* the walk ends standing on both feet; between two single supports the feet alternate
Ends == Parts[N].sup.end /\ IsBoth(Parts[N].sup) /\ \A k \in 1..(N - 1) : ~Parts[k].sup.end
Alternate == \A k \in 1..(N - 1) : \A j \in (k + 1)..N :
   (~IsBoth(Parts[k].sup) /\ ~IsBoth(Parts[j].sup) /\ \A m \in (k + 1)..(j - 1) : IsBoth(Parts[m].sup)) => Parts[k].sup.feet[1].side # Parts[j].sup.feet[1].side
\* a foot of a support does not move during its phase, is where the support says; feet never jump
Planted == \A k \in 1..N : \A side \in Both : FootIn(Parts[k].sup, side) =>
   \A t \in {Parts[k].ts, When(k, "0.5"), Parts[k].te} :
      Same(FootT(k, side, t), MM(traj.T, FootOf(Parts[k].sup, side).T)) /\ VNearAbs(FootV(k, side, t), <<0, 0, 0>>, "1e-9")
NoJump == \A k \in 1..(N - 1) : \A side \in Both : Same(FootT(k, side, Parts[k].te), FootT(k + 1, side, Parts[k].te))
\* a flying foot clears the floor half way, unless it was already replanned, and lands softly
Clears == \A k \in 1..N : \A side \in Both : IsFlying(k, side) =>
   /\ VNearAbs(FootV(k, side, Parts[k].te), <<0, 0, 0>>, "1e-7")
   /\ NLt(When(k, 0), NAdd(Parts[k].sup.t, NDiv(Whole(Parts[k].sup), "2.0"))) =>
         NNear(FootT(k, side, NAdd(Parts[k].sup.t, NDiv(Whole(Parts[k].sup), "2.0")))[3][4], par.walk_foot_height, "1e-7")
\* whatever the operation, the robot goes on from where it was: feet, their velocities, and the trunk
Old == INSTANCE Wpg WITH traj <- was.traj
Continuous == was # <<>> =>
  \E i \in PartsAt(was.t), j \in Old!PartsAt(was.t) :
    LET D == IF was.kind = "move" THEN Put ELSE MId(4) IN
    /\ \A side \in Both : /\ Same(FootT(i, side, was.t), MM(D, Old!FootT(j, side, was.t)))
                          /\ VNear(FootV(i, side, was.t), MV(FRot(D), Old!FootV(j, side, was.t)), "1e-7")
    /\ Same(TrunkR(was.t), MM(FRot(D), Old!TrunkR(was.t)))
\* after an unsuccessful replanning the end of the walk is the old one
SameEnd == (was # <<>> /\ was.kind = "trim") => NNear(traj.te, was.traj.te, "1e-9") /\ ~traj.ok /\ Same(FootT(N, "left", traj.te), Old!FootT(Len(Old!Parts), "left", traj.te))
Emit == Len(hist) <= Depth \/ PrintT(<<"BEH", ToJson([hist |-> hist])>>)
=============================================================================
