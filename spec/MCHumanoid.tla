----------------------------- MODULE MCHumanoid -----------------------------
(***************************************************************************)
(* Histories of a small humanoid changing its support foot, standing on it *)
(* and being turned by its IMU ("stand"), and of the quasi-static walk     *)
(* stepping and being moved ("walk").  They are replayed on the code.      *)
(***************************************************************************)
EXTENDS Humanoid, FiniteSets, Json
CONSTANTS Depth, Modes
VARIABLES mode, hist, stood, fresh, last
vars == <<humVars, mode, hist, stood, fresh, last>>

Tr(x, y, z) == <<<<1, 0, 0, x>>, <<0, 1, 0, y>>, <<0, 0, 1, z>>, <<0, 0, 0, 1>>>>
J(p, T, k, a) == [parent |-> p, T |-> T, kind |-> k, axis |-> a]
Body(j, m, c) == [joint |-> j, m |-> m, c |-> c, I |-> <<<<2, 0, 0>>, <<0, 3, 0>>, <<0, 0, 4>>>>]
\* left leg: a yaw then a slide; right leg: a roll
Model == [joints |-> <<J(0, I4, "F", <<0, 0, 0>>), J(1, Tr(0, 1, -3), "R", <<0, 0, 1>>), J(2, Tr(1, 0, 0), "P", <<0, 0, 1>>), J(1, Tr(0, -1, -3), "R", <<1, 0, 0>>)>>,
          bodies |-> <<Body(1, 2, <<0, 0, 1>>), Body(2, 1, <<1, 0, 0>>), Body(3, 3, <<0, 2, 0>>), Body(4, 1, <<1, 1, 0>>)>>,
          frames |-> <<[joint |-> 1, T |-> Tr(0, 0, 1)], [joint |-> 3, T |-> I4], [joint |-> 4, T |-> Tr(0, -1, -1)]>>,
          g |-> <<0, 0, -10>>, rotor |-> <<0, 0, 0>>, base0 |-> I4]
Quarter == "1.5707963267948966"
Unit0 == [base |-> I4, q |-> <<0, 0, 0>>, v |-> VZero(9), a |-> VZero(9)]
Par == [feet_spacing |-> "0.14", foot_width |-> "0.08", foot_length |-> "0.12", walk_max_dx_forward |-> "0.08", walk_max_dx_backward |-> "0.04",
        walk_max_dy |-> "0.05", walk_max_dtheta |-> "0.3", walk_dtheta_spacing |-> 0, walk_foot_height |-> "0.04", walk_foot_rise_ratio |-> "0.2",
        walk_com_height |-> "0.32", walk_trunk_pitch |-> "0.1"]
Start(w) == [w EXCEPT !.next = Landings(w, <<0, 0, 0>>)[1]]
MCInit ==
  /\ mode \in Modes /\ hist = <<>> /\ last = "" /\ GeomInit /\ par = Par /\ steps = <<>> /\ sups = <<>>
  /\ rob = Model /\ lim = <<>> /\ hum = NewHum(2, 3, 1) /\ wt = <<>>
  /\ conf = StandOn(Unit0, 2, I4) /\ kin = KinOf(conf)
  /\ stood = TRUE /\ fresh = TRUE
  /\ dw = IF mode = "walk" THEN Start(StartWalk(FALSE)) ELSE <<>>
Do(op) == Len(hist) < Depth /\ hist' = Append(hist, op) /\ last' = op.op /\ UNCHANGED mode
Rots == <<MId(3), RotExp(<<0, 0, Quarter>>), RotExp(<<"0.3", 0, 0>>), RotExp(<<"0.2", "0.1", "-1.0">>)>>
Horizontal(T) == NLe("0.1", VNorm(<<T[1][1], T[2][1]>>))      \* the yaw is defined
StandOps ==
  /\ mode = "stand" /\ OnlyRobot
  /\ \/ \E x \in {<<1, Quarter>>, <<2, "2.0">>, <<3, "0.5">>} : Do([op |-> "joint", j |-> x[1], x |-> x[2]]) /\ conf' = [conf EXCEPT !.q[x[1]] = x[2]]
                                                             /\ stood' = FALSE /\ fresh' = FALSE /\ UNCHANGED <<rob, lim, kin, hum>>
     \/ ~fresh /\ Do([op |-> "update"]) /\ kin' = KinOf(conf) /\ fresh' = TRUE /\ UNCHANGED <<rob, conf, lim, hum, stood>>
     \/ \E s \in {"left", "right"} : /\ Horizontal(FrameIn(kin, FootFrame(s)))
                                     /\ Do([op |-> "side", side |-> s]) /\ SwitchSupport(s, FootFrame(s)) /\ UNCHANGED <<robotVars, fresh>>
                                     /\ stood' = (stood /\ FootFrame(s) = hum.frame)
     \/ Do([op |-> "floor"]) /\ Stand(hum) /\ stood' = TRUE /\ fresh' = TRUE
     \/ \E k \in 1..Len(Rots) : Do([op |-> "imu", R |-> Rots[k]]) /\ (\E h \in {Turned(Rots[k])} : Stand(h)) /\ stood' = TRUE /\ fresh' = TRUE
Asked == {<<"0.0", "0.0", "0.0">>, <<"0.05", "0.0", "0.1">>, <<"-0.2", "0.1", "-0.5">>, <<"0.02", "-0.04", "0.0">>}
Moves == <<Planar("1.0", "-0.5", "2.0"), Frame(RotExp(<<"0.1", "0.2", "-1.0">>), <<0, 2, "0.3">>)>>
WalkOps ==
  /\ mode = "walk" /\ UNCHANGED <<robotVars, walkVars, hum, wt, stood, fresh>>
  /\ \/ \E d \in Asked : \E w \in {Landed(dw)} : \E D \in {Landings(w, d)} : \E i \in 1..Len(D) :
           Do([op |-> "next", d |-> d]) /\ dw' = [w EXCEPT !.next = D[i]]
     \/ \E k \in 1..2 : Do([op |-> "move", T |-> Moves[k]]) /\ \E w \in {MovedWalk(dw, Moves[k])} : dw' = w
     \/ \E b \in BOOLEAN : Do([op |-> "reset", left |-> b]) /\ dw' = Start(StartWalk(b))
MCNext == StandOps \/ WalkOps
MCSpec == MCInit /\ [][MCNext]_vars

Tol == "1e-6"
Stands == mode = "stand"
\* the support is where it should be whenever the robot has been put on the floor, and doing it again changes nothing
Standing == Stands /\ stood => /\ MNear(FrameIn(kin, hum.frame), hum.T, Tol)
                               /\ MNear(BaseAt(conf, hum.frame, hum.T), conf.base, Tol)
TrunkFollows == Stands /\ last = "imu" => MNear(FRot(FrameIn(kin, hum.trunk)), hist[Len(hist)].R, Tol)
RigidT == Stands => MIsRot(FRot(hum.T), Tol)
FlatSupport == Stands /\ (\A k \in 1..Len(hist) : hist[k].op # "imu") => NNear(hum.T[3][4], 0, Tol) /\ NNear(hum.T[3][3], 1, Tol)
\* turning the robot leaves its support in place; the velocities of a rigid motion around the support keep it there
ImuInPlace == [][(Stands /\ last' = "imu" /\ hist' # hist) => VNear(FPos(hum'.T), FPos(hum.T), Tol)]_vars
SwitchMovesNothing == [][(Stands /\ last' = "side" /\ hist' # hist) => UNCHANGED robotVars]_vars

Walks == mode = "walk"
FlatFeet == Walks => \A k \in 1..3 : LET T == <<dw.L, dw.R, dw.next>>[k] IN NNear(T[3][4], 0, Tol) /\ NNear(T[3][3], 1, Tol)
Reach == Walks => NLe(StepSize("conic", StepBetween(SupportFoot(dw), dw.next)), "1.000001")
Apart == Walks => LET f == SupportFoot(dw) IN ~Overlap(f, [f EXCEPT !.side = Other(f.side), !.T = dw.next], 0, Tie)
\* the flying foot leaves from where it was, lands at next, and lifts in between
Phases == Walks => /\ MNear(FlyingAt(dw, 0), IF dw.left THEN dw.R ELSE dw.L, Tol) /\ MNear(FlyingAt(dw, 1), dw.next, Tol)
                   /\ NNear(Lift("0.5"), par.walk_foot_height, Tol) /\ NLe(0, Lift("0.1")) /\ NNear(Lift("0.1"), Lift("0.9"), Tol)
                   /\ NNear(TrunkAt(dw, "0.5")[3][4], par.walk_com_height, Tol)
\* a step leaves the support foot in place; moving the walk keeps its shape
StepKeeps == [][(Walks /\ last' = "next" /\ hist' # hist) => /\ dw'.left # dw.left
                                                             /\ (IF dw.left THEN MNear(dw'.L, dw.L, Tol) ELSE MNear(dw'.R, dw.R, Tol))]_vars
MoveKeeps == [][(Walks /\ last' = "move" /\ hist' # hist) => /\ MNear(MM(FInv(dw'.L), dw'.R), MM(FInv(dw.L), dw.R), Tol)
                                                             /\ MNear(MM(FInv(dw'.L), dw'.next), MM(FInv(dw.L), dw.next), Tol)]_vars
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson([mode |-> mode, hist |-> hist])>>)
=============================================================================
