------------------------------- MODULE MCWalk -------------------------------
(***************************************************************************)
(* Every sequence of supports made from up to Feet footsteps, for every    *)
(* choice of options and truncation; and every requested step of a grid    *)
(* around the limits, from both sides.  Both are replayed on the code.     *)
(***************************************************************************)
EXTENDS Walk, TLC, Json, FiniteSets
CONSTANTS Feet, Grid
VARIABLES hist, ask
vars == <<walkVars, hist, ask>>
Limits == [walk_max_dx_forward |-> "0.08", walk_max_dx_backward |-> "0.04", walk_max_dy |-> "0.05", walk_max_dtheta |-> "0.4",
           walk_dtheta_spacing |-> "0.05", feet_spacing |-> "0.1301", foot_width |-> "0.09", foot_length |-> "0.15"]
\* the k-th footstep, at k along x (the planner that made it does not matter here)
Foot(k, first) == [side |-> IF k % 2 = 1 THEN first ELSE Other(first), T |-> <<<<1, 0, 0, k>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>>>, w |-> 1, l |-> 1]
Walks == [n : 0..Feet, first : {"left", "right"}, start : BOOLEAN, dbl : BOOLEAN, end : BOOLEAN]
Tenths == {"-0.3", "-0.08", "-0.02", "0.0", "0.03", "0.1", "0.5"}
MCInit ==
  /\ GeomInit /\ par = Limits
  /\ \/ /\ ask = <<>>
        /\ \E w \in Walks : /\ steps = [k \in 1..w.n |-> Foot(k, w.first)]
                            /\ sups = MakeSupports(steps, 5, w.start, w.dbl, w.end) /\ hist = <<w>>
     \/ /\ Grid /\ steps = <<>> /\ sups = <<>> /\ hist = <<>>
        /\ \E x, y, th \in Tenths, side \in {"left", "right"}, kind \in {"ellipsoid", "box", "conic"} : ask = <<side, kind, <<x, y, th>>>>
MCNext == /\ ask = <<>> /\ Len(hist) < 2 /\ UNCHANGED ask
          /\ \E n \in 0..(2 * Feet + 1), close \in BOOLEAN :
               /\ hist' = Append(hist, [n |-> n, close |-> close]) /\ n <= Len(sups) + 1
               /\ IF CanTruncate(sups, n, close) THEN SetSups(Truncate(sups, n, close)) ELSE UNCHANGED walkVars
MCSpec == MCInit /\ [][MCNext]_vars

\* the walk goes through the footsteps one by one, standing on the previous one while a foot moves to the next one
X(f) == f.T[1][4]
Pos(s) == {X(s.feet[i]) : i \in 1..Len(s.feet)}
Sides(s) == {s.feet[i].side : i \in 1..Len(s.feet)}
OneByOne == \A k \in 1..(Len(sups) - 1) : LET a == Pos(sups[k])  b == Pos(sups[k + 1]) IN
  /\ (Cardinality(a) = 1 /\ Cardinality(b) = 1) => \E x \in a : b = {x + 1}               \* the foot that was flying has landed
  /\ (Cardinality(a) = 1 /\ Cardinality(b) = 2) => \E x \in a : b = {x, x + 1}
  /\ (Cardinality(a) = 2 /\ Cardinality(b) = 1) => \E x \in a : (a = {x - 1, x} /\ b = {x})  \* the hindmost foot is lifted
  /\ (Cardinality(a) = 2 /\ Cardinality(b) = 2) => (a = b /\ sups[k + 1].end /\ Len(hist) = 2)      \* closed while standing on both feet
TwoFeet == \A k \in 1..Len(sups) : Cardinality(Sides(sups[k])) = Len(sups[k].feet) /\ Len(sups[k].feet) \in {1, 2}
Marks == \A k \in 1..Len(sups) : (sups[k].start => k = 1 /\ IsBoth(sups[k])) /\ (sups[k].end => k = Len(sups) /\ IsBoth(sups[k]))
OnlyFirstDated == \A k \in 1..Len(sups) : k > 1 => NLt(sups[k].t, 0)
Complete == (ask = <<>> /\ Len(hist) = 1 /\ hist[1].n > 2) =>
  LET w == hist[1]  seen == UNION {Pos(sups[k]) : k \in 1..Len(sups)} IN
  /\ seen = 1..(IF w.end THEN w.n ELSE w.n - 1) /\ (w.end <=> sups[Len(sups)].end) /\ (w.start <=> sups[1].start)
  /\ \/ (w.dbl <=> \E k \in 1..Len(sups) : IsBoth(sups[k]) /\ ~sups[k].start /\ ~sups[k].end)
     \/ (w.n = 3 /\ w.start)
Closed == (Len(hist) = 2 /\ hist[2].close /\ hist[2].n > 0 /\ Len(sups) > hist[2].n) => sups[Len(sups)].end

\* steps: limited, never made larger, kept when small enough, the same for a mirrored request; the soles do not overlap
\* (when they do not in the neutral placement, which is the case here)
F0 == [side |-> ask[1], T |-> MId(4), w |-> par.foot_width, l |-> par.foot_length]
StepProps == ask # <<>> =>
  LET d == ask[3]  kind == ask[2]
      c == TLCEval(Clip(kind, d))
      r == TLCEval(ClippedSteps(kind, F0, d))
      mir == <<d[1], NNeg(d[2]), NNeg(d[3])>>
      F1 == [F0 EXCEPT !.side = Other(ask[1])]
      r1 == TLCEval(ClippedSteps(kind, F1, mir))
  IN /\ NLe(StepSize(kind, c), "1.000000001")
     /\ NLe(StepSize(kind, d), 1) => VNear(c, d, "1e-12")
     /\ VNear(Clip(kind, c), c, "1e-9")
     /\ NLe(StepSize("ellipsoid", d), NAdd(StepSize("conic", d), "1e-12")) /\ NLe(StepSize("conic", d), NAdd(StepSize("box", d), "1e-12"))
     /\ VNear(VCross(c, d), VZero(3), "1e-9") /\ NLe(0, VDot(c, d))
     /\ Len(r) = 1 /\ ~Overlap(F0, Opposite(F0, r[1]), "0.0099", Tie)
     /\ VNear(r1[1], <<r[1][1], NNeg(r[1][2]), NNeg(r[1][3])>>, "1e-9")
     /\ VNear(StepBetween(F0, Opposite(F0, r[1]).T), r[1], "1e-9")
Emit == \/ (ask = <<>> /\ Len(hist) < 2)
        \/ PrintT(<<"BEH", ToJson([hist |-> hist, ask |-> ask])>>)
=============================================================================
