------------------------------- MODULE MCGeom -------------------------------
(* Every pair of segments of a small grid: consistency of the predicates; the pairs are replayed on the code. *)
EXTENDS Geom, TLC, Json
CONSTANTS Size
VARIABLES s, o
Pts == {<<x, y>> : x \in 0..Size, y \in 0..Size}
Segs == {[a |-> p, b |-> q] : p \in Pts, q \in Pts} \ {[a |-> p, b |-> p] : p \in Pts}
MCInit == GeomInit /\ s \in Segs /\ o \in Segs
MCNext == UNCHANGED <<geomVars, s, o>>
MCSpec == MCInit /\ [][MCNext]_<<geomVars, s, o>>
Symmetric == /\ Parallel(s, o) = Parallel(o, s)
             /\ ~Parallel(s, o) => (Intersects(s, o) = Intersects(o, s) /\ Meet(s, o) = Meet(o, s) /\ NumS(s, o) = NumO(o, s))
\* the meeting point is on both lines; the segments intersect exactly when it is in both of them
OnBoth == ~Parallel(s, o) =>
   LET d == ADet(s, o)
       S2 == [a |-> VScale(d, s.a), b |-> VScale(d, s.b)]
       O2 == [a |-> VScale(d, o.a), b |-> VScale(d, o.b)]
       m == Meet(s, o)
   IN /\ Aligned(S2, m) /\ Aligned(O2, m)
      /\ LineThrough(s, o) = InSegment(S2, m)
      /\ Intersects(s, o) = (InSegment(S2, m) /\ InSegment(O2, m))
      /\ HalfLineThrough(s, o) = (InSegment(S2, m) /\ NLe(0, VDot(Dir(O2), VSub(m, O2.a))))
Ends == InSegment(s, s.a) /\ InSegment(s, s.b) /\ SegAligned(s, s) /\ (SegAligned(s, o) => Parallel(s, o))
\* orientation of a segment only matters for half lines
Rev(x) == [a |-> x.b, b |-> x.a]
Reversal == ~Parallel(s, o) => /\ Intersects(Rev(s), o) = Intersects(s, o) /\ LineThrough(s, Rev(o)) = LineThrough(s, o)
                               /\ (LineThrough(s, o) => (HalfLineThrough(s, o) \/ HalfLineThrough(s, Rev(o))))
Emit == PrintT(<<"BEH", ToJson([s |-> s, o |-> o])>>)
=============================================================================
