------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Common part of the trace specifications: the recorded trace (one JSON   *)
(* record per line, field "e" is the event name), and the reporting of     *)
(* what the specification does not allow.                                  *)
(*                                                                         *)
(* Check(label, cond) is a conjunct of a trace action: when the recorded   *)
(* observation contradicts the specification it reports the label and the  *)
(* position, and lets the rest of the trace be examined.  A trace is       *)
(* accepted when it has been consumed completely with no report.  When no  *)
(* action explains an event, the trace stops there and is rejected.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Num

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l      \* position in the trace

Ev == Trace[l]
Has(f) == f \in DOMAIN Ev

Report(label) == PrintT(<<"REJECT", label, l>>)
Check(label, cond) == IF cond THEN TRUE ELSE Report(label)

IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

TraceStart == l = 1
TraceAccepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
