----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace of the implementation and deciding it.          *)
(* VF_TRACE names an ndjson file; each line is one event of the driver.     *)
(* A trace module extends this one, gives the actions that the              *)
(* specification allows, and is run by TLC: the trace is accepted when the  *)
(* whole of it can be taken as a behaviour.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLE l                     \* number of the next line

Ev == Trace[l]
More == l <= Len(Trace)
Adv == l' = l + 1

(* A named condition: TLC reports the name when it does not hold. *)
Chk(nm, c) == IF c THEN TRUE ELSE PrintT(<<"CHECK-FAILED", nm, "line", l>>) /\ FALSE

Has(e, f) == f \in DOMAIN e

(* Scenario separators and the end of the log carry no obligation. *)
Neutral == More /\ Ev.e \in {"sc", "end"} /\ Adv

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN  IF d = Len(Trace) THEN TRUE
        ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
