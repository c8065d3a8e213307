------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* Reading a recorded trace: one JSON object per public call, written by a  *)
(* conformance driver.  `out` is the outcome: [ok |-> TRUE, v |-> value],   *)
(* [ok |-> TRUE] or [ok |-> FALSE, err |-> kind]; kind "crash" (abort,      *)
(* signal, hang) is never an allowed outcome.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

HasOut(e) == "out" \in DOMAIN e
IsRefusal(e) == ~e.out.ok /\ e.out.err # "crash"
IsOk(e) == e.out.ok

(* TRUE if c, otherwise say what disagreed and be FALSE *)
Must(c, what, exp, got) == IF c THEN TRUE ELSE PrintT(<<"DISAGREE", what, "spec", exp, "impl", got>>) /\ FALSE

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
