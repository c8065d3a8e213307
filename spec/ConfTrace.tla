----------------------------- MODULE ConfTrace -----------------------------
(* Checks traces recorded by harness/drv_conf.cpp against ConfSys. *)
EXTENDS ConfSys, TraceIO

VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1

(* a missing section and a missing field can be told apart *)
Kind(why, err) == CASE why = "section" -> err = "ConfigSectionMissing"
                    [] why = "field" -> err = "ConfigFieldMissing"
                    [] why = "value" -> err = "ValueError"
                    [] OTHER -> TRUE
Matches(same(_, _)) ==
    IF ret'.ok THEN Must(IsOk(ev) /\ same(ret'.v, ev.out.v), ev.op, ret', ev.out)
    ELSE Must(IsRefusal(ev) /\ Kind(ret'.why, ev.out.err), ev.op, ret', ev.out)
Exact(x, y) == x = y
Void(x, y) == TRUE
Either == Must(IsOk(ev) \/ IsRefusal(ev), ev.op, "any answer", ev.out)
AsSeq(x, y) == IF ev.kind = "set" THEN ToSet(x) = ToSet(y) ELSE x = y
Nums(x, y) == IF ev.kind = "set" THEN {RDouble(v) : v \in ToSet(x)} = {RDouble(v) : v \in ToSet(y)} ELSE RVClose(x, y)

TraceInit == Init /\ l = 1
TReset == Is("Reset") /\ files' = << >> /\ conf' = <<>> /\ ret' = Ok(<<>>)
TraceNext ==
    \/ TReset
    \/ Is("AddLine") /\ AddLine(ev.f, ev.line) /\ Matches(Void)
    \/ Is("Remove") /\ Drop(ev.f) /\ Matches(Void)
    \/ Is("Open") /\ Open(ev.f) /\ Matches(Void)
    \/ Is("Close") /\ Close /\ Matches(Void)
    \/ Is("Sections") /\ Sections /\ Matches(LAMBDA x, y : x = ToSet(y))
    \/ Is("LoadStr") /\ LoadStr(ev.s, ev.k) /\ Matches(Exact)
    \/ Is("LoadNum") /\ LoadNum(ev.s, ev.k, ev.type) /\ ((~SureLoad(ev.s, ev.k, ev.type) /\ Either) \/ (SureLoad(ev.s, ev.k, ev.type) /\ Matches(RClose)))
    \/ Is("LoadStrs") /\ LoadStrs(ev.s, ev.k, ev.pre) /\ Matches(AsSeq)
    \/ Is("LoadNums") /\ LoadNums(ev.s, ev.k, ev.type, ev.pre) /\ ((~SureLoads(ev.s, ev.k, ev.type) /\ Either) \/ (SureLoads(ev.s, ev.k, ev.type) /\ Matches(Nums)))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
