------------------------------ MODULE IoTrace ------------------------------
(* Checks traces recorded by harness/drv_io.cpp against IoSys. *)
EXTENDS IoSys, TraceIO

VARIABLE l
tvars == <<iovars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1
Outcome == IF ret'.ok THEN Must(IsOk(ev), ev.op, ret', ev.out) ELSE Must(IsRefusal(ev), ev.op, "refused", ev.out)
Val(same(_, _)) == IF ret'.ok THEN Must(IF IsOk(ev) THEN same(ret'.v, ev.out.v) ELSE FALSE, ev.op, ret', ev.out) ELSE Must(IsRefusal(ev), ev.op, "refused", ev.out)
Exact(x, y) == x = y
SameRows(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RVSame(x[i], y[i])
(* edges and contents come back bit by bit, as long as nothing is computed *)
SameHist(x, y) ==
    /\ Len(x.axes) = Len(y.axes) /\ RVSame(x.c, y.c)
    /\ \A d \in 1..Len(x.axes) : x.axes[d].name = y.axes[d].name /\ x.axes[d].latex = y.axes[d].latex /\ RVSame(x.axes[d].lo, y.axes[d].lo) /\ RVSame(x.axes[d].hi, y.axes[d].hi)
SameTh(x, y) ==
    /\ Len(x.axes) = Len(y.axes) /\ RVClose(x.c, y.c)
    /\ \A d \in 1..Len(x.axes) : x.axes[d].title = y.axes[d].title /\ RVClose(x.axes[d].edges, y.axes[d].edges)

TraceInit == IoInit /\ l = 1
TReset == Is("Reset") /\ dsets' = << >> /\ hists' = << >> /\ disk' = << >> /\ lazy' = << >> /\ rds' = << >> /\ ret' = Done
TraceNext ==
    \/ TReset
    \/ Is("IoDs") /\ IoDs(ev.h, ev.names, ev.rows) /\ Outcome
    \/ Is("IoBig") /\ IsOk(ev) /\ IoBig(ev.h, ev.names, ev.n, ev.out.v)
    \/ Is("IoGet") /\ IoGet(ev.from, ev.h) /\ Val(Exact)
    \/ Is("IoRows") /\ IoRows(ev.from, ev.h) /\ Val(LAMBDA x, y : SameRows(x.rows, y.rows) /\ x.dig = y.dig)
    \/ Is("IoEntry") /\ IoEntry(ev.from, ev.h, ev.i) /\ Val(RVSame)
    \/ Is("IoRm") /\ IoRm(ev.f) /\ Outcome
    \/ Is("IoJunk") /\ IoJunk(ev.f) /\ Outcome
    \/ Is("IoSave") /\ IoSave(ev.from, ev.h, ev.f, ev.tree) /\ Outcome
    \/ Is("IoLoad") /\ IoLoad(ev.f, ev.h) /\ Outcome
    \/ Is("LzNew") /\ LzNew(ev.l, ev.f) /\ Outcome
    \/ Is("LzLoad") /\ LzLoad(ev.l) /\ Outcome
    \/ Is("LzClose") /\ LzClose(ev.l) /\ Outcome
    \/ Is("LzCopy") /\ LzCopy(ev.l, ev.to) /\ Outcome
    \/ Is("LzAssign") /\ LzAssign(ev.l, ev.to) /\ Outcome
    \/ Is("LzDel") /\ LzDel(ev.l) /\ Outcome
    \/ Is("RtTree") /\ RtTree(ev.f, ev.tree, ev.names, ev.types, ev.rows, ev.nt) /\ Outcome
    \/ Is("RtOpen") /\ RtOpen(ev.r, ev.f, ev.tree, ev.kind) /\ Outcome
    \/ Is("RtBaskets") /\ RtBaskets(ev.r) /\ Outcome
    \/ Is("RtDel") /\ RtDel(ev.r) /\ Outcome
    \/ Is("IoHist") /\ IoHist(ev.h, ev.axes, ev.c) /\ Outcome
    \/ Is("IoHistGet") /\ IoHistGet(ev.h) /\ Val(SameHist)
    \/ Is("IoSaveHist") /\ IoSaveHist(ev.h, ev.f, ev.name) /\ Outcome
    \/ Is("IoLoadHist") /\ IoLoadHist(ev.f, ev.h) /\ Outcome
    \/ Is("IoSeeTh") /\ IoSeeTh(ev.f, ev.name) /\ Val(LAMBDA x, y : Len(x) = Len(y) /\ \A k \in 1..Len(x) : SameTh(x[k], y[k]))
    \/ Is("DtTo") /\ DtTo(ev.h, ev.dim, ev.width) /\ Val(SameTh)
    \/ Is("DtFrom") /\ DtFrom(ev.to, ev.axes, ev.c) /\ Outcome
    \/ Is("DtPdf") /\ DtPdf(ev.axes, ev.means, ev.sigmas) /\ Val(RVClose)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceRefusedIsNoop == [][~ret'.ok => UNCHANGED <<dsets, hists, disk, rds>>]_iovars
=============================================================================
