----------------------------- MODULE AxesTrace -----------------------------
(* Checks traces recorded by harness/drv_axes.cpp against AxesSys. *)
EXTENDS AxesSys, TraceIO

VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1

(* the outcome matches ret': same refusal, or equal by `same` *)
Matches(same(_, _)) ==
    IF ret'.ok THEN Must(IsOk(ev) /\ same(ret'.v, ev.out.v), ev.op, ret', ev.out)
    ELSE Must(IsRefusal(ev), ev.op, ret', ev.out)
Exact(x, y) == x = y
RealsEq(x, y) == RVClose(x, y)
RealSeqsEq(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : RVClose(x[k], y[k])

(* what the driver reports about an axis; its edges are exactly the stored ones *)
AxisObs(a, o) ==
    /\ o.n = NBinsOf(a) /\ o.name = a.name /\ o.latex = a.latex
    /\ RVSame(a.lo, o.lo) /\ RVSame(a.hi, o.hi)
    /\ RVClose([k \in 1..NBinsOf(a) |-> Centre(a, k - 1)], o.ctr)
    /\ RVClose([k \in 1..NBinsOf(a) |-> Width(a, k - 1)], o.wid)
    /\ RClose(a.lo[1], o.min) /\ RClose(a.hi[NBinsOf(a)], o.max)

TNewEq == /\ Is("NewEq")
          /\ NewEqAxis(ev.h, ev.name, ev.latex, ev.min, ev.max, ev.n,
                       IF ev.out.ok THEN ev.out.v.lo ELSE <<>>, IF ev.out.ok THEN ev.out.v.hi ELSE <<>>)
          /\ Matches(AxisObs)
TNewEdge == /\ Is("NewEdge")
            /\ NewEdgeAxis(ev.h, ev.name, ev.latex, ev.lo, ev.hi)
            /\ Matches(AxisObs)
TAxisFind == Is("AxisFind") /\ AxisFind(ev.h, ev.v) /\ Matches(Exact)
TAxisBin == Is("AxisBin") /\ AxisBin(ev.h, ev.i) /\ Matches(RealsEq)
TAxisEq == Is("AxisEq") /\ AxisEq(ev.h, ev.g) /\ Matches(Exact)
TNewCol == Is("NewCol") /\ NewCol(ev.c) /\ IsOk(ev)
ColObs == Must(/\ ev.out.obs.names = Names(cols'[ev.c])
               /\ ev.out.obs.nb = NBins(cols'[ev.c])
               /\ ev.out.obs.nd = Len(cols'[ev.c]), "collection", cols'[ev.c], ev.out)
TAddAxis == Is("AddAxis") /\ AddAxis(ev.c, ev.h)
            /\ Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), "AddAxis", ret', ev.out) /\ ColObs
TAddAxes == Is("AddAxes") /\ AddAxes(ev.c, ev.hs, IF ev.out.obs.nd >= Len(cols[ev.c]) THEN ev.out.obs.nd - Len(cols[ev.c]) ELSE 0)
            /\ Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), "AddAxes", ret', ev.out) /\ ColObs
TColFind == Is("ColFind") /\ ColFind(ev.c, ev.vals) /\ Matches(Exact)
TFlatten == Is("Flatten") /\ Flatten(ev.c, ev.idx) /\ Matches(Exact)
TUnpack == Is("Unpack") /\ Unpack(ev.c, ev.bin) /\ Matches(Exact)
TColBin == Is("ColBin") /\ ColBin(ev.c, ev.bin, ev.dim) /\ Matches(RealsEq)
TColBinAll == Is("ColBinAll") /\ ColBinAll(ev.c, ev.bin, IF "room" \in DOMAIN ev THEN ev.room ELSE Len(cols[ev.c])) /\ Matches(RealSeqsEq)
TColAxis == Is("ColAxis") /\ ColAxis(ev.c, ev.name)
            /\ Matches(LAMBDA x, y : x.idx = y.idx /\ AxisObs(x.ax, y.ax))
TColAxisAt == Is("ColAxisAt") /\ ColAxisAt(ev.c, ev.i) /\ Matches(AxisObs)
TColEq == Is("ColEq") /\ ColEq(ev.c, ev.d) /\ Matches(Exact)
TReset == Is("Reset") /\ axs' = << >> /\ cols' = << >> /\ ret' = Ok(None)

TraceInit == Init /\ l = 1
TraceNext == TNewEq \/ TNewEdge \/ TAxisFind \/ TAxisBin \/ TAxisEq \/ TNewCol \/ TAddAxis \/ TAddAxes \/ TColFind
             \/ TFlatten \/ TUnpack \/ TColBin \/ TColBinAll \/ TColAxis \/ TColAxisAt \/ TColEq \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
