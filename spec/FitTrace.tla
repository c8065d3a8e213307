------------------------------ MODULE FitTrace ------------------------------
(* Checks traces recorded by harness/drv_fit.cpp against FitSys. *)
EXTENDS FitSys, TraceIO

VARIABLE l
tvars == <<fvars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1
Near(x, y) == RTol(x, y, "1e-7", "1e-7")
NearV(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : (RSame(x[k], y[k]) \/ Near(x[k], y[k]))
Outcome == Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), ev.op, ret', ev.out)
Val(same(_, _)) == Outcome /\ (ret'.ok => Must(same(ret'.v, ev.out.v), ev.op, ret', ev.out))
AxesOf(j) == [d \in 1..Len(j) |-> Axis(j[d].name, "", j[d].lo, j[d].hi)]
HistOf(j) == Hist(AxesOf(j.axes), j.c)
SameHist(h, j) == /\ Len(j.axes) = Len(h.axes) /\ RVSame(h.c, j.c)
                  /\ \A d \in 1..Len(h.axes) : h.axes[d].name = j.axes[d].name /\ RVSame(h.axes[d].lo, j.axes[d].lo) /\ RVSame(h.axes[d].hi, j.axes[d].hi)
HistMap(j) == [n \in {j[k].name : k \in 1..Len(j)} |-> HistOf(j[CHOOSE k \in 1..Len(j) : j[k].name = n])]
SameMap(m, j) == Len(j) = Cardinality(DOMAIN m) /\ \A k \in 1..Len(j) : j[k].name \in DOMAIN m /\ SameHist(m[j[k].name], j[k])
SameRows(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : RVSame(a[k], b[k])

TStNew == Is("StNew") /\ StNew(ev.h, {ev.names[k] : k \in 1..Len(ev.names)}, ev.terms) /\ Outcome

(* fit results *)
SameFit(f, o) == /\ SameFn(f.best, o.best) /\ RSame(f.ext, o.ext) /\ f.valid = o.valid /\ f.prec = o.prec /\ SameRows(f.sample, o.sample) /\ SameRows(f.cov, o.cov)
                 /\ SameMap(f.p1, o.p1) /\ SameMap(f.p2, o.p2) /\ f.has = o.has /\ (f.has => SameHist(f.space, o.space))
(* every fit result there is *)
FitObs == /\ Must(Len(ev.out.fits) = Cardinality(DOMAIN fits'), ev.op, DOMAIN fits', ev.out)
          /\ \A k \in 1..Len(ev.out.fits) : LET o == ev.out.fits[k] IN Must(o.f \in DOMAIN fits' /\ SameFit(fits'[o.f], o), ev.op, fits'[o.f], o)
TFrNew == Is("FrNew") /\ FrNew(ev.f) /\ Outcome /\ FitObs
TFrBest == Is("FrBest") /\ FrBest(ev.f, ev.d) /\ Outcome /\ FitObs
TFrExt == Is("FrExt") /\ FrExt(ev.f, ev.x) /\ Outcome /\ FitObs
TFrValid == Is("FrValid") /\ FrValid(ev.f, ev.on) /\ Outcome /\ FitObs
TFrPrec == Is("FrPrec") /\ FrPrec(ev.f, ev.n) /\ Outcome /\ FitObs
TFrSpace == Is("FrSpace") /\ FrSpace(ev.f, HistOf(ev.hist)) /\ Outcome /\ FitObs
TFrSample == Is("FrSample") /\ FrSample(ev.f, ev.rows) /\ Outcome /\ FitObs
TFrCov == Is("FrCov") /\ FrCov(ev.f, ev.rows) /\ Outcome /\ FitObs
TFrProj == Is("FrProj") /\ FrProj(ev.f, ev.which, HistMap(ev.hists)) /\ Outcome /\ FitObs
TFrGetSpace == Is("FrGetSpace") /\ FrGetSpace(ev.f) /\ Val(SameHist) /\ FitObs
(* drop: the original is gone once it is copied *)
TFrCopy == /\ Is("FrCopy")
           /\ IF "drop" \in DOMAIN ev THEN /\ fits' = [g \in (DOMAIN fits \cup {ev.to}) \ {ev.f} |-> IF g = ev.to THEN fits[ev.f] ELSE fits[g]]
                                         /\ ret' = Done /\ UNCHANGED <<stats, grids, acs, orbs>>
              ELSE FrCopy(ev.f, ev.to)
           /\ Outcome /\ FitObs
TFrDel == Is("FrDel") /\ FrDel(ev.f) /\ Outcome /\ FitObs
(* rounded to the digits asked for, at least as good as half of the last *)
Ten(k) == IF k = 0 THEN "1" ELSE FoldLeft(LAMBDA a, i : RMul(a, "10"), "1", [i \in 1..k |-> i])
Rounded(x, o, p) == RTol(x, o.v, RDiv("0.5000001", Ten(IF p = 0 THEN 0 ELSE p - 1)), "0") /\ o.digits <= (IF p = 0 THEN 1 ELSE p)
SameLines(f, o) == Len(o) = Cardinality(DOMAIN f) /\ \A k \in 1..Len(o) : o[k].name \in DOMAIN f /\ Rounded(f[o[k].name], o[k], fits[ev.f].prec)
TFrString == Is("FrString") /\ FrString(ev.f) /\ Val(SameLines) /\ FitObs

(* grid searches *)
GrObs(g) == LET t == grids'[g] IN
    Must(SameFn(t.min, ev.out.min) /\ SameFn(t.max, ev.out.max) /\ SameFn(t.step, ev.out.step) /\ t.mx = ev.out.mx
         /\ SameFn(t.res.best, ev.out.best) /\ Near(t.res.ext, ev.out.ext) /\ ev.out.valid = t.res.valid, ev.op, t, ev.out)
TGrNew == Is("GrNew") /\ GrNew(ev.g) /\ Outcome /\ GrObs(ev.g)
TGrMin == Is("GrMin") /\ GrMin(ev.g, ev.d) /\ Outcome /\ GrObs(ev.g)
TGrMax == Is("GrMax") /\ GrMax(ev.g, ev.d) /\ Outcome /\ GrObs(ev.g)
TGrStep == Is("GrStep") /\ GrStep(ev.g, ev.d) /\ Outcome /\ GrObs(ev.g)
TGrMx == Is("GrMx") /\ GrMx(ev.g, ev.on) /\ Outcome /\ GrObs(ev.g)
(* in the parameters the statistic has *)
Only(p) == [n \in stats[ev.s].names |-> p[n]]
Visited == {Fn(ev.out.pts[k]) : k \in 1..Len(ev.out.pts)}
TGrRun == /\ Is("GrRun")
          /\ IF ~GridOk(grids[ev.g], ev.s) THEN FRefuse /\ Outcome
             ELSE \E b \in {Best(grids[ev.g], ev.s)} :
                /\ Must(ev.out.ok, "GrRun refused", b, ev.out)
                /\ Must(Visited = {Only(p) : p \in b.pts}, "GrRun visited", b.pts, Visited)
                /\ Must(Fn(ev.out.best) \in b.at, "GrRun best", b, ev.out)
                /\ GrRunTo(ev.g, b, Fn(ev.out.best))
          /\ GrObs(ev.g)
TGrRes == Is("GrRes") /\ GrRes(ev.g, ev.f) /\ Outcome /\ FitObs

(* intervals *)
TIvHist == /\ Is("IvHist")
           /\ IF ~HistOk(HistOf(ev.hist), ev.cl) THEN FRefuse
              ELSE \E xs \in {Crossing(HistOf(ev.hist), ev.cl)} :
                  /\ Must(ev.out.ok /\ \E x \in xs : Near(x, ev.out.v), "IvHist", xs, ev.out)
                  /\ FQuery(ev.out.v)
           /\ Outcome
TIvCounts == Is("IvCounts") /\ IvCounts(ev.b, ev.n, ev.u) /\ Val(Near)
(* off by a step where it is within tol only to the last digits *)
Slack == "0.000000001"
IsBound(u) == /\ LET k == RDiv(u, ev.tol) IN RClose(k, RFloor(RAdd(k, "1/2")))
              /\ RLe("0", u) /\ RLe(Off(ev.b, ev.n, u, ev.cl), RAdd(ev.tol, Slack))
              /\ RLt("0", u) => RLe(RSub(ev.tol, Slack), Off(ev.b, ev.n, RSub(u, ev.tol), ev.cl))
TIvBound == /\ Is("IvBound")
            /\ IF ~BoundOk(ev.cl, ev.tol) THEN FRefuse ELSE Must(ev.out.ok /\ IsBound(ev.out.v), "IvBound", ev, ev.out) /\ FQuery(ev.out.v)
            /\ Outcome

(* autocorrelations *)
AcObs(a) == LET t == acs'[a] IN t.held # <<>> => Must(Near(AcMean(t), ev.out.mean) /\ Near(AcVar(t), ev.out.var), ev.op, <<t, AcMean(t), AcVar(t)>>, ev.out)
TAcNew == Is("AcNew") /\ AcNew(ev.a, ev.n) /\ Outcome
TAcFill == Is("AcFill") /\ AcFill(ev.a, ev.x) /\ Outcome /\ AcObs(ev.a)
TAcClear == Is("AcClear") /\ AcClear(ev.a) /\ Outcome
(* a spread of nothing but rounding gives anything *)
Spread(a, k) == RLt("1e-9", acs[a].q[k]) \/ REq(acs[a].q[k], "0")
SameAc(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Spread(ev.a, k) => RSame(x[k], y[k]) \/ RTol(x[k], y[k], "1e-5", "1e-5")
TAcGet == Is("AcGet") /\ AcGet(ev.a) /\ Val(SameAc)

(* slopes, energies and leapfrog steps *)
NearD(f, d) == NearFn(f, d, "1e-6")
TSlope == Is("Slope") /\ SlopeQ(ev.s, ev.d, ev.e) /\ Val(NearD)
TEnergy == Is("Energy") /\ EnergyQ(ev.s, ev.d) /\ Val(Near)
TWalled == Is("Walled") /\ WalledQ(ev.s, ev.d, ev.lo, ev.hi, ev.mu) /\ Val(Near)
TOrNew == Is("OrNew") /\ OrNew(ev.o, ev.s, ev.e, ev.m, ev.q, ev.p, ev.lo, ev.hi) /\ Outcome
TOrRun == /\ Is("OrRun")
          /\ \E r \in {Leap(orbs[ev.o], ev.t, ev.n)} :
                /\ r.sure => Must(NearD(r.q, ev.out.q) /\ NearD(r.p, ev.out.p), "OrRun", r, ev.out)
                /\ OrRunTo(ev.o, [q |-> Fn(ev.out.q), p |-> Fn(ev.out.p)])
          /\ Outcome
TOrFlip == Is("OrFlip") /\ OrFlip(ev.o) /\ Outcome
TReset == Is("Reset") /\ stats' = << >> /\ grids' = << >> /\ fits' = << >> /\ acs' = << >> /\ orbs' = << >> /\ ret' = Done
TraceInit == FInit /\ l = 1
TraceNext ==
    \/ TStNew \/ TFrNew \/ TFrBest \/ TFrExt \/ TFrValid \/ TFrPrec \/ TFrSpace \/ TFrSample \/ TFrCov \/ TFrProj \/ TFrGetSpace
    \/ TFrCopy \/ TFrDel \/ TFrString \/ TGrNew \/ TGrMin \/ TGrMax \/ TGrStep \/ TGrMx \/ TGrRun \/ TGrRes
    \/ TIvHist \/ TIvCounts \/ TIvBound \/ TAcNew \/ TAcFill \/ TAcClear \/ TAcGet
    \/ TSlope \/ TEnergy \/ TWalled \/ TOrNew \/ TOrRun \/ TOrFlip \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceRefusedIsNoop == [][~ret'.ok => UNCHANGED fstate]_tvars
=============================================================================
