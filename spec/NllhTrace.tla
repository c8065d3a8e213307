----------------------------- MODULE NllhTrace -----------------------------
(* Checks traces recorded by harness/drv_nllh.cpp against NllhSys. *)
EXTENDS NllhSys, TraceIO

VARIABLE l
tvars == <<nvars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1
Exact(x) == {x}
Near(x, y) == RTol(x, y, "1e-6", "1e-6")
NearV(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k])
Outcome == Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), ev.op, ret', ev.out)
Val(same(_, _)) == Outcome /\ (ret'.ok => Must(same(ret'.v, ev.out.v), ev.op, ret', ev.out))
SamePars(p, o) == Len(o) = Len(p) /\ \A k \in 1..Len(o) : DHas(p, o[k][1]) /\ RSame(DGet(p, o[k][1]), o[k][2])
AxesOf(j) == [d \in 1..Len(j) |-> Axis(j[d].name, "", j[d].lo, j[d].hi)]
PdfOf(j) == [name |-> j.name, axes |-> AxesOf(j.axes), c |-> j.c, mode |-> j.mode, gen |-> j.gen]

(* managers of distributions *)
BmObs(m) == LET b == bms'[m] IN Must(SamePars(NormPars(b), ev.out.pars) /\ ev.out.n = Len(b.pdfs), ev.op, b, ev.out)
TBmNew == Is("BmNew") /\ NewBm(ev.m) /\ Outcome /\ Must(ev.out.pars = <<>>, "BmNew", <<>>, ev.out)
TBmAdd == Is("BmAdd") /\ BmAdd(ev.m, PdfOf(ev.pdf)) /\ Outcome /\ BmObs(ev.m)
TBmSetNorms == Is("BmSetNorms") /\ BmSetNorms(ev.m, ev.v) /\ Outcome /\ BmObs(ev.m)
TBmSet == Is("BmSet") /\ BmSet(ev.m, ev.name, ev.x) /\ Outcome /\ BmObs(ev.m)
TBmSets == Is("BmSets") /\ BmSets(ev.m, ev.dict) /\ Outcome /\ BmObs(ev.m)
TBmGet == Is("BmGet") /\ BmGet(ev.m, ev.name) /\ Val(RSame) /\ BmObs(ev.m)
TBmRename == Is("BmRename") /\ BmRename(ev.m, ev.from, ev.to) /\ Outcome /\ BmObs(ev.m)
TBmCopy == Is("BmCopy") /\ BmCopy(ev.m, ev.to) /\ Outcome /\ BmObs(ev.m) /\ Must(SamePars(NormPars(bms'[ev.to]), ev.out.cpars), ev.op, bms', ev.out)
BufFrom(q) == [n \in {q[k][1] : k \in 1..Len(q)} |-> LET e == q[CHOOSE k \in 1..Len(q) : q[k][1] = n] IN <<e[2], e[3]>>]
(* what a manager makes of every bin: o *)
Bins(b, o) == /\ Len(o) = Len(Work(b, 1).c)
              /\ \A i \in 1..Len(o) : Near(RDot(Weights(b), [k \in 1..Len(b.pdfs) |-> Work(b, k).c[i]]), o[i])
BmBins(m) == Must(Len(bms'[m].pdfs) > 0 => Bins(bms'[m], ev.out.bins), ev.op, bms'[m], ev.out)
TSgNew == Is("SgNew") /\ SgNew(ev.s) /\ Outcome
TSgAdd == Is("SgAdd") /\ SgAdd(ev.s, ev.h, ev.g) /\ Outcome
TSgReg == Is("SgReg") /\ SgReg(ev.s, ev.name, ev.gs) /\ Outcome
TBmApply == Is("BmApply") /\ BmApply(ev.m, ev.s) /\ Outcome /\ BmBins(ev.m)
TBmShrink == Is("BmShrink") /\ BmShrink(ev.m, BufFrom(ev.buf), ev.ov) /\ Outcome /\ BmBins(ev.m)
TBmAlong == Is("BmAlong") /\ BmAlong(ev.m, ev.names) /\ Outcome /\ BmBins(ev.m)
TBmDel == Is("BmDel") /\ bms' = [m \in DOMAIN bms \ {ev.m} |-> bms[m]] /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, sms, pn, st>> /\ Outcome
TBmBin == Is("BmBin") /\ BmBin(ev.m, ev.i) /\ Val(Near) /\ BmObs(ev.m)
TBmProb == Is("BmProb") /\ BmProb(ev.m, ev.e) /\ Val(Near) /\ BmObs(ev.m)

(* systematics *)
SyObs(h) == LET p == [k \in 1..Len(pn'[h]) |-> <<pn'[h][k], sys'[h].p[k]>>] IN Must(SamePars(p, ev.out.pars), ev.op, p, ev.out)
TSyNew == Is("SyNew") /\ SyNew(ev.h, ev.kind, ev.name, ev.p, ev.names, AxesOf(ev.axes), ev.tobs) /\ Outcome /\ SyObs(ev.h)
TSyPar == Is("SyPar") /\ SyPar(ev.h, ev.k, ev.x) /\ Outcome /\ SyObs(ev.h)

(* statistics *)
(* h is read before the step, its parameters after it *)
ParsObs(h, o) == \E x \in {h} : \E p \in {Pars(x)'} : Must(SamePars(p, o), ev.op, p, ev.out)
StObs(h) == ParsObs(h, ev.out.pars)
TStNew == Is("StNew") /\ StNew(ev.h) /\ Outcome /\ StObs(ev.h)
TStAdd == Is("StAdd") /\ StAdd(ev.h, PdfOf(ev.pdf), ev.gs) /\ Outcome /\ StObs(ev.h)
PdfsOf(q) == [k \in 1..Len(q) |-> PdfOf(q[k])]
TStAdds == Is("StAdds") /\ StAdds(ev.h, PdfsOf(ev.pdfs), ev.gss, "short" \in DOMAIN ev) /\ Outcome /\ StObs(ev.h)
TBmAdds == Is("BmAdds") /\ BmAdds(ev.m, PdfsOf(ev.pdfs), "short" \in DOMAIN ev) /\ Outcome /\ BmObs(ev.m)
TStSetBm == Is("StSetBm") /\ StSetBm(ev.h, ev.m) /\ Outcome /\ StObs(ev.h)
TStSys == Is("StSys") /\ StSys(ev.h, ev.s, ev.g) /\ Outcome /\ StObs(ev.h)
TStBB == Is("StBB") /\ StBB(ev.h, ev.on) /\ Outcome /\ StObs(ev.h)
TStBuf == Is("StBuf") /\ StBuf(ev.h, ev.name, ev.lo, ev.hi) /\ Outcome /\ StObs(ev.h)
TStOv == Is("StOv") /\ StOv(ev.h, ev.on) /\ Outcome /\ StObs(ev.h)
TStDist == Is("StDist") /\ StDist(ev.h, AxesOf(ev.d.axes), ev.d.c) /\ Outcome /\ StObs(ev.h)
TStRows == Is("StRows") /\ StRows(ev.h, ev.names, ev.rows) /\ Outcome /\ StObs(ev.h)
TStCut == Is("StCut") /\ StCut(ev.h, [obs |-> ev.obs, side |-> ev.side, a |-> ev.a]) /\ Outcome /\ StObs(ev.h)
CutOf(j) == [obs |-> j.obs, side |-> j.side, a |-> j.a]
TStCuts == Is("StCuts") /\ StCuts(ev.h, [k \in 1..Len(ev.cuts) |-> CutOf(ev.cuts[k])]) /\ Outcome /\ StObs(ev.h)
TStShape == Is("StShape") /\ StShape(ev.h, ev.dict, ev.co, ev.m, ev.s) /\ Outcome /\ StObs(ev.h)
TStInterp == Is("StInterp") /\ StInterp(ev.h, ev.label, Hist(AxesOf(ev.axes), ev.vals)) /\ Outcome /\ StObs(ev.h)
TStSetCons == Is("StSetCons") /\ StSetCons(ev.h, ev.from) /\ Outcome /\ StObs(ev.h)
TStSetSg == Is("StSetSg") /\ StSetSg(ev.h, ev.s) /\ Outcome /\ StObs(ev.h)
TStCopy == Is("StCopy") /\ StCopy(ev.h, ev.to) /\ Outcome /\ StObs(ev.to) /\ ParsObs(ev.h, ev.out.opars)
TStData == Is("StData") /\ (IF st[ev.h].fresh THEN StData(ev.h) /\ Must(NearV(ret'.v, ev.out.v), ev.op, ret', ev.out) ELSE NQuery("")) /\ Outcome /\ StObs(ev.h)
TStInd == Is("StInd") /\ StInd(ev.h, ev.name, ev.m, ev.lo, ev.hi) /\ Outcome /\ StObs(ev.h)
TStPair == Is("StPair") /\ StPair(ev.h, ev.a, ev.m1, ev.s1, ev.b, ev.m2, ev.s2, ev.corr) /\ Outcome /\ StObs(ev.h)
TStRatio == Is("StRatio") /\ StRatio(ev.h, ev.a, ev.b, ev.m, ev.s) /\ Outcome /\ StObs(ev.h)
TStReg == Is("StReg") /\ StReg(ev.h) /\ Outcome /\ StObs(ev.h)
(* unspecified before an evaluation of these data *)
Counted(t) == t.fresh /\ t.src = "rows"
Held(h, o) == \E x \in {h} : \E p \in {Pars(x)'} : SamePars(p, o)
(* of a refused set those components may have been set that now have the new values *)
Seen(p) == LET k == CHOOSE k \in 1..Len(ev.out.all) : ev.out.all[k][1] = p IN ev.out.all[k][2]
HasNew(c) == LET o == Seen(c[1])  p == CompPars(c[1], c[2]) IN
    \A k \in 1..Len(p) : DHas(ev.dict, p[k][1]) => DHas(o, p[k][1]) /\ RSame(DGet(o, p[k][1]), DGet(ev.dict, p[k][1]))
TStSets == /\ Is("StSets") /\ StSetsUpTo(ev.h, ev.dict, IF ev.out.ok THEN {} ELSE {c \in FullComps(ev.h, ev.dict) : HasNew(c)}) /\ Outcome
           /\ \A k \in 1..Len(ev.out.all) : Must(Held(ev.out.all[k][1], ev.out.all[k][2]), ev.op, ev.out.all[k], ret')
TStEval == Is("StEval") /\ StEval(ev.h) /\ (IF ret' = Vague THEN TRUE ELSE Val(Near)) /\ StObs(ev.h)
TStNorms == Is("StNorms") /\ (IF st[ev.h].fresh THEN StNorms(ev.h) ELSE NQuery("")) /\ Outcome /\ (st[ev.h].fresh => Must(NearV(ret'.v, ev.out.v), "StNorms", ret', ev.out)) /\ StObs(ev.h)
TStSetNorms == Is("StSetNorms") /\ StSetNorms(ev.h, ev.v) /\ Outcome /\ StObs(ev.h)
TStCutLog == Is("StCutLog") /\ (IF Counted(st[ev.h]) THEN StCutLog(ev.h) /\ Val(LAMBDA x, y : x = y) ELSE NQuery("") /\ Outcome) /\ StObs(ev.h)
TSumNew == Is("SumNew") /\ SumNew(ev.h, ev.parts) /\ Outcome /\ StObs(ev.h)
TSumAdd == Is("SumAdd") /\ SumAdd(ev.h, ev.p) /\ Outcome /\ StObs(ev.h)
TSumPlus == Is("SumPlus") /\ SetSt(ev.to, [st[ev.h] EXCEPT !.parts = Append(@, ev.p)]) /\ Outcome /\ StObs(ev.to)

TReset == Is("Reset") /\ mats' = << >> /\ sys' = << >> /\ ds' = << >> /\ sms' = << >> /\ pn' = << >> /\ bms' = << >> /\ st' = << >> /\ ret' = Done
TraceInit == NInit /\ l = 1
TraceNext ==
    \/ TBmNew \/ TBmAdd \/ TBmSetNorms \/ TBmSet \/ TBmSets \/ TBmGet \/ TBmRename \/ TBmCopy \/ TBmDel \/ TBmBin \/ TBmProb \/ TSgNew \/ TSgAdd \/ TSgReg \/ TBmApply \/ TBmShrink \/ TBmAlong
    \/ TSyNew \/ TSyPar \/ TStNew \/ TStAdd \/ TStAdds \/ TBmAdds \/ TStSetBm \/ TStSys \/ TStBB \/ TStBuf \/ TStOv \/ TStDist \/ TStRows \/ TStCut
    \/ TStInd \/ TStPair \/ TStRatio \/ TStReg \/ TStSets \/ TStEval \/ TStNorms \/ TStSetNorms \/ TStCutLog
    \/ TStCuts \/ TStShape \/ TStInterp \/ TStSetCons \/ TStSetSg \/ TStCopy \/ TStData
    \/ TSumNew \/ TSumAdd \/ TSumPlus \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceRefusedIsNoop == [][ret' = Refused => UNCHANGED <<mats, ds, sms, pn, bms>>]_tvars
=============================================================================
