----------------------------- MODULE ParamTrace -----------------------------
(* Checks traces recorded by harness/drv_param.cpp against ParamSys. *)
EXTENDS ParamSys, TraceIO

VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1
Outcome == Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), ev.op, ret', ev.out)
Val(same(_, _)) == Outcome /\ (ret'.ok => Must(same(ret'.v, ev.out.v), ev.op, ret', ev.out))
Fst(q) == {q[k][1] : k \in 1..Len(q)}
Elems(q) == {q[k] : k \in 1..Len(q)}

PmObs(p) == LET v == pms'[p]  o == ev.out.pm
                live == \A n \in DOMAIN v.m : v.m[n].i <= Len(v[v.m[n].src]) IN
    Must(/\ RVSame(v.d, o.d) /\ RVSame(v.c, o.c) /\ Elems(o.names) = DOMAIN v.m /\ Len(o.names) = o.n
         /\ o.live = live
         /\ live => /\ Fst(o.pars) = DOMAIN v.m
                    /\ \A k \in 1..Len(o.pars) : RSame(o.pars[k][2], v[v.m[o.pars[k][1]].src][v.m[o.pars[k][1]].i]), ev.op, v, ev.out)
TNewPm == Is("NewPm") /\ NewPm(ev.p, ev.d, ev.c) /\ Outcome /\ PmObs(ev.p)
TPmAddD == Is("PmAddD") /\ PmAddD(ev.p, ev.i, ev.name) /\ Outcome /\ PmObs(ev.p)
TPmAddC == Is("PmAddC") /\ PmAddC(ev.p, ev.names) /\ Outcome /\ PmObs(ev.p)
TPmAddBase == Is("PmAddBase") /\ PmAddBase(ev.p, ev.base) /\ Outcome /\ PmObs(ev.p)
TPmSet == Is("PmSet") /\ PmSet(ev.p, ev.name, ev.x) /\ Outcome /\ PmObs(ev.p)
TPmGet == Is("PmGet") /\ PmGet(ev.p, ev.name) /\ Val(RSame) /\ PmObs(ev.p)
TPmSets == Is("PmSets") /\ PmSetsSeen(ev.p, ev.dict, ev.out.pm.d, ev.out.pm.c) /\ Outcome /\ PmObs(ev.p)
TPmRename == Is("PmRename") /\ PmRename(ev.p, ev.from, ev.to) /\ Outcome /\ PmObs(ev.p)
TPmClear == Is("PmClear") /\ PmClear(ev.p) /\ Outcome /\ PmObs(ev.p)
TPoke == Is("Poke") /\ Poke(ev.p, ev.src, ev.i, ev.x) /\ Outcome /\ PmObs(ev.p)
TResize == Is("Resize") /\ Resize(ev.p, ev.n) /\ Outcome /\ PmObs(ev.p)

(* names, values, count and the object's own getters tell the same story *)
CpSame(c, o) == /\ o.name = c.name /\ Elems(o.names) = CpNames(c) /\ Fst(o.pars) = CpNames(c)
                /\ \A k \in 1..Len(o.pars) : \E v \in CpVals(c, o.pars[k][1]) : RSame(v, o.pars[k][2])
                /\ Fst(o.gets) = CpNames(c) /\ \A k \in 1..Len(o.gets) : \E v \in CpVals(c, o.gets[k][1]) : RSame(v, o.gets[k][2])
                /\ (Cardinality(CpNames(c)) = Len(c.cells) => o.n = Len(c.cells))
                /\ ("view" \in DOMAIN o => RVSame([k \in 1..Len(c.cells) |-> c.cells[k].v], o.view))
                /\ ("seen" \in DOMAIN o => Fst(o.seen) = CpNames(c) /\ \A k \in 1..Len(o.seen) : \E v \in CpVals(c, o.seen[k][1]) : RSame(v, o.seen[k][2]))
CpObs(h) == Must(CpSame(cps'[h], ev.out.cp), ev.op, cps'[h], ev.out)
Arg == IF "j" \in DOMAIN ev THEN ev.j ELSE <<>>
TNewCp == Is("NewCp") /\ NewCp(ev.h, ev.kind, ev.name, Arg) /\ Outcome /\ (ret'.ok => CpObs(ev.h))
TWrap == Is("Wrap") /\ Wrap(ev.h, ev.kind, ev.name, ev.g) /\ Outcome /\ CpObs(ev.h)
TNewVary == Is("NewVary") /\ NewVary(ev.h, ev.name, ev.g, ev.deps) /\ Outcome /\ CpObs(ev.h)
TCpSet == Is("CpSet") /\ CpSet(ev.h, ev.name, ev.x) /\ Outcome /\ CpObs(ev.h)
TCpGet == Is("CpGet") /\ CpGet(ev.h, ev.name) /\ Outcome /\ (ret'.ok => RSame(ret'.v, ev.out.v)) /\ CpObs(ev.h)
TCpSets == Is("CpSets") /\ CpSets(ev.h, ev.dict) /\ Outcome /\ CpObs(ev.h)
TCpRename == Is("CpRename") /\ CpRename(ev.h, ev.from, ev.to) /\ Outcome /\ CpObs(ev.h)
TCpFunc == Is("CpFunc") /\ CpFunc(ev.h, ev.j) /\ Outcome /\ CpObs(ev.h)
TCpTitle == Is("CpTitle") /\ CpTitle(ev.h, ev.name) /\ Outcome /\ CpObs(ev.h)
TDirect == Is("Direct") /\ Direct(ev.h, ev.k, ev.x) /\ Outcome /\ CpObs(ev.h)
(* assigned to itself it stays as it is *)
TCpCopy == Is("CpCopy") /\ (IF ev.h = ev.to THEN SetCps(ev.h, cps[ev.h]) ELSE CpCopy(ev.h, ev.to)) /\ Outcome /\ CpObs(ev.to)
TCpState == Is("CpState") /\ UNCHANGED vars /\ CpObs(ev.h)
Near(x, y) == RTol(x, y, "1e-9", "3e-9")
TDens == Is("Dens") /\ Dens(ev.h, ev.x, ev.x2) /\ Val(Near) /\ CpObs(ev.h)
TInside == Is("Inside") /\ Inside(ev.h, ev.lo, ev.hi, ev.x2) /\ Val(Near) /\ CpObs(ev.h)
TGaMeans == Is("GaMeans") /\ GaMeans(ev.h, ev.to) /\ Outcome /\ CpObs(ev.h)
TGaWidths == Is("GaWidths") /\ GaWidths(ev.h, ev.to) /\ Outcome /\ CpObs(ev.h)
TGaCut == Is("GaCut") /\ GaCut(ev.h, ev.x) /\ Outcome /\ CpObs(ev.h)
TGaAt == Is("GaAt") /\ GaAt(ev.h, ev.k) /\ Outcome /\ (ret'.ok => Must(RSame(ret'.v.m, ev.out.v[1]) /\ RSame(ret'.v.s, ev.out.v[2]), ev.op, ret', ev.out))
TGaSample == Is("GaSample") /\ GaSample(ev.h, ev.out.u) /\ Outcome /\ Must(\A k \in 1..Len(ret'.v) : Near(ret'.v[k], ev.out.v[k]) /\ Len(ev.out.v) = Len(ret'.v), ev.op, ret', ev.out)
TCoSample == Is("CoSample") /\ CoSample(ev.h, ev.x2, ev.out.u) /\ Outcome /\ Must(Len(ev.out.v) = Len(ret'.v) /\ \A k \in 1..Len(ret'.v) : Near(ret'.v[k], ev.out.v[k]), ev.op, ret', ev.out) /\ CpObs(ev.h)
TVaDep == Is("VaDep") /\ VaDep(ev.h, ev.name, ev.g) /\ Outcome /\ CpObs(ev.h)
TVaKer == Is("VaKer") /\ VaKer(ev.h, ev.g) /\ Outcome /\ CpObs(ev.h)
TGaOver == Is("GaOver") /\ GaOver(ev.h, ev.to) /\ Outcome /\ CpObs(ev.to)
TSqrtAt == Is("SqrtAt") /\ SqrtAt(ev.h, ev.x) /\ Val(Near)

MgShow(q, c, o) ==
    Must(/\ Elems(o.names) = NamesIn(c, q) /\ Fst(o.pars) = NamesIn(c, q) /\ o.n = Cardinality(NamesIn(c, q))
         /\ o.comps = Len(q)
         /\ \A k \in 1..Len(o.pars) : \E v \in CpVals(c[OwnerIn(c, q, o.pars[k][1])], o.pars[k][1]) : RSame(v, o.pars[k][2])
         /\ \A k \in 1..Len(o.cps) : CpSame(c[q[k]], o.cps[k]), ev.op, <<q, c>>, ev.out)
MgObs(g) == MgShow(mgrs'[g], cps', ev.out.mg)
TNewMg == Is("NewMg") /\ NewMg(ev.m) /\ Outcome /\ MgObs(ev.m)
TMgAdd == Is("MgAdd") /\ MgAdd(ev.m, ev.h) /\ Outcome /\ MgObs(ev.m)
TMgClear == Is("MgClear") /\ MgClear(ev.m) /\ Outcome /\ MgObs(ev.m)
TMgSets == Is("MgSets") /\ MgSets(ev.m, ev.dict) /\ Outcome /\ MgObs(ev.m)
TMgGet == Is("MgGet") /\ MgGet(ev.m, ev.name) /\ Outcome /\ (ret'.ok => RSame(ret'.v, ev.out.v))

AxesOf(j) == [d \in 1..Len(j) |-> Axis(j[d].name, "", j[d].lo, j[d].hi)]
OrInf(x, y) == RSame(x, y) \/ RTol(x, y, "1e-8", "1e-9")
TNewCon == Is("NewCon") /\ NewCon(ev.c) /\ Outcome
TCopyCon == Is("CopyCon") /\ CopyCon(ev.c, ev.to) /\ Outcome
TConInd == Is("ConInd") /\ ConInd(ev.c, ev.name, ev.m, ev.hi, IF "lo" \in DOMAIN ev THEN ev.lo ELSE ev.hi) /\ Outcome
TConPair == Is("ConPair") /\ ConPair(ev.c, ev.a, ev.m1, ev.s1, ev.b, ev.m2, ev.s2, ev.corr) /\ Outcome
TConRatio == Is("ConRatio") /\ ConRatio(ev.c, ev.a, ev.b, ev.m, ev.s) /\ Outcome
TConFrac == Is("ConFrac") /\ ConFrac(ev.c, ev.a, ev.b, ev.m, ev.s) /\ Outcome
TConInterp == Is("ConInterp") /\ ConInterp(ev.c, ev.label, Hist(AxesOf(ev.axes), ev.vals)) /\ Outcome
TConShape == Is("ConShape") /\ ConShape(ev.c, ev.dict, ev.co, ev.m, ev.s) /\ Outcome
TConEval == Is("ConEval") /\ ConEval(ev.c, ev.dict) /\ Val(OrInf)

TReset == Is("Reset") /\ pms' = << >> /\ cps' = << >> /\ mgrs' = << >> /\ cons' = << >> /\ ret' = Done
TraceInit == Init /\ l = 1
TraceNext ==
    \/ TNewPm \/ TPmAddD \/ TPmAddC \/ TPmAddBase \/ TPmSet \/ TPmGet \/ TPmSets \/ TPmRename \/ TPmClear \/ TPoke \/ TResize
    \/ TNewCp \/ TWrap \/ TNewVary \/ TCpSet \/ TCpGet \/ TCpSets \/ TCpRename \/ TCpFunc \/ TCpTitle \/ TDirect \/ TCpCopy \/ TCpState
    \/ TGaMeans \/ TGaWidths \/ TGaCut \/ TGaAt \/ TGaSample \/ TGaOver \/ TCoSample \/ TVaDep \/ TVaKer
    \/ TDens \/ TInside \/ TSqrtAt \/ TNewMg \/ TMgAdd \/ TMgClear \/ TMgSets \/ TMgGet
    \/ TNewCon \/ TCopyCon \/ TConInd \/ TConPair \/ TConRatio \/ TConFrac \/ TConInterp \/ TConShape \/ TConEval \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
