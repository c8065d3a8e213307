----------------------------- MODULE SmearTrace -----------------------------
(* Checks traces recorded by harness/drv_smear.cpp against SmearSys. *)
EXTENDS SmearSys, TraceIO

VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1
Near(x, y) == RTol(x, y, "1e-9", "3e-9")
NearV(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k])
NearM(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : NearV(x[k], y[k])
(* the matrix or contents the implementation holds, if near enough to the exact ones *)
Shown == IF "resp" \in DOMAIN ev.out THEN ev.out.resp.m
         ELSE IF "t" \in DOMAIN ev.out THEN ev.out.t.m
         ELSE IF "a" \in DOMAIN ev.out THEN ev.out.a.m ELSE <<>>
TraceM(m) == LET x == Shown IN IF Must(NearM(m, x), ev.op, m, ev.out) THEN {x} ELSE {}
TraceC(c) == IF "dist" \in DOMAIN ev.out /\ Must(NearV(c, ev.out.dist.c), ev.op, c, ev.out) THEN {ev.out.dist.c} ELSE {}

Outcome == Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), ev.op, ret', ev.out)
Val(same(_, _)) == Outcome /\ (ret'.ok => Must(same(ret'.v, ev.out.v), ev.op, ret', ev.out))
SameMat(t, o) == o.r = t.r /\ o.c = t.c /\ Len(o.m) = Len(t.m) /\ \A i \in 1..Len(t.m) : RVSame(t.m[i], o.m[i])
MatObs(h, o) == Must(SameMat(mats'[h], o), ev.op, mats'[h], ev.out)
MObs == /\ MatObs(ev.h, ev.out.a)
        /\ "b" \in DOMAIN ev.out => MatObs(ev.g, ev.out.b)
        /\ "t" \in DOMAIN ev.out => MatObs(ev.to, ev.out.t)
TNewMat == Is("NewMat") /\ NewMat(ev.h, ev.kind, ev.r, ev.c) /\ Outcome /\ MObs
TMatSet == Is("MatSet") /\ MatSet(ev.h, ev.i, ev.j, ev.x) /\ Outcome /\ MObs
TMatGet == Is("MatGet") /\ MatGet(ev.h, ev.i, ev.j) /\ Val(RSame) /\ MObs
TMatSets == Is("MatSets") /\ MatSets(ev.h, ev.ts) /\ Outcome /\ MObs
TMatMul == Is("MatMul") /\ MatMul(ev.h, ev.g, ev.to) /\ Outcome /\ MObs
TMatVec == Is("MatVec") /\ MatVec(ev.h, ev.v) /\ Val(NearV) /\ MObs
TMatZero == Is("MatZero") /\ MatZero(ev.h) /\ Outcome /\ MObs
TMatId == Is("MatId") /\ MatId(ev.h) /\ Outcome /\ MObs
TMatScale == Is("MatScale") /\ MatScale(ev.h, ev.k) /\ Outcome /\ MObs
TMatSym == Is("MatSym") /\ MatSym(ev.h, ev.v) /\ Outcome /\ MObs
TMatCopy == Is("MatCopy") /\ MatCopy(ev.h, ev.to) /\ Outcome /\ MObs

RespObs(h) == Must(SameMat(sys'[h].resp, ev.out.resp), ev.op, sys'[h], ev.out)
SysObs(h) == LET s == sys'[h]  o == ev.out IN
    /\ RespObs(h)
    /\ s.kind \in {"shift", "scale", "renorm"} => Must(RSame(o.par, s.p[1]), ev.op, s.p, o.par)
    /\ Must(o.name = s.name /\ o.tobs = s.tobs /\ o.dobs = s.dobs /\ o.axes = Names(s.axes), ev.op, s, o)
AxesOf(j) == [d \in 1..Len(j) |-> Axis(j[d].name, "", j[d].lo, j[d].hi)]
TNewSys == Is("NewSys") /\ NewSys(ev.h, ev.kind, ev.name) /\ Outcome /\ RespObs(ev.h)
TSysFn == Is("SysFn") /\ SetFn(ev.h, ev.p) /\ Outcome /\ SysObs(ev.h)
TSysPar == Is("SysPar") /\ SetPar(ev.h, ev.k, ev.x) /\ Outcome /\ SysObs(ev.h)
TSysAxes == Is("SysAxes") /\ SetAxes(ev.h, AxesOf(ev.axes)) /\ Outcome /\ SysObs(ev.h)
TSysT == Is("SysT") /\ SetTObs(ev.h, ev.o) /\ Outcome /\ SysObs(ev.h)
TSysD == Is("SysD") /\ SetDObs(ev.h, ev.o) /\ Outcome /\ SysObs(ev.h)
TSysResp == Is("SysResp") /\ SetResp(ev.h, ev.g) /\ Outcome /\ SysObs(ev.h)
TSysBuild == Is("SysBuild") /\ Construct(ev.h) /\ Outcome /\ SysObs(ev.h)
TSysCopy == Is("SysCopy") /\ CopySys(ev.h, ev.to) /\ Outcome /\ SysObs(ev.to)

SameD(d, o) == d.name = o.name /\ RVSame(d.c, o.c)
TNewD == Is("NewD") /\ NewD(ev.d, ev.name, AxesOf(ev.axes), ev.c) /\ Outcome
TSmear == /\ Is("Smear") /\ Smear(ev.h, ev.d, ev.to, ev.norm) /\ Val(Near)
          /\ Must(SameD(ds'[IF ev.out.ok THEN ev.to ELSE ev.d], ev.out.dist), "Smear", ds', ev.out)
          /\ "from" \in DOMAIN ev.out => Must(SameD(ds'[ev.d], ev.out.from), "Smear", ds'[ev.d], ev.out)

SmShow(t, s, o) == Must(/\ o.n = FoldLeft(LAMBDA a, k : a + Len(o.groups[k][2]), 0, [k \in 1..Len(o.groups) |-> k])
                        /\ o.ng = Len(o.groups) /\ Cardinality(DOMAIN t.groups) = Len(o.groups)
                        /\ \A k \in 1..Len(o.groups) : /\ o.groups[k][1] \in DOMAIN t.groups
                                                       /\ o.groups[k][2] = [j \in 1..Len(t.groups[o.groups[k][1]]) |-> s[t.groups[o.groups[k][1]][j]].name],
                        ev.op, t, o)
SmObs(m) == SmShow(sms'[m], sys', ev.out.sm)
TNewSm == Is("NewSm") /\ NewSm(ev.m) /\ Outcome /\ SmObs(ev.m)
TSmAdd == Is("SmAdd") /\ SmAdd(ev.m, ev.h, ev.g) /\ Outcome /\ SmObs(ev.m)
TSmReg == Is("SmReg") /\ SmReg(ev.m, ds[ev.d].name, ev.gs) /\ Outcome /\ SmObs(ev.m)
TSmGroup == (Is("SmGroup") \/ Is("SmGroup2") \/ Is("SmGroupN")) /\ SmGroup(ev.m, ev.g) /\ Val(LAMBDA x, y : x = y) /\ SmObs(ev.m)
TSmTotal == Is("SmTotal") /\ SmTotal(ev.m, ev.g) /\ Val(NearM) /\ SmObs(ev.m)
(* keeps the matrices the implementation holds; which of the members a refused construction leaves *)
(* constructed is open                                                                            *)
TSmConstruct ==
    /\ Is("SmConstruct") /\ l <= Len(Trace)
    /\ LET t == sms[ev.m]  o == ev.out
           mem == Members(ev.m)
           good == {h \in mem : CanConstruct(sys[h])}
           sound == good = mem
           got == TLCEval([h \in DOMAIN sys |-> (CHOOSE k \in 1..Len(o.resps) : o.resps[k][1] = h)])
           M(h) == o.resps[got[h]][2]
           Kept(h) == Len(M(h)) = Len(sys[h].resp.m) /\ \A i \in 1..Len(M(h)) : RVSame(sys[h].resp.m[i], M(h)[i])
           New(h) == Defined(sys[h]) => NearM(Response(sys[h]), M(h))
           s == TLCEval([h \in DOMAIN sys |-> IF Kept(h) THEN sys[h] ELSE [Built(sys[h]) EXCEPT !.resp.m = M(h)]])
           done == sound /\ \A g \in Used(t) : Chains(s, t.groups[g])
           T(g) == o.tots[CHOOSE k \in 1..Len(o.tots) : o.tots[k][1] = g][2]
           gs == {o.tots[k][1] : k \in 1..Len(o.tots)}
           has == {g \in gs : T(g).ok}
       IN /\ Must(o.ok = done /\ (o.ok \/ IsRefusal(ev)), "Construct", done, o)
          /\ Must(\A h \in DOMAIN sys : IF h \notin mem THEN Kept(h) ELSE IF done THEN New(h) ELSE Kept(h) \/ (h \in good /\ New(h)), "responses", sys, o)
          /\ Must(gs = DOMAIN t.groups, "groups", t, o)
          /\ IF done
             THEN Must(has = DOMAIN t.tot \cup Used(t) /\ (\A g \in has : NearM(IF g \in Used(t) THEN Chain(s, t.groups[g]).m ELSE t.tot[g].m, T(g).v)), "totals", t, o)
             ELSE Must(\A g \in has : (g \in DOMAIN t.tot /\ NearM(t.tot[g].m, T(g).v))
                                       \/ (g \in Used(t) /\ Chains(s, t.groups[g]) /\ NearM(Chain(s, t.groups[g]).m, T(g).v)), "totals", t, o)
          /\ sys' = s
          /\ sms' = [sms EXCEPT ![ev.m].tot = [g \in has |-> IF g \in Used(t) /\ Chains(s, t.groups[g]) /\ NearM(Chain(s, t.groups[g]).m, T(g).v)
                                                             THEN [Chain(s, t.groups[g]) EXCEPT !.m = T(g).v] ELSE t.tot[g]]]
          /\ ret' = (IF done THEN Done ELSE Refused)
          /\ UNCHANGED <<mats, ds>>
(* keeps what the implementation holds *)
TSmDistort ==
    /\ Is("SmDistort") /\ l <= Len(Trace)
    /\ LET t == sms[ev.m]  o == ev.orig  w == ev.work
           Out(k) == Through(t, Steps(t, ds[o[k]].name), ds[o[k]].c)
           refused == \E k \in 1..Len(o) : Registered(t, o[k]) /\ ~Applies(t, Steps(t, ds[o[k]].name), ds[o[k]].c)
           v == TLCEval([k \in 1..Len(w) |-> IF ~refused /\ Registered(t, o[k]) THEN [ds[o[k]] EXCEPT !.c = Out(k)] ELSE ds[w[k]]])
       IN /\ Must(ev.out.ok = ~refused /\ (ev.out.ok \/ IsRefusal(ev)), "Distort", refused, ev.out)
          /\ Must(\A k \in 1..Len(w) : v[k].name = ev.out.work[k].name /\ NearV(v[k].c, ev.out.work[k].c), "Distort", v, ev.out)
          /\ (~refused => Must(\A k \in 1..Len(w) : Near(IF Registered(t, o[k]) /\ ev.norms THEN RSum(v[k].c) ELSE "-1", ev.out.v[k]), "norms", v, ev.out))
          /\ ds' = [d \in DOMAIN ds |-> IF In(w, d) THEN [v[PosIn(w, d)] EXCEPT !.c = ev.out.work[PosIn(w, d)].c] ELSE ds[d]]
          /\ Must(\A k \in 1..Len(o) : In(w, o[k]) \/ SameD(ds[o[k]], ev.out.orig[k]), "originals", ds, ev.out)
          /\ ret' = (IF refused THEN Refused ELSE Done)
          /\ UNCHANGED <<mats, sys, sms>>

TReset == Is("Reset") /\ mats' = << >> /\ sys' = << >> /\ ds' = << >> /\ sms' = << >> /\ ret' = Done
TraceInit == Init /\ l = 1
TraceNext ==
    \/ TNewMat \/ TMatSet \/ TMatGet \/ TMatSets \/ TMatMul \/ TMatVec \/ TMatZero \/ TMatId \/ TMatScale \/ TMatSym \/ TMatCopy
    \/ TNewSys \/ TSysFn \/ TSysPar \/ TSysAxes \/ TSysT \/ TSysD \/ TSysResp \/ TSysBuild \/ TSysCopy
    \/ TNewD \/ TSmear \/ TNewSm \/ TSmAdd \/ TSmReg \/ TSmGroup \/ TSmTotal \/ TSmConstruct \/ TSmDistort \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceRefusedIsNoop == [][ret' = Refused => UNCHANGED <<mats, ds>>]_tvars
=============================================================================
