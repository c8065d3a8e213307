----------------------------- MODULE EventTrace -----------------------------
(* Checks traces recorded by harness/drv_event.cpp against EventSys. *)
EXTENDS EventSys, TraceIO

VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1

TraceRnd(c) == IF "c" \in DOMAIN ev.out /\ Must(RVClose(c, ev.out.c), ev.op, c, ev.out) THEN {ev.out.c} ELSE {}
Outcome == Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), ev.op, ret', ev.out)
Val(same(_, _)) == Outcome /\ (ret'.ok => Must(same(ret'.v, ev.out.v), ev.op, ret', ev.out))
Eq(x, y) == x = y
Fun(pairs) == [n \in {pairs[k][1] : k \in 1..Len(pairs)} |-> pairs[CHOOSE k \in 1..Len(pairs) : pairs[k][1] = n][2]]
EvSame(x, y) == x.names = y.names /\ RVSame(x.data, y.data)
EvClose(x, y) == x.names = y.names /\ RVClose(x.data, y.data)
(* the event a call was given is as it was *)
Src == "src" \in DOMAIN ev.out => Must(RVSame(Entry(ev.d, ev.i).data, ev.out.src), ev.op, Entry(ev.d, ev.i), ev.out)
(* the whole data set, as the implementation has it *)
DsObs(d) == Must(/\ ev.out.ds.names = ds'[d].names /\ ev.out.ds.n = Len(ds'[d].rows)
                 /\ (ds'[d].rows # <<>> => ev.out.ds.nobs = ds'[d].n)
                 /\ \A i \in 1..Len(ds'[d].rows) : RVSame(ds'[d].rows[i], ev.out.ds.rows[i]), ev.op, ds'[d], ev.out)
OptNm(f) == IF f \in DOMAIN ev THEN ev[f] ELSE ""

TNewDs == Is("NewDs") /\ NewDs(ev.d) /\ Outcome
TSetNames == Is("SetNames") /\ SetNames(ev.d, ev.names) /\ Outcome /\ DsObs(ev.d)
TAddEntry == Is("AddEntry") /\ AddEntry(ev.d, ev.row) /\ Outcome /\ DsObs(ev.d)
TCopyDs == Is("CopyDs") /\ CopyDs(ev.d, ev.to) /\ Outcome /\ DsObs(ev.to)
TConcat == Is("Concat") /\ Concat(ev.d, ev.e, ev.to) /\ Outcome /\ (ret'.ok => DsObs(ev.to))
TDsState == Is("DsState") /\ UNCHANGED vars /\ DsObs(ev.d)
TGetEntry == Is("GetEntry") /\ GetEntry(ev.d, ev.i) /\ Val(EvSame)
TDatum == Is("Datum") /\ Datum(ev.d, ev.i, ev.name) /\ Val(RSame)
TDatumAt == Is("DatumAt") /\ DatumAt(ev.d, ev.i, ev.k) /\ Val(RSame)
TToObs == Is("ToObs") /\ ToObs(ev.d, ev.i, ev.names) /\ Val(RVSame)
TEvMut == Is("EvMut") /\ EvMut(ev.d, ev.i, ev.sets) /\ Val(RVSame) /\ Src
(* an event of no data set: numbers without names *)
TFreeEv == Is("FreeEv") /\ UNCHANGED vars
    /\ LET ok == "k" \in DOMAIN ev /\ ev.k < Len(ev.row)
       IN Must(ok = ev.out.ok /\ (ok \/ IsRefusal(ev)) /\ (ok => RSame(ev.row[ev.k + 1], ev.out.v)), "FreeEv", ok, ev.out)
TRelIdx == Is("RelIdx") /\ UNCHANGED vars
    /\ LET ok == Len(ev.of) <= Len(ev.in) /\ \A k \in 1..Len(ev.of) : NameAt(ev.in, ev.of[k]) > 0
       IN Must(ok = ev.out.ok /\ (ok \/ IsRefusal(ev)) /\
               (ok => ev.out.v = [k \in 1..Len(ev.of) |-> NameAt(ev.in, ev.of[k]) - 1]), "RelIdx", ok, ev.out)

CutOf(j) == j
TNewCuts == Is("NewCuts") /\ NewCuts(ev.c) /\ Outcome
TAddCut == Is("AddCut") /\ AddCut(ev.c, ev.cut) /\ Outcome
TCopyCuts == Is("CopyCuts") /\ CopyCuts(ev.c, ev.to) /\ Outcome
TCutNames == Is("CutNames") /\ QCutNames(ev.c) /\ Val(Eq)
TNewK == Is("NewK") /\ NewK(ev.k, ev.cut) /\ Outcome
TKSet == Is("KSet") /\ KSet(ev.k, ev.f, ev.x) /\ Outcome
(* what a cut says of itself: the fields it can be asked for *)
CutSays(c, o) == /\ o.name = c.name
                 /\ "a" \in DOMAIN o => RSame(c.a, o.a)
                 /\ "b" \in DOMAIN o => RSame(c.b, o.b)
                 /\ "side" \in DOMAIN o => o.side = c.side
TKGet == Is("KGet") /\ KGet(ev.k) /\ Val(CutSays)
TKAdd == Is("KAdd") /\ KAdd(ev.c, ev.k) /\ Outcome
TKCopy == Is("KCopy") /\ CopyCuts(ev.k, ev.to) /\ Outcome
TKPass == Is("KPass") /\ Pass(ev.k, ev.d, ev.i) /\ Val(Eq) /\ Src
TPass == Is("Pass") /\ Pass(ev.c, ev.d, ev.i) /\ Val(Eq) /\ Src
LogObs(g) == "log" \in DOMAIN ev.out =>
    Must(ev.out.log.names = logs'[g].names /\ ev.out.log.counts = logs'[g].counts, ev.op, logs'[g], ev.out)
TNewLog == Is("NewLog") /\ NewLog(ev.g, ev.names) /\ Outcome /\ LogObs(ev.g)
TNewLogOf == Is("NewLogOf") /\ NewLog(ev.g, CutNames(cuts[ev.c])) /\ Outcome /\ LogObs(ev.g)
TLogCut == Is("LogCut") /\ LogCut(ev.g, ev.k) /\ Outcome /\ LogObs(ev.g)
TLogPass == Is("LogPass") /\ LogPass(ev.g) /\ Outcome /\ LogObs(ev.g)
TPassLog == Is("PassLog") /\ PassLog(ev.c, ev.g, ev.d, ev.i) /\ Val(Eq) /\ LogObs(ev.g)
(* printed with three significant digits *)
Pct(x, y) == RSame(x, y) \/ RTol(x, y, "0.006", "0.006")
RowOk(x, y) == /\ x.name = y.name /\ x.cut = y.cut /\ x.left = y.left
               /\ Pct(x.pcut, y.pcut) /\ Pct(x.pleft, y.pleft)
RowsOk(xs, ys) == Len(xs) = Len(ys) /\ \A k \in 1..Len(xs) : RowOk(xs[k], ys[k])
TLogLost == Is("QLog") /\ "nofile" \in DOMAIN ev /\ LogLost(ev.g) /\ Outcome
TQLog == Is("QLog") /\ "nofile" \notin DOMAIN ev /\ QLog(ev.g) /\ Outcome
         /\ Must(RowsOk(ret'.v, ev.out.v) /\ RVClose([k \in 1..Len(ret'.v) |-> ret'.v[k].pcut], ev.out.pc), "QLog", ret', ev.out)

TNewSys == Is("NewSys") /\ NewSys(ev.s, ev.kind) /\ Outcome
TSysIn == Is("SysIn") /\ SysIn(ev.s, ev.names) /\ Outcome
TSysOut == Is("SysOut") /\ SysOut(ev.s, ev.names) /\ Outcome
SysObs(s) == Must(/\ IF HasKern(sys'[s]) THEN ev.out.par.names = <<sys'[s].pname>> /\ RSame(ev.out.par.val, sys'[s].val)
                     ELSE ev.out.par.bare
                  /\ ev.out.par.in = sys'[s].in /\ ev.out.par.out = sys'[s].out, ev.op, sys'[s], ev.out)
TSysVal == Is("SysVal") /\ SysVal(ev.s, ev.x) /\ Outcome /\ SysObs(ev.s)
TSysPar == Is("SysPar") /\ SysPar(ev.s, ev.name, ev.x) /\ Outcome /\ SysObs(ev.s)
TSysRename == Is("SysRename") /\ SysRename(ev.s, ev.from, ev.to) /\ Outcome /\ SysObs(ev.s)
(* the numbers there were to draw, and how many were drawn *)
U == IF "u" \in DOMAIN ev THEN ev.u ELSE <<>>
Drew(ss) == ret'.ok => Must((IF "used" \in DOMAIN ev.out THEN ev.out.used ELSE 0) = Drawn(ss), ev.op, ss, ev.out)
TSysKern == Is("SysKern") /\ SysKern(ev.s, ev.how) /\ Outcome /\ SysObs(ev.s)
TApply == Is("Apply") /\ Apply(ev.s, ev.d, ev.i, U) /\ Val(EvClose) /\ Src /\ Drew(<<ev.s>>)
TNewMan == Is("NewMan") /\ NewMan(ev.m) /\ Outcome
TManAdd == Is("ManAdd") /\ ManAdd(ev.m, ev.s) /\ Outcome /\ Must(ev.out.n = Len(mans'[ev.m]), ev.op, mans'[ev.m], ev.out)
TManClear == Is("ManClear") /\ ManClear(ev.m) /\ Outcome /\ Must(ev.out.n = 0, ev.op, 0, ev.out)
TApplyMan == Is("ApplyMan") /\ ApplyMan(ev.m, ev.d, ev.i, U) /\ Val(EvClose) /\ Src /\ Drew(mans[ev.m])

AxesOf(j) == [d \in 1..Len(j) |-> Axis(j[d].name, "", j[d].lo, j[d].hi)]
Canon(c) == [b \in DOMAIN c |-> R(c[b])]
TNewB == Is("NewB") /\ NewB(ev.h, ev.name, AxesOf(ev.axes), Canon(ev.c), ev.obs) /\ Outcome
TNewA == Is("NewA") /\ NewA(ev.h, ev.name, ev.k, ev.co, ev.obs) /\ Outcome
TNewC == Is("NewC") /\ NewC(ev.h, ev.parts) /\ Outcome
TCloneEd == Is("CloneEd") /\ CloneEd(ev.h, ev.to) /\ Outcome
TSetObsEd == Is("SetObsEd") /\ SetObsEd(ev.h, ev.obs) /\ Outcome
TRenameEd == Is("RenameEd") /\ RenameEd(ev.h, ev.name) /\ Outcome
TSetK == Is("SetK") /\ SetK(ev.h, ev.k) /\ Outcome
TNormEd == Is("NormEd") /\ NormEd(ev.h) /\ Outcome
(* a total of almost nothing out of a lot (weights that cancel) is all rounding *)
AbsSum(c) == FoldLeft(LAMBDA a, x : RAdd(a, RAbs(x)), "0", c)
RECURSIVE Ill(_)
Ill(h) == CASE h.kind = "B" -> RLt("0", AbsSum(h.c)) /\ ~RLt(RMul("1e-6", AbsSum(h.c)), RAbs(RSum(h.c)))
            [] h.kind = "A" -> FALSE
            [] OTHER -> \E k \in DOMAIN h.parts : Ill(h.parts[k])
(* also when it is very small *)
CloseTo(x, y) == IF RIsFinite(x) /\ RIsFinite(y) THEN RTol(x, y, "1e-9", "1e-18") ELSE RClose(x, y)
TProbEd == Is("ProbEd") /\ ProbEd(ev.h, ev.d, ev.i) /\ Val(LAMBDA x, y : CloseTo(x, y) \/ Ill(eds[ev.h])) /\ Src
TInfoEd == Is("InfoEd") /\ InfoEd(ev.h)
           /\ Val(LAMBDA x, y : x.dims = y.dims /\ (RClose(x.int, y.int) \/ Ill(eds[ev.h])) /\ x.name = y.name)
TFillEv == Is("FillEv") /\ FillEv(ev.h, ev.d, ev.i, ev.w) /\ Outcome
           /\ Must(RVClose(eds'[ev.h].c, ev.out.c), ev.op, eds'[ev.h].c, ev.out)
TNewM == Is("NewM") /\ NewM(ev.h) /\ Outcome
MObs(h) == Must(/\ RVSame(eds'[h].norms, ev.out.norms) /\ ev.out.n = Len(eds'[h].parts)
                /\ Len(ev.out.pars) = Len(eds'[h].pn)
                /\ \A k \in 1..Len(ev.out.pars) : NameAt(eds'[h].pn, ev.out.pars[k][1]) > 0 /\
                      RSame(eds'[h].norms[NameAt(eds'[h].pn, ev.out.pars[k][1])], ev.out.pars[k][2])
                /\ (eds'[h].parts # <<>> => ev.out.dims = DistDims(eds'[h].parts[1])),
                ev.op, eds'[h], ev.out)
TParsM == Is("ParsM") /\ ParsM(ev.h, Fun(ev.vals)) /\ Outcome /\ MObs(ev.h)
TRenM == Is("RenM") /\ RenM(ev.h, ev.from, ev.to) /\ Outcome /\ MObs(ev.h)
TCopyM == Is("CopyM") /\ CopyM(ev.h, ev.to) /\ Outcome /\ MObs(ev.to)
TAddM == Is("AddM") /\ AddM(ev.h, ev.p) /\ Outcome /\ MObs(ev.h)
TNormsM == Is("NormsM") /\ NormsM(ev.h, ev.norms) /\ Outcome /\ MObs(ev.h)
TParM == Is("ParM") /\ ParM(ev.h, ev.name, ev.x) /\ Outcome /\ MObs(ev.h)
TFillDist == /\ Is("FillDist") /\ FillDist(ev.h, ev.d, ev.c, OptNm("g"), OptNm("m"), ev.n) /\ Outcome
             /\ ("g" \in DOMAIN ev => LogObs(ev.g))

TNewExp == Is("NewExp") /\ NewExp(ev.x) /\ Outcome
TExpCut == Is("ExpCut") /\ ExpCut(ev.x, ev.cut) /\ Outcome
TExpSys == Is("ExpSys") /\ ExpSys(ev.x, ev.s) /\ Outcome
TExpBg == Is("ExpBg") /\ ExpBg(ev.x, ev.d, ev.rate, ev.name) /\ Outcome
TExpSig == Is("ExpSig") /\ ExpSig(ev.x, ev.d, ev.name) /\ Outcome
ResSame(x, y) == /\ x.obs = y.obs /\ RClose(x.eff, y.eff)
                 /\ (x.bgok => /\ RClose(x.total, y.total) /\ RClose(x.error, y.error)
                               /\ RVClose(x.rates, y.rates) /\ RVClose(x.errors, y.errors))
TCountData == Is("CountData") /\ CountData(ev.x, ev.d) /\ Outcome
TCountSig == Is("CountSig") /\ CountSig(ev.x) /\ Outcome
TCountBg == Is("CountBg") /\ CountBg(ev.x) /\ Outcome
(* the summary lists every background once, largest first *)
PrintedAs(x, y) == RSame(x, y) \/ RTol(x, y, "1e-4", "1e-6")
BgRow(b, o) == o[1] = b.name /\ PrintedAs(b.rate, o[2]) /\ PrintedAs(b.err, o[3])
BgList(bg, out) == /\ Len(out) = Len(bg)
                   /\ \A k \in 1..Len(bg) : \E j \in 1..Len(out) : BgRow(bg[k], out[j])
                   /\ \A j \in 1..(Len(out) - 1) : ~RLt(out[j][2], out[j+1][2])
TExpResult == /\ Is("ExpResult") /\ ExpResult(ev.x) /\ Val(ResSame)
              /\ LET r == exps[ev.x].res IN
                 r.bgok =>
                 Must(/\ RowsOk(ExpTables(ev.x), ev.out.tables)
                      /\ ev.out.heads = ExpHeads(ev.x)
                      /\ BgList(r.bg, ev.out.sum.bgs)
                      /\ PrintedAs(r.eff, ev.out.sum.eff) /\ ev.out.sum.obs = r.obs
                      /\ PrintedAs(ret'.v.total, ev.out.sum.total)
                      /\ PrintedAs(ret'.v.error, ev.out.sum.error), "report", <<ExpTables(ev.x), r>>, ev.out)

TReset == /\ Is("Reset") /\ ds' = << >> /\ cuts' = << >> /\ logs' = << >> /\ sys' = << >> /\ mans' = << >>
          /\ eds' = << >> /\ exps' = << >> /\ ret' = Done

TraceInit == Init /\ l = 1
TraceNext ==
    \/ TNewDs \/ TSetNames \/ TAddEntry \/ TCopyDs \/ TConcat \/ TDsState \/ TGetEntry \/ TDatum \/ TDatumAt \/ TToObs
    \/ TEvMut \/ TFreeEv \/ TRelIdx \/ TNewCuts \/ TNewK \/ TKSet \/ TKGet \/ TKAdd \/ TKCopy \/ TKPass \/ TAddCut \/ TCopyCuts \/ TCutNames \/ TPass \/ TNewLog \/ TNewLogOf \/ TLogCut
    \/ TLogPass \/ TPassLog \/ TQLog \/ TLogLost \/ TNewSys \/ TSysIn \/ TSysOut \/ TSysVal \/ TSysPar \/ TSysRename \/ TSysKern \/ TApply
    \/ TNewMan \/ TManAdd \/ TManClear \/ TApplyMan \/ TNewB \/ TNewA \/ TNewC \/ TCloneEd \/ TSetObsEd \/ TRenameEd
    \/ TSetK \/ TNormEd \/ TProbEd \/ TInfoEd \/ TFillEv \/ TNewM \/ TAddM \/ TNormsM \/ TParM \/ TParsM \/ TRenM \/ TCopyM \/ TFillDist
    \/ TNewExp \/ TExpCut \/ TExpSys \/ TExpBg \/ TExpSig \/ TCountData \/ TCountSig \/ TCountBg \/ TExpResult \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
