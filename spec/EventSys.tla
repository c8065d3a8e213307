------------------------------ MODULE EventSys ------------------------------
(***************************************************************************)
(* C04, C06-C10, C16: data sets of events with named observables, cuts and  *)
(* cut logs, per-event systematics, distributions that read events, filling *)
(* distributions from data, and counting experiments.                        *)
(***************************************************************************)
EXTENDS Hists

CONSTANT Rnd(_)      \* contents the implementation may hold for exact contents

VARIABLES ds,     \* handle -> [names, n, rows]
          cuts,   \* handle -> sequence of cuts
          logs,   \* handle -> [names, counts, n]
          sys,    \* handle -> [kind, in, out, val, pname]
          mans,   \* handle -> sequence of handles of sys
          eds,    \* handle -> distribution
          exps,   \* handle -> counting experiment
          ret
state == <<ds, cuts, logs, sys, mans, eds, exps>>
vars == <<state, ret>>

Ok(v) == [ok |-> TRUE, v |-> v]
Done == [ok |-> TRUE, v |-> <<>>]
Refused == [ok |-> FALSE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Refuse == ret' = Refused /\ UNCHANGED state
Query(v) == ret' = Ok(v) /\ UNCHANGED state

Init == /\ ds = << >> /\ cuts = << >> /\ logs = << >> /\ sys = << >> /\ mans = << >> /\ eds = << >> /\ exps = << >>
        /\ ret = Done

(***************************************************************************)
(* Events: data with the names that give the numbers their meaning          *)
(***************************************************************************)
NameAt(names, n) == IF \E i \in 1..Len(names) : names[i] = n
                    THEN CHOOSE i \in 1..Len(names) : names[i] = n /\ \A j \in 1..(i-1) : names[j] # n ELSE 0
Has(e, n) == NameAt(e.names, n) \in 1..Len(e.data)
Get(e, n) == e.data[NameAt(e.names, n)]
Set(e, n, v) == [e EXCEPT !.data[NameAt(e.names, n)] = v]
HasAll(e, ns) == \A k \in 1..Len(ns) : Has(e, ns[k])
Pick(e, ns) == [k \in 1..Len(ns) |-> Get(e, ns[k])]
Entry(d, i) == [names |-> ds[d].names, data |-> ds[d].rows[i+1]]
HasEntry(d, i) == i < Len(ds[d].rows)

(***************************************************************************)
(* Data sets                                                                *)
(***************************************************************************)
NewDs(d) == ds' = Put(ds, d, [names |-> <<>>, n |-> 0, rows |-> <<>>]) /\ ret' = Done
            /\ UNCHANGED <<cuts, logs, sys, mans, eds, exps>>
SetDs(d, v) == ds' = Put(ds, d, v) /\ ret' = Done /\ UNCHANGED <<cuts, logs, sys, mans, eds, exps>>
SetNames(d, names) == SetDs(d, [ds[d] EXCEPT !.names = names])
(* the first event fixes the number of observables *)
AddEntry(d, row) == IF Len(row) = 0 \/ (ds[d].n # 0 /\ ds[d].n # Len(row)) THEN Refuse
                    ELSE SetDs(d, [ds[d] EXCEPT !.n = Len(row), !.rows = Append(@, row)])
CopyDs(d, to) == SetDs(to, ds[d])
(* both operands keep what they had; the result has the left one's names *)
Concat(d, e, to) ==
    IF ds[e].rows # <<>> /\ ds[d].n # 0 /\ ds[d].n # ds[e].n THEN Refuse
    ELSE SetDs(to, [ds[d] EXCEPT !.rows = @ \o ds[e].rows, !.n = IF @ = 0 THEN ds[e].n ELSE @])
GetEntry(d, i) == IF HasEntry(d, i) THEN Query(Entry(d, i)) ELSE Refuse
Datum(d, i, n) == IF HasEntry(d, i) /\ Has(Entry(d, i), n) THEN Query(Get(Entry(d, i), n)) ELSE Refuse
DatumAt(d, i, k) == IF HasEntry(d, i) /\ k < Len(ds[d].rows[i+1]) THEN Query(ds[d].rows[i+1][k+1]) ELSE Refuse
ToObs(d, i, ns) == IF HasEntry(d, i) /\ HasAll(Entry(d, i), ns) THEN Query(Pick(Entry(d, i), ns)) ELSE Refuse
(* changing an event handed out: sets is a sequence of <<name or 0-based index, value>>; the data set keeps its own *)
MutOk(e, m) == IF "name" \in DOMAIN m THEN Has(e, m.name) ELSE m.at < Len(e.data)
MutStep(e, m) == IF "name" \in DOMAIN m THEN Set(e, m.name, m.x) ELSE [e EXCEPT !.data[m.at + 1] = m.x]
RECURSIVE MutAll(_, _)
MutAll(e, ms) == IF ms = <<>> THEN [ok |-> TRUE, e |-> e]
                 ELSE IF ~MutOk(e, ms[1]) THEN [ok |-> FALSE, e |-> e]
                 ELSE MutAll(MutStep(e, ms[1]), Tail(ms))
EvMut(d, i, ms) == IF ~HasEntry(d, i) THEN Refuse ELSE LET r == MutAll(Entry(d, i), ms) IN IF r.ok THEN Query(r.e.data) ELSE Refuse

(***************************************************************************)
(* Cuts                                                                     *)
(***************************************************************************)
CutPass(c, v) ==
    CASE c.kind = "bool" -> REq(v, c.a)
      [] c.kind = "line" -> IF c.side = "lower" THEN RLt(c.a, v) ELSE RLt(v, c.a)
      [] c.kind = "box"  -> RLt(c.a, v) /\ RLt(v, c.b)
(* the first cut that fails: [res |-> 0 (passes all), k (failed by k), -1 (no such observable)] *)
RECURSIVE FirstFail(_, _, _)
FirstFail(cs, e, k) == IF k > Len(cs) THEN 0
                       ELSE IF ~Has(e, cs[k].obs) THEN -1
                       ELSE IF CutPass(cs[k], Get(e, cs[k].obs)) THEN FirstFail(cs, e, k + 1) ELSE k
Verdict(cs, e) == FirstFail(cs, e, 1)

SetCuts(c, v) == cuts' = Put(cuts, c, v) /\ ret' = Done /\ UNCHANGED <<ds, logs, sys, mans, eds, exps>>
NewCuts(c) == SetCuts(c, <<>>)
CutValid(cut) == cut.kind = "line" => cut.side \in {"lower", "upper"}
AddCut(c, cut) == IF CutValid(cut) THEN SetCuts(c, Append(cuts[c], cut)) ELSE Refuse
CopyCuts(c, to) == SetCuts(to, cuts[c])
CutNames(cs) == [k \in 1..Len(cs) |-> cs[k].name]
QCutNames(c) == Query(CutNames(cuts[c]))
Pass(c, d, i) == IF ~HasEntry(d, i) THEN Refuse
                 ELSE LET v == Verdict(cuts[c], Entry(d, i)) IN IF v < 0 THEN Refuse ELSE Query(v = 0)
(* a cut of its own, outside any collection, is kept as a collection of one; a collection takes a copy of it *)
NewK(k, cut) == IF CutValid(cut) THEN SetCuts(k, <<cut>>) ELSE Refuse
KSet(k, f, x) == LET c == [cuts[k][1] EXCEPT ![f] = x] IN IF CutValid(c) THEN SetCuts(k, <<c>>) ELSE Refuse
KGet(k) == Query(cuts[k][1])
KAdd(c, k) == SetCuts(c, Append(cuts[c], cuts[k][1]))

NewLogV(names) == [names |-> names, counts |-> [k \in 1..Len(names) |-> 0], n |-> 0]
SetLog(g, v) == logs' = Put(logs, g, v) /\ ret' = Done /\ UNCHANGED <<ds, cuts, sys, mans, eds, exps>>
NewLog(g, names) == SetLog(g, NewLogV(names))
(* k: 0 an event that passed, otherwise the cut that rejected it *)
Logged(g, k) == [g EXCEPT !.n = @ + 1, !.counts = IF k = 0 THEN @ ELSE [@ EXCEPT ![k] = @ + 1]]
LogCut(g, k) == IF k >= Len(logs[g].counts) THEN Refuse ELSE SetLog(g, Logged(logs[g], k + 1))
LogPass(g) == SetLog(g, Logged(logs[g], 0))
PassLog(c, g, d, i) ==
    IF ~HasEntry(d, i) THEN Refuse
    ELSE LET v == Verdict(cuts[c], Entry(d, i)) IN
         IF v < 0 \/ v > Len(logs[g].counts) THEN Refuse
         ELSE /\ logs' = [logs EXCEPT ![g] = Logged(@, v)] /\ ret' = Ok(v = 0)
              /\ UNCHANGED <<ds, cuts, sys, mans, eds, exps>>
(* what a log says: per cut, how many it rejected and how many remained after it *)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
LogRows(g) == [k \in 1..Len(g.counts) |->
                 [name |-> g.names[k], cut |-> g.counts[k], left |-> g.n - SumTo(g.counts, k),
                  pcut |-> RDiv(RMul(g.counts[k], 100), g.n), pleft |-> RDiv(RMul(g.n - SumTo(g.counts, k), 100), g.n)]]
QLog(g) == Query(LogRows(logs[g]))
(* a table that cannot be written is not silently lost *)
LogLost(g) == Refuse

(***************************************************************************)
(* Event systematics                                                        *)
(***************************************************************************)
Default(kind) == CASE kind = "shift" -> "0" [] kind = "conv" -> "none" [] OTHER -> "1"
PName(kind) == CASE kind = "shift" -> "shift" [] kind = "scale" -> "scale" [] kind = "reconv" -> "correction" [] kind = "conv" -> "width"
SetSys(s, v) == sys' = Put(sys, s, v) /\ ret' = Done /\ UNCHANGED <<ds, cuts, logs, mans, eds, exps>>
NewSys(s, kind) == SetSys(s, [kind |-> kind, in |-> <<>>, out |-> <<>>, val |-> Default(kind), pname |-> PName(kind)])
SysIn(s, ns) == SetSys(s, [sys[s] EXCEPT !.in = ns])
SysOut(s, ns) == SetSys(s, [sys[s] EXCEPT !.out = ns])
(* a convolution adds to the observable what its kernel samples, here its one *)
(* parameter times the next number drawn; it has no kernel until it is given  *)
(* one, which has to be of one dimension                                      *)
HasKern(s) == s.kind # "conv" \/ s.val # "none"
SysKern(s, how) == CASE how = "wide" -> Refuse
                     [] how = "none" -> SetSys(s, [sys[s] EXCEPT !.val = "none", !.pname = "width"])
                     [] OTHER -> SetSys(s, [sys[s] EXCEPT !.val = "1", !.pname = "width"])
(* the setter refuses what makes no sense; as a fit parameter it takes any value *)
SysVal(s, v) == IF \/ ~HasKern(sys[s])
                   \/ (sys[s].kind = "scale" /\ RLe(v, "0")) \/ (sys[s].kind = "reconv" /\ RLt(v, "0")) THEN Refuse
                ELSE SetSys(s, [sys[s] EXCEPT !.val = v])
SysPar(s, n, v) == IF ~HasKern(sys[s]) \/ n # sys[s].pname THEN Refuse ELSE SetSys(s, [sys[s] EXCEPT !.val = v])
SysRename(s, o, n) == IF ~HasKern(sys[s]) \/ o # sys[s].pname THEN Refuse ELSE SetSys(s, [sys[s] EXCEPT !.pname = n])

(* u: the numbers still to be drawn *)
SysCan(s, e, u) == /\ Len(s.out) > 0 /\ Has(e, s.out[1])
                   /\ s.kind = "reconv" => Len(s.in) > 0 /\ Has(e, s.in[1])
                   /\ s.kind = "conv" => HasKern(s) /\ HasAll(e, s.out) /\ u # <<>>
SysDo(s, e, u) == LET v == Get(e, s.out[1]) IN
    Set(e, s.out[1],
        CASE s.kind = "shift" -> RAdd(v, s.val)
          [] s.kind = "scale" -> RMul(v, s.val)
          [] s.kind = "reconv" -> LET t == Get(e, s.in[1]) IN RAdd(t, RMul(s.val, RSub(v, t)))
          [] s.kind = "conv" -> RAdd(v, RMul(s.val, u[1])))
Left(s, u) == IF s.kind = "conv" THEN Tail(u) ELSE u
RECURSIVE ManDo(_, _, _)
ManDo(ss, e, u) == IF ss = <<>> THEN [ok |-> TRUE, e |-> e]
                   ELSE IF ~SysCan(sys[ss[1]], e, u) THEN [ok |-> FALSE, e |-> e]
                   ELSE ManDo(Tail(ss), SysDo(sys[ss[1]], e, u), Left(sys[ss[1]], u))
Drawn(ss) == Cardinality({k \in 1..Len(ss) : sys[ss[k]].kind = "conv"})
Apply(s, d, i, u) == IF ~HasEntry(d, i) \/ ~SysCan(sys[s], Entry(d, i), u) THEN Refuse
                     ELSE Query(SysDo(sys[s], Entry(d, i), u))
SetMan(m, v) == mans' = Put(mans, m, v) /\ ret' = Done /\ UNCHANGED <<ds, cuts, logs, sys, eds, exps>>
NewMan(m) == SetMan(m, <<>>)
ManAdd(m, s) == SetMan(m, Append(mans[m], s))
ManClear(m) == SetMan(m, <<>>)
ApplyMan(m, d, i, u) == IF ~HasEntry(d, i) THEN Refuse
                        ELSE LET r == ManDo(mans[m], Entry(d, i), u) IN IF r.ok THEN Query(r.e) ELSE Refuse

(***************************************************************************)
(* Distributions.  B: binned [axes, c, obs]; A: analytic [obs, k, co, nd]    *)
(* with density k * (1 + co . x); C: product of parts; M: sum of parts with  *)
(* normalisations.                                                          *)
(***************************************************************************)
RECURSIVE DistCan(_, _)
DistCan(h, e) ==
    CASE h.kind = "B" -> HasAll(e, h.obs) /\ Len(h.obs) = Len(h.axes)
      [] h.kind = "A" -> HasAll(e, h.obs) /\ Len(h.obs) = Len(h.co)
      [] h.kind \in {"C", "M"} -> \A k \in 1..Len(h.parts) : DistCan(h.parts[k], e)
RECURSIVE DistProb(_, _)
DistProb(h, e) ==
    CASE h.kind = "B" -> RDiv(h.c[FindBin(h.axes, Pick(e, h.obs)) + 1], RSum(h.c))
      [] h.kind = "A" -> RMul(h.k, RAdd("1", RDot(h.co, Pick(e, h.obs))))
      [] h.kind = "C" -> FoldLeft(LAMBDA a, p : RMul(a, DistProb(p, e)), "1", h.parts)
      [] h.kind = "M" -> FoldLeft(LAMBDA a, k : RAdd(a, RMul(h.norms[k], DistProb(h.parts[k], e))), "0", [k \in 1..Len(h.parts) |-> k])
RECURSIVE DistInt(_)
DistInt(h) == CASE h.kind = "B" -> RSum(h.c)
                [] h.kind = "A" -> "1"
                [] h.kind = "C" -> FoldLeft(LAMBDA a, p : RMul(a, DistInt(p)), "1", h.parts)
RECURSIVE DistDims(_)
DistDims(h) == CASE h.kind = "B" -> Len(h.axes)
                 [] h.kind = "A" -> Len(h.co)
                 [] h.kind = "C" -> FoldLeft(LAMBDA a, p : a + DistDims(p), 0, h.parts)
RECURSIVE DistNorm(_)
DistNorm(h) == CASE h.kind = "B" -> [h EXCEPT !.c = NormaliseC(h)]
                 [] h.kind = "A" -> h
                 [] h.kind = "C" -> [h EXCEPT !.parts = [k \in DOMAIN @ |-> DistNorm(@[k])]]
SetEd(h, v) == eds' = Put(eds, h, v) /\ ret' = Done /\ UNCHANGED <<ds, cuts, logs, sys, mans, exps>>
NewB(h, name, axes, c, obs) == SetEd(h, [kind |-> "B", name |-> name, axes |-> axes, c |-> c, obs |-> obs])
NewA(h, name, k, co, obs) == SetEd(h, [kind |-> "A", name |-> name, k |-> k, co |-> co, obs |-> obs])
RECURSIVE JoinNames(_)
JoinNames(ps) == IF Len(ps) = 1 THEN ps[1].name ELSE ps[1].name \o "*" \o JoinNames(Tail(ps))
NewC(h, parts) == LET ps == [k \in DOMAIN parts |-> eds[parts[k]]]
                  IN SetEd(h, [kind |-> "C", name |-> JoinNames(ps), parts |-> ps])
CloneEd(h, to) == SetEd(to, eds[h])
SetObsEd(h, obs) == SetEd(h, [eds[h] EXCEPT !.obs = obs])
RenameEd(h, n) == SetEd(h, [eds[h] EXCEPT !.name = n])
SetK(h, k) == SetEd(h, [eds[h] EXCEPT !.k = k])
NormEd(h) == SetEd(h, DistNorm(eds[h]))
ProbEd(h, d, i) == IF HasEntry(d, i) /\ DistCan(eds[h], Entry(d, i)) THEN Query(DistProb(eds[h], Entry(d, i))) ELSE Refuse
InfoEd(h) == Query([dims |-> DistDims(eds[h]), int |-> DistInt(eds[h]), name |-> eds[h].name])
FillEv(h, d, i, w) ==
    IF ~HasEntry(d, i) \/ ~DistCan(eds[h], Entry(d, i)) THEN Refuse
    ELSE \E x \in Rnd(FillC(eds[h], Pick(Entry(d, i), eds[h].obs), w)) : SetEd(h, [eds[h] EXCEPT !.c = x])
(* sum of distributions with one normalisation each, found by the part's name  *)
(* unless it is given another; adding a part names them all after the parts    *)
NewM(h) == SetEd(h, [kind |-> "M", parts |-> <<>>, norms |-> <<>>, pn |-> <<>>])
AddM(h, p) == IF eds[h].parts # <<>> /\ DistDims(eds[p]) # DistDims(eds[h].parts[1]) THEN Refuse
              ELSE SetEd(h, [eds[h] EXCEPT !.parts = Append(@, eds[p]), !.norms = Append(@, "0"),
                               !.pn = [k \in 1..Len(eds[h].parts) |-> eds[h].parts[k].name] \o <<eds[p].name>>])
NormsM(h, ns) == IF Len(ns) # Len(eds[h].parts) THEN Refuse ELSE SetEd(h, [eds[h] EXCEPT !.norms = ns])
ParM(h, n, v) == IF NameAt(eds[h].pn, n) = 0 THEN Refuse ELSE SetEd(h, [eds[h] EXCEPT !.norms[NameAt(eds[h].pn, n)] = v])
(* vs: values by name; others than the ones there are do not matter, missing ones do *)
ParsM(h, vs) == IF \E k \in DOMAIN eds[h].pn : eds[h].pn[k] \notin DOMAIN vs THEN Refuse
                ELSE SetEd(h, [eds[h] EXCEPT !.norms = [k \in DOMAIN @ |-> vs[eds[h].pn[k]]]])
RenM(h, o, n) == IF NameAt(eds[h].pn, o) = 0 \/ NameAt(eds[h].pn, n) # 0 THEN Refuse
                 ELSE SetEd(h, [eds[h] EXCEPT !.pn[NameAt(eds[h].pn, o)] = n])
CopyM(h, to) == SetEd(to, eds[h])

(***************************************************************************)
(* Filling a distribution from a data set: every event once, in order,      *)
(* transformed, then cut, then counted in its bin                           *)
(***************************************************************************)
RECURSIVE FillAll(_, _, _, _, _, _)
FillAll(acc, rows, cs, ss, uselog, names) ==
    IF rows = <<>> \/ ~acc.ok THEN acc
    ELSE LET t == ManDo(ss, [names |-> names, data |-> rows[1]], <<>>) IN
         IF ~t.ok THEN [acc EXCEPT !.ok = FALSE]
         ELSE LET v == Verdict(cs, t.e) IN
              IF v < 0 \/ (uselog /\ v > Len(acc.log.counts)) THEN [acc EXCEPT !.ok = FALSE]
              ELSE LET a == IF uselog THEN [acc EXCEPT !.log = Logged(@, v)] ELSE acc IN
                   IF v > 0 THEN FillAll(a, Tail(rows), cs, ss, uselog, names)
                   ELSE IF ~DistCan(a.h, t.e) THEN [a EXCEPT !.ok = FALSE]
                   ELSE FillAll([a EXCEPT !.h.c = FillC(a.h, Pick(t.e, a.h.obs), "1")], Tail(rows), cs, ss, uselog, names)
Rows(d, n) == IF n < 0 THEN ds[d].rows ELSE SubSeq(ds[d].rows, 1, n)       \* the first n; negative: all
FillDist(h, d, c, g, m, n) ==
    /\ n <= Len(ds[d].rows)
    /\ LET r == FillAll([ok |-> TRUE, h |-> eds[h], log |-> IF g = "" THEN NewLogV(<<>>) ELSE logs[g]],
                        Rows(d, n), cuts[c], IF m = "" THEN <<>> ELSE mans[m], g # "", ds[d].names)
       IN /\ \E x \in Rnd(r.h.c) : eds' = [eds EXCEPT ![h].c = x]
          /\ logs' = IF g = "" THEN logs ELSE [logs EXCEPT ![g] = r.log]
          /\ ret' = IF r.ok THEN Done ELSE Refused
          /\ UNCHANGED <<ds, cuts, sys, mans, exps>>

(***************************************************************************)
(* Counting experiments                                                     *)
(***************************************************************************)
NoRes == [obs |-> -1, eff |-> "-1", bg |-> <<>>, bgok |-> TRUE, sig |-> "", dlog |-> NewLogV(<<>>), slog |-> NewLogV(<<>>)]
SetExp(x, v) == exps' = Put(exps, x, v) /\ ret' = Done /\ UNCHANGED <<ds, cuts, logs, sys, mans, eds>>
NewExp(x) == SetExp(x, [cuts |-> <<>>, sys |-> <<>>, bgs |-> <<>>, sig |-> <<>>, res |-> NoRes])
ExpCut(x, cut) == SetExp(x, [exps[x] EXCEPT !.cuts = Append(@, cut)])
ExpSys(x, s) == SetExp(x, [exps[x] EXCEPT !.sys = Append(@, s)])
ExpBg(x, d, rate, name) == SetExp(x, [exps[x] EXCEPT !.bgs = Append(@, [d |-> d, rate |-> rate, name |-> name])])
ExpSig(x, d, name) == SetExp(x, [exps[x] EXCEPT !.sig = <<[d |-> d, name |-> name]>>])
(* [ok, n passed, log] over a data set *)
RECURSIVE CountRows(_, _, _, _, _)
CountRows(acc, rows, cs, ss, names) ==
    IF rows = <<>> \/ ~acc.ok THEN acc
    ELSE LET t == ManDo(ss, [names |-> names, data |-> rows[1]], <<>>) IN
         IF ~t.ok THEN [acc EXCEPT !.ok = FALSE]
         ELSE LET v == Verdict(cs, t.e) IN
              IF v < 0 THEN [acc EXCEPT !.ok = FALSE]
              ELSE CountRows([acc EXCEPT !.n = IF v = 0 THEN @ + 1 ELSE @, !.log = Logged(@, v)], Tail(rows), cs, ss, names)
Count(x, d) == CountRows([ok |-> TRUE, n |-> 0, log |-> NewLogV(CutNames(exps[x].cuts))],
                         ds[d].rows, exps[x].cuts, exps[x].sys, ds[d].names)
CountData(x, d) == LET r == Count(x, d) IN IF ~r.ok THEN Refuse ELSE SetExp(x, [exps[x] EXCEPT !.res.obs = r.n, !.res.dlog = r.log])
CountSig(x) == LET s == exps[x].sig[1]  r == Count(x, s.d) IN
    IF ~r.ok THEN Refuse ELSE SetExp(x, [exps[x] EXCEPT !.res.eff = RDiv(r.n, Len(ds[s.d].rows)), !.res.sig = s.name,
                                              !.res.slog = r.log])
BgRes(x, b) == LET r == Count(x, b.d)  n == Len(ds[b.d].rows) IN
    [ok |-> r.ok, name |-> b.name, log |-> r.log, rate |-> RDiv(RMul(r.n, b.rate), n), err |-> RDiv(RMul(RSqrt(r.n), b.rate), n)]
(* counting again replaces the previous counts; a count that fails half way *)
(* says nothing about the backgrounds (bgok) until they are counted again   *)
CountBg(x) == LET rs == TLCEval([k \in 1..Len(exps[x].bgs) |-> BgRes(x, exps[x].bgs[k])]) IN
    IF \E k \in DOMAIN rs : ~rs[k].ok
    THEN exps' = [exps EXCEPT ![x].res.bgok = FALSE] /\ ret' = Refused /\ UNCHANGED <<ds, cuts, logs, sys, mans, eds>>
    ELSE SetExp(x, [exps[x] EXCEPT !.res.bg = rs, !.res.bgok = TRUE])
(* the cut tables a report prints: each background, the signal, the data *)
ExpTables(x) == LET r == exps[x].res IN
    FoldLeft(LAMBDA a, k : a \o LogRows(r.bg[k].log), <<>>, [k \in DOMAIN r.bg |-> k]) \o LogRows(r.slog) \o LogRows(r.dlog)
(* and what they are the tables of *)
ExpHeads(x) == LET r == exps[x].res IN [k \in DOMAIN r.bg |-> r.bg[k].name] \o <<r.sig>>
ExpResult(x) == LET r == exps[x].res IN
    Query([obs |-> r.obs, eff |-> r.eff, bgok |-> r.bgok, total |-> RSum([k \in DOMAIN r.bg |-> r.bg[k].rate]),
           error |-> RSqrt(RSum([k \in DOMAIN r.bg |-> RMul(r.bg[k].err, r.bg[k].err)])),
           rates |-> [k \in DOMAIN r.bg |-> r.bg[k].rate], errors |-> [k \in DOMAIN r.bg |-> r.bg[k].err]])

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
(* a log accounts for every event it saw: rejected by exactly one cut, or kept *)
LogsBalance == \A g \in DOMAIN logs : SumTo(logs[g].counts, Len(logs[g].counts)) <= logs[g].n
Rectangular == \A d \in DOMAIN ds : \A i \in DOMAIN ds[d].rows : Len(ds[d].rows[i]) = ds[d].n
EdsWellFormed == \A h \in DOMAIN eds : eds[h].kind = "B" => WellFormed(eds[h])
Known(xs) == [x \in DOMAIN xs |-> [xs[x] EXCEPT !.res.bgok = TRUE]]
RefusedIsNoop == [][ret' = Refused => UNCHANGED <<ds, cuts, sys, mans>> /\ Known(exps') = Known(exps)]_vars
=============================================================================
