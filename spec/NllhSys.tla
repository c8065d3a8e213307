------------------------------ MODULE NllhSys ------------------------------
(***************************************************************************)
(* C17-C19: sums of binned distributions with fitted normalisations          *)
(* (BinnedEDManager), the binned extended likelihood they are compared to    *)
(* data with (BinnedNLLH), and sums of such statistics (StatisticSum).       *)
(*                                                                          *)
(* The value of a statistic is a function of its configuration, its data and *)
(* the present values of its parameters: nothing of what was evaluated       *)
(* before is in the state.                                                   *)
(***************************************************************************)
EXTENDS SmearSys, Constraints

VARIABLES pn,     \* systematic -> names of its parameters
          bms,    \* handle -> manager of distributions
          st      \* handle -> statistic; sms has each statistic's systematics under the same handle
nstate == <<mats, sys, ds, sms, pn, bms, st>>
nvars == <<nstate, ret>>
NInit == Init /\ pn = << >> /\ bms = << >> /\ st = << >>
NRefuse == ret' = Refused /\ UNCHANGED nstate
NQuery(v) == ret' = Ok(v) /\ UNCHANGED nstate

(***************************************************************************)
(* Managers of distributions.  mode: "F" the distribution is used as it is,   *)
(* "D" and "I" it is multiplied by a parameter under its name.               *)
(***************************************************************************)
(* w: what became of the distributions it changed, by position; cut: their buffers are gone *)
NoBm == [pdfs |-> <<>>, par |-> <<>>, names |-> <<>>, w |-> << >>, cut |-> FALSE]
Fitted(b) == SelectSeq([k \in 1..Len(b.pdfs) |-> k], LAMBDA k : b.pdfs[k].mode # "F")
WithPdf(b, pdf) == [b EXCEPT !.pdfs = Append(@, pdf), !.par = Append(@, "0"), !.names = Append(@, pdf.name)]
Work(b, k) == IF k \in DOMAIN b.w THEN b.w[k] ELSE Hist(b.pdfs[k].axes, b.pdfs[k].c)
Renamed(b) == \E k \in 1..Len(b.pdfs) : b.names[k] # b.pdfs[k].name
NormPars(b) == LET f == Fitted(b) IN [j \in 1..Len(f) |-> <<b.names[f[j]], b.par[f[j]]>>]
NamesOfPars(p) == {p[k][1] : k \in 1..Len(p)}
SetNormPars(b, dict) == [b EXCEPT !.par = [k \in DOMAIN @ |-> IF b.pdfs[k].mode # "F" /\ DHas(dict, b.names[k]) THEN DGet(dict, b.names[k]) ELSE @[k]]]
SetNormList(b, v) == [b EXCEPT !.par = [k \in DOMAIN @ |-> IF b.pdfs[k].mode = "F" THEN @[k] ELSE v[k]]]
Weight(b, k) == IF b.pdfs[k].mode = "F" THEN "1" ELSE b.par[k]
Weights(b) == [k \in 1..Len(b.pdfs) |-> Weight(b, k)]

SetBm(m, v) == bms' = Put(bms, m, v) /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, sms, pn, st>>
NewBm(m) == SetBm(m, NoBm)
BmAdd(m, pdf) == ~Renamed(bms[m]) /\ SetBm(m, WithPdf(bms[m], pdf))
BmAdds(m, pdfs, short) == ~Renamed(bms[m]) /\ IF short THEN NRefuse ELSE SetBm(m, FoldLeft(WithPdf, bms[m], pdfs))
BmSetNorms(m, v) == IF Len(v) # Len(bms[m].pdfs) THEN NRefuse ELSE SetBm(m, SetNormList(bms[m], v))
BmSet(m, n, x) == IF n \notin NamesOfPars(NormPars(bms[m])) THEN NRefuse ELSE SetBm(m, SetNormPars(bms[m], << <<n, x>> >>))
BmSets(m, dict) == IF ~Has(NamesOfPars(NormPars(bms[m])), dict) THEN NRefuse ELSE SetBm(m, SetNormPars(bms[m], dict))
BmGet(m, n) == LET p == NormPars(bms[m]) IN IF ~DHas(p, n) THEN NRefuse ELSE NQuery(DGet(p, n))
BmRename(m, f, t) == LET b == bms[m]  p == NamesOfPars(NormPars(b)) IN
    IF f \notin p \/ t \in p THEN NRefuse
    ELSE SetBm(m, [b EXCEPT !.names = [k \in DOMAIN @ |-> IF b.pdfs[k].mode # "F" /\ @[k] = f THEN t ELSE @[k]]])
BmCopy(m, to) == SetBm(to, bms[m])
BmBin(m, i) == LET b == bms[m] IN
    IF \E k \in 1..Len(b.pdfs) : i >= Len(Work(b, k).c) THEN NRefuse
    ELSE NQuery(RDot(Weights(b), [k \in 1..Len(b.pdfs) |-> Work(b, k).c[i + 1]]))
(* an event is read by name, each distribution giving its content over its integral *)
BmProb(m, e) == LET b == bms[m] IN
    IF \E k \in 1..Len(b.pdfs) : \E d \in 1..Len(Work(b, k).axes) : ~DHas(e, Work(b, k).axes[d].name) THEN NRefuse
    ELSE NQuery(RDot(Weights(b), [k \in 1..Len(b.pdfs) |-> LET p == Work(b, k) IN
             RDiv(p.c[FindBin(p.axes, [d \in 1..Len(p.axes) |-> DGet(e, p.axes[d].name)]) + 1], RSum(p.c))]))
(* the buffers are cut off once; what a parameter multiplies directly then has integral 1 *)
BmShrink(m, buf, ov) == LET b == bms[m] IN
    IF buf = << >> \/ b.cut THEN SetBm(m, b)
    ELSE /\ \A k \in 1..Len(b.pdfs) : ShrinkValid(Work(b, k).axes, buf)
         /\ SetBm(m, [b EXCEPT !.cut = TRUE, !.w = TLCEval([k \in 1..Len(b.pdfs) |->
                LET x == TLCEval(Shrink(Work(b, k), buf, ov)) IN
                IF b.pdfs[k].mode = "D" THEN Hist(x.axes, RScaleSeq(x.c, RDiv("1", RSum(x.c)))) ELSE x])])
(* seen along these axes only *)
BmAlong(m, names) == LET b == bms[m]
                         K == {k \in 1..Len(b.pdfs) : Names(Work(b, k).axes) # names} IN
    IF K # {} /\ \A k \in K : ~MargValid(Work(b, k), names) THEN NRefuse ELSE
    /\ \A k \in K : MargValid(Work(b, k), names)
    /\ SetBm(m, [b EXCEPT !.w = TLCEval([k \in DOMAIN @ \cup K |-> IF k \in K THEN Marg(Work(b, k), names) ELSE @[k]])])

(***************************************************************************)
(* Systematics                                                              *)
(***************************************************************************)
(* made ready at once; the parameters are called names *)
SyNew(h, kind, name, fp, names, axes, tobs) ==
    /\ sys' = Put(sys, h, [kind |-> kind, name |-> name, p |-> fp, fn |-> TRUE, axes |-> axes, tobs |-> tobs, dobs |-> Names(axes), resp |-> NoMat])
    /\ pn' = Put(pn, h, names) /\ ret' = Done /\ UNCHANGED <<mats, ds, sms, bms, st>>
SyPar(h, k, x) == sys' = [sys EXCEPT ![h].p[k] = x] /\ ret' = Done /\ UNCHANGED <<mats, ds, sms, pn, bms, st>>
(* the factor of a renormalisation is not a parameter *)
SyPars(h) == [k \in 1..Len(pn[h]) |-> <<pn[h][k], sys[h].p[k]>>]
SyWith(h, dict) == [sys[h] EXCEPT !.p = [k \in DOMAIN @ |-> IF k <= Len(pn[h]) /\ DHas(dict, pn[h][k]) THEN DGet(dict, pn[h][k]) ELSE @[k]]]

(* a manager of systematics on its own *)
More == <<pn, bms, st>>
SgNew(h) == NewSm(h) /\ UNCHANGED More
SgAdd(h, s, g) == SmAdd(h, s, g) /\ UNCHANGED More
SgReg(h, n, gs) == SmReg(h, n, gs) /\ UNCHANGED More

(***************************************************************************)
(* Statistics                                                               *)
(***************************************************************************)
NoData == [axes |-> <<>>, c |-> <<>>]
NewStat == [kind |-> "nllh", bm |-> NoBm, bb |-> FALSE, buf |-> << >>, ov |-> FALSE, src |-> "none", data |-> NoData,
            names |-> <<>>, rows |-> <<>>, cuts |-> <<>>, cons |-> NoCons, comps |-> {}, parts |-> <<>>, fresh |-> FALSE, norms |-> <<>>]
SetSt(h, v) == st' = Put(st, h, v) /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, sms, pn, bms>>
StNew(h) == /\ st' = Put(st, h, NewStat) /\ sms' = Put(sms, h, [groups |-> ("" :> <<>>), tot |-> << >>, reg |-> << >>])
            /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, pn, bms>>
Stale(t) == [t EXCEPT !.fresh = FALSE]
(* a distribution, with the groups of systematics it gets and how many events it was made of *)
StAdd(h, pdf, gs) ==
    LET t == st[h]  q == sms[h] IN
    IF t.bb /\ pdf.gen < 0 THEN NRefuse
    ELSE IF (\E k \in 1..Len(gs) : gs[k] \notin DOMAIN q.groups) \/ ~Distinct(Concat(q, Listed(gs))) THEN NRefuse
    ELSE /\ st' = [st EXCEPT ![h] = Stale([t EXCEPT !.bm = WithPdf(@, pdf)])]
         /\ sms' = [sms EXCEPT ![h].reg = Put(@, pdf.name, gs)]
         /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, pn, bms>>
(* several at once; short: the lists are not equally long *)
StAdds(h, pdfs, gss, short) ==
    LET t == st[h]  q == sms[h]  K == 1..Len(pdfs) IN
    IF short \/ (t.bb /\ \E k \in K : pdfs[k].gen < 0) THEN NRefuse
    ELSE /\ \A k \in K : (\A j \in 1..Len(gss[k]) : gss[k][j] \in DOMAIN q.groups) /\ Distinct(Concat(q, Listed(gss[k])))
         /\ st' = [st EXCEPT ![h] = IF pdfs = <<>> THEN @ ELSE Stale([t EXCEPT !.bm = FoldLeft(WithPdf, @, pdfs)])]
         /\ sms' = [sms EXCEPT ![h].reg = FoldLeft(LAMBDA r, k : Put(r, pdfs[k].name, gss[k]), @, [k \in K |-> k])]
         /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, pn, bms>>
StSetBm(h, m) == SetSt(h, Stale([st[h] EXCEPT !.bm = bms[m]]))
StSys(h, s, g) ==
    LET t == sms[h] IN
    IF g = "" /\ \E x \in DOMAIN t.groups : In(NamesOf(t.groups[x]), sys[s].name) THEN NRefuse
    ELSE /\ sms' = [sms EXCEPT ![h].groups = Put(@, g, IF g \in DOMAIN @ THEN Append(@[g], s) ELSE <<s>>)]
         /\ st' = [st EXCEPT ![h] = Stale(@)] /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, pn, bms>>
StBB(h, on) == SetSt(h, Stale([st[h] EXCEPT !.bb = on]))
StBuf(h, n, lo, hi) == SetSt(h, Stale([st[h] EXCEPT !.buf = Put(@, n, <<lo, hi>>)]))
StOv(h, on) == SetSt(h, Stale([st[h] EXCEPT !.ov = on]))
StDist(h, axes, c) == SetSt(h, Stale([st[h] EXCEPT !.src = "dist", !.data = [axes |-> axes, c |-> c]]))
StRows(h, names, rows) == SetSt(h, Stale([st[h] EXCEPT !.src = "rows", !.names = names, !.rows = rows]))
StCut(h, cut) == SetSt(h, Stale([st[h] EXCEPT !.cuts = Append(@, cut)]))
StCuts(h, cuts) == SetSt(h, Stale([st[h] EXCEPT !.cuts = cuts]))
(* all the systematics, and what they are for, of a manager *)
StSetSg(h, s) == /\ sms' = [sms EXCEPT ![h] = sms[s]] /\ st' = [st EXCEPT ![h] = Stale(@)]
                 /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, pn, bms>>
(* one constraint or several: the penalties are those of module Constraints *)
StCon(h, t) == SetSt(h, Stale([st[h] EXCEPT !.cons = t]))
ConIndOf(t, n, m, lo, hi) == [t EXCEPT !.ind = Put(@, n, [m |-> m, hi |-> hi, lo |-> lo])]
ConPairOf(t, a, m1, s1, b, m2, s2, corr) == [t EXCEPT !.pair = Put(@, <<a, b>>, [m1 |-> m1, s1 |-> s1, m2 |-> m2, s2 |-> s2, corr |-> corr])]
ConRatioOf(t, a, b, m, s) == [t EXCEPT !.ratio = Put(@, <<a, b>>, [m |-> m, s |-> s])]
ConShapeOf(t, dict, co, m, s) == [t EXCEPT !.shape = Put(@, {<<dict[k][1], R(dict[k][2])>> : k \in 1..Len(dict)}, [co |-> co, m |-> m, s |-> s])]
StShape(h, dict, co, m, s) == StCon(h, ConShapeOf(st[h].cons, dict, co, m, s))
StInterp(h, label, hist) == StCon(h, [st[h].cons EXCEPT !.interp = Put(@, label, hist)])
(* all those of another statistic in the place of its own *)
StSetCons(h, from) == StCon(h, st[from].cons)
StInd(h, n, m, lo, hi) == IF n \in PairedIn(st[h].cons) THEN NRefuse ELSE StCon(h, ConIndOf(st[h].cons, n, m, lo, hi))
StPair(h, a, m1, s1, b, m2, s2, corr) == LET t == st[h].cons IN
    IF RLe("1", RAbs(corr)) THEN NRefuse
    ELSE IF <<a, b>> \notin DOMAIN t.pair /\ {a, b} \cap (PairedIn(t) \cup SingleIn(t)) # {} THEN NRefuse
    ELSE StCon(h, ConPairOf(t, a, m1, s1, b, m2, s2, corr))
StRatio(h, a, b, m, s) == StCon(h, ConRatioOf(st[h].cons, a, b, m, s))

(* which components have the parameters: the normalisations and every systematic now known *)
(* a sum may have sums among its parts *)
RECURSIVE Parts(_)
Parts(h) == IF st[h].kind = "nllh" THEN {h} ELSE UNION {Parts(st[h].parts[k]) : k \in 1..Len(st[h].parts)}
StReg(h) == /\ st' = [p \in DOMAIN st |-> IF p \in Parts(h) THEN Stale([st[p] EXCEPT !.comps = {"norms"} \cup Members(p)]) ELSE st[p]]
            /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, sms, pn, bms>>
RECURSIVE Flat1(_)
Flat1(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat1(Tail(q))
Dedup(p) == FoldLeft(LAMBDA acc, x : IF DHas(acc, x[1]) THEN acc ELSE Append(acc, x), <<>>, p)
CompPars(h, c) == IF c = "norms" THEN NormPars(st[h].bm) ELSE SyPars(c)
ParsOf(h) == LET q == SetToSeq(st[h].comps) IN Flat1([k \in 1..Len(q) |-> CompPars(h, q[k])])
RECURSIVE Pars(_)
Pars(h) == IF st[h].kind = "nllh" THEN ParsOf(h) ELSE Dedup(Flat1([k \in 1..Len(st[h].parts) |-> Pars(st[h].parts[k])]))
(* what is there after the components in cs (pairs of statistic and component) have been set *)
SetComps(cs, dict) ==
    /\ st' = [h \in DOMAIN st |-> IF <<h, "norms">> \in cs THEN Stale([st[h] EXCEPT !.bm = SetNormPars(@, dict)]) ELSE st[h]]
    /\ sys' = [x \in DOMAIN sys |-> IF \E c \in cs : c[2] = x THEN SyWith(x, dict) ELSE sys[x]]
AllComps(h) == UNION {{<<p, c>> : c \in st[p].comps} : p \in Parts(h)}
(* a Gaussian kernel takes the values it finds (see ParamSys) and misses none *)
TakesSome(c) == c # "norms" /\ sys[c].kind = "conv" /\ Len(sys[c].p) > 1
CompFull(c, dict) == TakesSome(c[2]) \/ Has(NamesOfPars(CompPars(c[1], c[2])), dict)
FullComps(h, dict) == {c \in AllComps(h) : CompFull(c, dict)}
(* of a refused set the components S, which miss nothing, may have been set already *)
StSetsUpTo(h, dict, S) ==
    LET all == AllComps(h) IN
    /\ UNCHANGED <<mats, ds, sms, pn, bms>>
    /\ IF dict = <<>> THEN ret' = Done /\ UNCHANGED <<st, sys>>      \* nothing to set is nothing done
       ELSE IF FullComps(h, dict) = all THEN ret' = Done /\ SetComps(all, dict)
       ELSE ret' = Refused /\ SetComps(S, dict)
StSets(h, dict) == \E S \in SUBSET FullComps(h, dict) : StSetsUpTo(h, dict, S)

(***************************************************************************)
(* The value                                                                *)
(***************************************************************************)
CutKeeps(c, names, row) == LET x == row[PosIn(names, c.obs)] IN IF c.side = "lower" THEN RLt(c.a, x) ELSE RLt(x, c.a)
Kept(t) == SelectSeq(t.rows, LAMBDA r : \A k \in 1..Len(t.cuts) : CutKeeps(t.cuts[k], t.names, r))
PickRow(names, row, axes) == [d \in 1..Len(axes) |-> row[PosIn(names, axes[d].name)]]
FillRows(axes, names, rows) ==
    FoldLeft(LAMBDA acc, r : FillC(Hist(axes, acc), PickRow(names, r, axes), "1"), TLCEval(Zeros(axes)), rows)
(* events are binned as the first distribution is *)
DataOf(t) == IF t.src = "dist" THEN t.data ELSE LET a == t.bm.pdfs[1].axes IN [axes |-> a, c |-> FillRows(a, t.names, Kept(t))]
HasData(t) == t.src # "none" /\ (t.src = "rows" => Len(t.bm.pdfs) > 0)

(* distributions after their systematics, on the axes of the data, without the buffers *)
Totals(h) == LET t == sms[h]  s == TLCEval([x \in DOMAIN sys |-> IF x \in Members(h) THEN Built(sys[x]) ELSE sys[x]])
             IN TLCEval([g \in Used(t) |-> IF Chains(s, t.groups[g]) THEN TLCEval(Chain(s, t.groups[g])) ELSE NoMat])
Tot(h) == TLCEval([sms[h] EXCEPT !.tot = Totals(h)])
IsReg(t, p) == p.name \in DOMAIN t.reg
Distorts(t, p) == IsReg(t, p) => Applies(t, Steps(t, p.name), p.c)
Distorted(t, p) == IF IsReg(t, p) THEN Through(t, Steps(t, p.name), p.c) ELSE p.c
OnData(axes, c, names) == IF Names(axes) = names THEN Hist(axes, c) ELSE Marg(Hist(axes, c), names)
Shrunk(t, v) == IF t.buf = << >> THEN v ELSE Shrink(v, t.buf, t.ov)
Ready(h) ==
    LET t == st[h] IN
    /\ HasData(t)
    /\ \A x \in Members(h) : CanConstruct(sys[x])
    /\ \E q \in {Tot(h)} :
       /\ Members(h) # {} => \A g \in Used(q) : q.tot[g] # NoMat
       /\ Members(h) # {} => \A k \in 1..Len(t.bm.pdfs) : Distorts(q, t.bm.pdfs[k])
    /\ LET d == DataOf(t) IN
       /\ \A k \in 1..Len(t.bm.pdfs) : IF Names(t.bm.pdfs[k].axes) = Names(d.axes) THEN TRUE ELSE MargValid(Hist(t.bm.pdfs[k].axes, <<>>), Names(d.axes))
       /\ ShrinkValid(d.axes, t.buf)
(* a table of penalties is known between the first and the last of its points *)
ConstraintsIn(h) == LET c == st[h].cons  p == Pars(h) IN IF Has(NeedsOf(c), p) THEN LatticeOk(c, p) ELSE FALSE
(* covered: distributions binned as the data, and made of something where they are normalised *)
Covered(h) == (\A x \in Members(h) : CanConstruct(sys[x]) => Defined(sys[x])) /\ ConstraintsIn(h)
Worked(h) ==     \* per distribution [c, w, n]: contents, weight, events after all is done
    LET t == st[h]
        d == TLCEval(DataOf(t).axes)
        some == Members(h) # {}
        q == TLCEval(IF some THEN Tot(h) ELSE sms[h])
        One(k) ==
            LET p == t.bm.pdfs[k]
                x == TLCEval(IF some THEN Distorted(q, p) ELSE p.c)
                b == TLCEval(OnData(p.axes, x, Names(d)).c)
                a == TLCEval(Shrunk(t, Hist([j \in 1..Len(d) |-> p.axes[NameIdx(p.axes, d[j].name)]], b)).c)
                cut == t.buf # << >>
                w == Weight(t.bm, k)
                f == IF ~cut THEN "1" ELSE IF REq(RSum(b), "0") THEN "0" ELSE RDiv(RSum(a), RSum(b))
            IN CASE p.mode = "D" -> [c |-> IF cut THEN RScaleSeq(a, RDiv("1", RSum(a))) ELSE a, w |-> w, n |-> w]
                 [] p.mode = "I" -> [c |-> a, w |-> w, n |-> RMul(w, RMul(IF some THEN RSum(x) ELSE "1", f))]
                 [] p.mode = "F" -> [c |-> a, w |-> "1", n |-> RSum(a)]
    IN [k \in 1..Len(t.bm.pdfs) |-> One(k)]
(* how far the expectation of a bin, known to sqrt(s2) of itself, is best moved: the larger root of *)
(* x^2 + (mu s2 - 1) x - n s2                                                                      *)
Beta(mu, s2, n) == LET b == RSub(RMul(mu, s2), "1") IN
    RDiv(RAdd(RNeg(b), RSqrt(RAdd(RMul(b, b), RMul("4", RMul(n, s2))))), "2")
NLn(n, mu) == IF REq(n, "0") THEN "0" ELSE RMul(n, RLn(mu))
BinTerm(mu, n) == RSub(mu, NLn(n, mu))
BinTermBB(mu, n, s2) == LET x == Beta(mu, s2, n) IN
    RAdd(BinTerm(RMul(x, mu), n), RDiv(RMul(RSub(x, "1"), RSub(x, "1")), RMul("2", s2)))
Value(h) ==
    LET t == st[h]
        w == TLCEval(Worked(h))
        n == TLCEval(Shrunk(t, DataOf(t)).c)
        ws == [k \in 1..Len(w) |-> w[k].w]
        mu == TLCEval([b \in 1..Len(n) |-> RDot(ws, [k \in 1..Len(w) |-> w[k].c[b]])])
        spread == RSum([k \in 1..Len(w) |-> RDiv(w[k].n, t.bm.pdfs[k].gen)])
        S2(b) == RDiv(spread, RMul(mu[b], mu[b]))
        lh == RSum([b \in 1..Len(n) |-> IF t.bb THEN BinTermBB(mu[b], n[b], S2(b)) ELSE BinTerm(mu[b], n[b])])
    IN [empty |-> \E b \in 1..Len(n) : REq(mu[b], "0"),
        faint |-> (\E x \in Members(h) : sys[x].kind = "conv") /\ (\E b \in 1..Len(n) : RLt(mu[b], RMul("1/100000000", RSum(mu)))), norms |-> [k \in 1..Len(w) |-> w[k].n], lh |-> lh]
(* systematics always act on the distributions as they were given *)
BmApply(m, h) == LET b == bms[m] IN
    IF \E x \in Members(h) : ~CanConstruct(sys[x]) THEN NRefuse ELSE
    /\ \A x \in Members(h) : Defined(sys[x])
    /\ \E q \in {Tot(h)} :
       /\ Members(h) # {} => (\A g \in Used(q) : q.tot[g] # NoMat) /\ \A k \in 1..Len(b.pdfs) : Distorts(q, b.pdfs[k])
       /\ SetBm(m, [b EXCEPT !.cut = FALSE, !.w = IF Members(h) = {} THEN << >> ELSE
              TLCEval([k \in {k \in 1..Len(b.pdfs) : IsReg(q, b.pdfs[k])} |-> Hist(b.pdfs[k].axes, Distorted(q, b.pdfs[k]))])])
HasGens(t) == t.bb => \A k \in 1..Len(t.bm.pdfs) : t.bm.pdfs[k].gen >= 0
(* [ok, v, norms] *)
Result(h) ==
    IF ~Ready(h) \/ ~HasGens(st[h]) THEN [ok |-> FALSE, faint |-> FALSE]
    ELSE LET v == TLCEval(Value(h)) IN
         IF v.empty \/ ~ConstraintsIn(h) THEN [ok |-> FALSE, faint |-> v.faint]
         ELSE [ok |-> TRUE, faint |-> v.faint, v |-> RAdd(v.lh, ConVal(st[h].cons, Pars(h))), norms |-> v.norms]
(* r: what every likelihood in it gives; a part that is there twice counts twice *)
RECURSIVE SumVal(_, _)
SumVal(h, r) ==
    IF st[h].kind = "nllh" THEN r[h]
    ELSE LET q == st[h].parts
             v == TLCEval([k \in 1..Len(q) |-> SumVal(q[k], r)])
         IN IF (\E k \in 1..Len(q) : ~v[k].ok) \/ ~ConstraintsIn(h) THEN [ok |-> FALSE]
            ELSE [ok |-> TRUE, v |-> RAdd(RSum([k \in 1..Len(q) |-> v[k].v]), ConVal(st[h].cons, Pars(h)))]
(* a bin that only the far tail of a smearing reaches: floating point may make nothing of it *)
Vague == [ok |-> TRUE, v |-> "vague"]
StEval(h) ==
    LET ps == Parts(h)
        r == TLCEval([p \in ps |-> Result(p)])
        s == TLCEval(SumVal(h, r))
        vague == \E p \in ps : r[p].faint
        ok == s.ok /\ ~vague
    IN /\ ret' = IF vague THEN Vague ELSE IF ok THEN Ok(s.v) ELSE Refused
       /\ st' = [p \in DOMAIN st |-> IF p \in ps THEN (IF r[p].ok /\ ok THEN [st[p] EXCEPT !.fresh = TRUE, !.norms = r[p].norms] ELSE Stale(st[p])) ELSE st[p]]
       /\ UNCHANGED <<mats, sys, ds, sms, pn, bms>>
(* after an evaluation: how many events of each distribution were compared to the data *)
StNorms(h) == st[h].fresh /\ NQuery(st[h].norms)
StSetNorms(h, v) == IF Len(v) # Len(st[h].bm.pdfs) THEN NRefuse ELSE SetSt(h, Stale([st[h] EXCEPT !.bm = SetNormList(@, v)]))
(* what the cuts did to the events *)
RECURSIVE FirstCut(_, _, _)
FirstCut(t, r, k) == IF k > Len(t.cuts) THEN 0 ELSE IF CutKeeps(t.cuts[k], t.names, r) THEN FirstCut(t, r, k + 1) ELSE k
CutCounts(t) == [k \in 1..Len(t.cuts) |-> Len(SelectSeq(t.rows, LAMBDA r : FirstCut(t, r, 1) = k))]
StCutLog(h) == st[h].fresh /\ st[h].src = "rows" /\ NQuery(CutCounts(st[h]))

(* after an evaluation: the events as they were counted *)
StData(h) == st[h].fresh /\ NQuery(Shrunk(st[h], DataOf(st[h])).c)

(* a copy of a likelihood: the systematics are the same, everything else is its own *)
StCopy(h, to) ==
    /\ st' = Put(st, to, Stale(st[h]))
    /\ sms' = Put(sms, to, sms[h]) /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, pn, bms>>

(* statistics added up, each keeping its own data; they may share parameters *)
SumNew(h, parts) == /\ st' = Put(st, h, [NewStat EXCEPT !.kind = "sum", !.parts = parts]) /\ ret' = Done
                    /\ UNCHANGED <<mats, sys, ds, sms, pn, bms>>
SumAdd(h, p) == SetSt(h, [st[h] EXCEPT !.parts = Append(@, p)])
=============================================================================
