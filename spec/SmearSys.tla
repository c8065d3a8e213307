------------------------------ MODULE SmearSys ------------------------------
(***************************************************************************)
(* C14, C15: detector response matrices, the systematics that build them,    *)
(* and the manager that applies groups of systematics to distributions.      *)
(*                                                                          *)
(* A matrix is [r, c, m]: m[i][j] is the part of bin j-1's content that goes  *)
(* to bin i-1.  RndM(m), RndC(c): what the implementation may hold where the  *)
(* exact matrix or contents are m or c.                                      *)
(***************************************************************************)
EXTENDS Hists

CONSTANTS RndM(_), RndC(_)

VARIABLES mats,   \* handle -> [kind, r, c, m]
          sys,    \* handle -> [kind, name, p, fn, axes, tobs, dobs, resp]
          ds,     \* handle -> [name, axes, c]: distributions
          sms,    \* handle -> [groups, tot, reg]
          ret
state == <<mats, sys, ds, sms>>
vars == <<state, ret>>

Ok(v) == [ok |-> TRUE, v |-> v]
Done == [ok |-> TRUE, v |-> <<>>]
Refused == [ok |-> FALSE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Refuse == ret' = Refused /\ UNCHANGED state
Query(v) == ret' = Ok(v) /\ UNCHANGED state
Init == mats = << >> /\ sys = << >> /\ ds = << >> /\ sms = << >> /\ ret = Done

(***************************************************************************)
(* Matrices                                                                 *)
(***************************************************************************)
ZeroM(r, c) == [i \in 1..r |-> [j \in 1..c |-> "0"]]
IdM(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
ScaleM(m, k) == TLCEval([i \in DOMAIN m |-> RScaleSeq(m[i], k)])
Col(m, j) == [i \in DOMAIN m |-> m[i][j]]
MulM(a, b, nc) == LET cols == TLCEval([j \in 1..nc |-> TLCEval(Col(b, j))]) IN
    TLCEval([i \in DOMAIN a |-> TLCEval([j \in 1..nc |-> RDot(a[i], cols[j])])])
ApplyM(m, c) == TLCEval([i \in DOMAIN m |-> RDot(m[i], c)])

SetMat(h, v) == \E x \in RndM(v.m) : mats' = Put(mats, h, [v EXCEPT !.m = x]) /\ ret' = Done /\ UNCHANGED <<sys, ds, sms>>
(* what is only put there is there exactly *)
HoldMat(h, v) == mats' = Put(mats, h, v) /\ ret' = Done /\ UNCHANGED <<sys, ds, sms>>
NewMat(h, kind, r, c) == HoldMat(h, [kind |-> kind, r |-> r, c |-> c, m |-> ZeroM(r, c)])
InMat(t, i, j) == i < t.r /\ j < t.c
MatSet(h, i, j, x) == IF ~InMat(mats[h], i, j) THEN Refuse
                      ELSE HoldMat(h, [mats[h] EXCEPT !.m[i + 1][j + 1] = R(x)])
MatGet(h, i, j) == IF ~InMat(mats[h], i, j) THEN Refuse ELSE Query(mats[h].m[i + 1][j + 1])
(* all entries at once: what is not named is zero *)
MatSets(h, ts) ==
    LET t == mats[h] IN
    IF \E k \in 1..Len(ts) : ~InMat(t, ts[k][1], ts[k][2]) THEN Refuse
    ELSE HoldMat(h, [t EXCEPT !.m = [i \in 1..t.r |-> [j \in 1..t.c |->
             IF \E k \in 1..Len(ts) : ts[k][1] = i - 1 /\ ts[k][2] = j - 1
             THEN R(ts[CHOOSE k \in 1..Len(ts) : ts[k][1] = i - 1 /\ ts[k][2] = j - 1][3]) ELSE "0"]]])
Product(s, t) == [kind |-> s.kind, r |-> s.r, c |-> t.c, m |-> MulM(s.m, t.m, t.c)]
MatMul(a, b, to) == IF mats[a].c # mats[b].r THEN Refuse ELSE SetMat(to, Product(mats[a], mats[b]))
MatVec(h, v) == IF Len(v) # mats[h].c THEN Refuse ELSE Query(ApplyM(mats[h].m, v))
MatZero(h) == IF mats[h].r = 0 \/ mats[h].c = 0 THEN Refuse ELSE HoldMat(h, [mats[h] EXCEPT !.m = ZeroM(mats[h].r, mats[h].c)])
MatId(h) == IF mats[h].r = 0 \/ mats[h].c # mats[h].r THEN Refuse ELSE HoldMat(h, [mats[h] EXCEPT !.m = IdM(mats[h].r)])
MatScale(h, k) == SetMat(h, [mats[h] EXCEPT !.m = ScaleM(mats[h].m, k)])
(* the lower triangle, row by row *)
MatSym(h, v) ==
    LET t == mats[h]
        At(i, j) == IF j <= i THEN R(v[(i * (i - 1)) \div 2 + j]) ELSE R(v[(j * (j - 1)) \div 2 + i]) IN
    IF t.r # t.c \/ Len(v) # (t.r * (t.r + 1)) \div 2 THEN Refuse
    ELSE HoldMat(h, [t EXCEPT !.m = [i \in 1..t.r |-> [j \in 1..t.r |-> At(i, j)]]])
MatCopy(h, to) == HoldMat(to, mats[h])

(***************************************************************************)
(* Systematics                                                              *)
(***************************************************************************)
OneDim == {"shift", "scale", "scalefn"}
NoFn == [shape |-> "", p |-> <<>>]
FreshP(kind) == CASE kind = "shift" -> <<"1">> [] kind = "scale" -> <<"1">> [] kind = "renorm" -> <<"1">> [] OTHER -> <<>>
SetSys(h, v) == \E x \in RndM(v.resp.m) :
    sys' = Put(sys, h, [v EXCEPT !.resp.m = x]) /\ ret' = Done /\ UNCHANGED <<mats, ds, sms>>
NoMat == [r |-> 0, c |-> 0, m |-> <<>>]
NewSys(h, kind, name) == SetSys(h, [kind |-> kind, name |-> name, p |-> FreshP(kind), fn |-> kind \in {"shift", "scale", "renorm"},
                                    axes |-> <<>>, tobs |-> <<>>, dobs |-> <<>>, resp |-> NoMat])
(* the function or kernel, with its parameters *)
SetFn(h, p) == SetSys(h, [sys[h] EXCEPT !.fn = TRUE, !.p = p])
SetPar(h, k, x) == SetSys(h, [sys[h] EXCEPT !.p[k] = x])
SetAxes(h, axes) == SetSys(h, [sys[h] EXCEPT !.axes = axes, !.resp = [r |-> NBins(axes), c |-> NBins(axes), m |-> ZeroM(NBins(axes), NBins(axes))]])
SetTObs(h, o) == SetSys(h, [sys[h] EXCEPT !.tobs = o])
SetDObs(h, o) == SetSys(h, [sys[h] EXCEPT !.dobs = o])
SetResp(h, g) == SetSys(h, [sys[h] EXCEPT !.resp = [r |-> mats[g].r, c |-> mats[g].c, m |-> mats[g].m]])
CopySys(h, to) == SetSys(to, sys[h])

PosIn(o, n) == CHOOSE k \in 1..Len(o) : o[k] = n
In(o, n) == \E k \in 1..Len(o) : o[k] = n
Distinct(o) == \A j, k \in 1..Len(o) : o[j] = o[k] => j = k
(* where the transformed observables are among the distribution's *)
Pos(s) == [k \in 1..Len(s.tobs) |-> PosIn(s.dobs, s.tobs[k])]
TAxes(s) == LET q == Pos(s) IN [k \in 1..Len(q) |-> s.axes[q[k]]]

(* the part of [lo, hi) that lies in a bin of the axis *)
Overlap(a, i, lo, hi) == LET w == RSub(RMin(a.hi[i], hi), RMax(a.lo[i], lo)) IN
    IF RLe(w, "0") THEN "0" ELSE RDiv(w, RSub(hi, lo))
(* the increasing functions the drivers use: a + b x + c x^3 *)
Cubic(p, x) == RAdd(p[1], RAdd(RMul(p[2], x), RMul(p[3], RMul(x, RMul(x, x)))))
Moved(s, x) == CASE s.kind = "shift" -> RAdd(x, s.p[1])
                 [] s.kind = "scale" -> RMul(x, s.p[1])
                 [] s.kind = "scalefn" -> Cubic(s.p, x)
(* the shapes the drivers use: p1 + sum p(k+1) x(k) *)
ShapeAt(p, x) == RAdd(p[1], RSum([k \in 1..(Len(p) - 1) |-> IF k <= Len(x) THEN RMul(p[k + 1], x[k]) ELSE "0"]))
CentreAt(axes, b) == [d \in 1..Len(axes) |-> Centre(axes[d], UnflatD(axes, b, d))]
(* a Gaussian around the centre of the bin; with one parameter, of width p1 sqrt|x| *)
Mean(p, d) == IF Len(p) = 1 THEN "0" ELSE p[d]
Sigma(p, d, x) == IF Len(p) = 1 THEN RMul(p[1], RSqrt(RAbs(x[1]))) ELSE p[Len(p) \div 2 + d]
GaussPart(axes, p, dest, orig) ==
    LET x == CentreAt(axes, orig) IN
    FoldLeft(LAMBDA acc, d : LET i == UnflatD(axes, dest, d) + 1 IN
                 RMul(acc, RSub(RGaussCdf(RSub(axes[d].hi[i], x[d]), Mean(p, d), Sigma(p, d, x)),
                                RGaussCdf(RSub(axes[d].lo[i], x[d]), Mean(p, d), Sigma(p, d, x)))),
             "1", [d \in 1..Len(axes) |-> d])
Part(s, axes, dest, orig) ==
    CASE s.kind \in OneDim -> Overlap(axes[1], dest + 1, Moved(s, axes[1].lo[orig + 1]), Moved(s, axes[1].hi[orig + 1]))
      [] s.kind = "shape" -> IF dest = orig THEN ShapeAt(s.p, CentreAt(axes, orig)) ELSE "0"
      [] s.kind = "conv" -> GaussPart(axes, s.p, dest, orig)
(* in the observables transformed the matrix is the part; in the others content stays in its bin *)
Response(s) ==
    LET n == NBins(s.axes) IN
    IF s.kind = "renorm" THEN ScaleM(IdM(n), s.p[1])
    ELSE LET pos == TLCEval(Pos(s))
             ta == TLCEval(TAxes(s))
             nt == NBins(ta)
             sub == TLCEval([i \in 1..nt |-> TLCEval([j \in 1..nt |-> Part(s, ta, i - 1, j - 1)])])
             u == TLCEval([b \in 1..n |-> TLCEval(Unflat(s.axes, b - 1))])
             t == TLCEval([b \in 1..n |-> Flat(ta, [k \in 1..Len(pos) |-> u[b][pos[k]]]) + 1])
             rest == TLCEval([b \in 1..n |-> TLCEval([d \in 1..Len(s.axes) |-> IF \E k \in 1..Len(pos) : pos[k] = d THEN 0 ELSE u[b][d]])])
         IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF rest[i] = rest[j] THEN sub[t[i]][t[j]] ELSE "0"])])
KernelDims(s) == IF Len(s.p) = 1 THEN 1 ELSE Len(s.p) \div 2
Sound(s) ==
    /\ s.axes # <<>> /\ s.fn
    /\ s.kind # "renorm" => /\ Len(s.tobs) > 0 /\ Distinct(s.tobs)
                            /\ \A k \in 1..Len(s.tobs) : In(s.dobs, s.tobs[k])
    /\ s.kind \in OneDim => Len(s.tobs) = 1
    /\ s.kind = "scale" => RLt("0", s.p[1])
    /\ s.kind = "conv" => KernelDims(s) = Len(s.tobs)
NegativeShape(s) == s.kind = "shape" /\ LET ta == TAxes(s) IN \E b \in 0..(NBins(ta) - 1) : RLt(ShapeAt(s.p, CentreAt(ta, b)), "0")
(* not specified: functions that do not increase, kernels without width *)
Defined(s) ==
    /\ s.kind = "scalefn" => \A i \in 1..NBinsOf(TAxes(s)[1]) : LET a == TAxes(s)[1] IN RLt(Moved(s, a.lo[i]), Moved(s, a.hi[i]))
    /\ s.kind = "conv" => LET ta == TAxes(s) IN \A b \in 0..(NBins(ta) - 1), d \in 1..Len(ta) : RLt("0", Sigma(s.p, d, CentreAt(ta, b)))
CanConstruct(s) == Sound(s) /\ ~NegativeShape(s)
Built(s) == [s EXCEPT !.resp = [r |-> NBins(s.axes), c |-> NBins(s.axes), m |-> Response(s)]]
Construct(h) == IF ~CanConstruct(sys[h]) THEN Refuse ELSE Defined(sys[h]) /\ SetSys(h, Built(sys[h]))

NormC(c) == RScaleSeq(c, RDiv("1", RSum(c)))
SetD(d, v) == \E x \in RndC(v.c) : ds' = Put(ds, d, [v EXCEPT !.c = x]) /\ ret' = Done /\ UNCHANGED <<mats, sys, sms>>
NewD(d, name, axes, c) == SetD(d, [name |-> name, axes |-> axes, c |-> c])
(* the distribution smeared: normalised, or with its integral reported *)
Smear(h, d, to, withNorm) ==
    LET t == sys[h].resp IN
    IF t.c # Len(ds[d].c) \/ t.r # Len(ds[d].c) THEN Refuse
    ELSE LET c == ApplyM(t.m, ds[d].c) IN
         /\ \E x \in RndC(IF withNorm THEN c ELSE NormC(c)) : ds' = Put(ds, to, [ds[d] EXCEPT !.c = x])
         /\ ret' = Ok(IF withNorm THEN RSum(c) ELSE "0")
         /\ UNCHANGED <<mats, sys, sms>>

(***************************************************************************)
(* The manager                                                              *)
(***************************************************************************)
SetSm(m, v) == sms' = Put(sms, m, v) /\ ret' = Done /\ UNCHANGED <<mats, sys, ds>>
NewSm(m) == SetSm(m, [groups |-> ("" :> <<>>), tot |-> << >>, reg |-> << >>])
NamesOf(hs) == [k \in 1..Len(hs) |-> sys[hs[k]].name]
(* a systematic of the global group is in no other group *)
SmAdd(m, h, g) ==
    LET t == sms[m] IN
    IF g = "" THEN IF \E x \in DOMAIN t.groups : In(NamesOf(t.groups[x]), sys[h].name) THEN Refuse
                   ELSE SetSm(m, [t EXCEPT !.groups[""] = Append(@, h)])
    ELSE SetSm(m, [t EXCEPT !.groups = Put(@, g, IF g \in DOMAIN @ THEN Append(@[g], h) ELSE <<h>>)])
SmCount(m) == LET q == SetToSeq(DOMAIN sms[m].groups) IN FoldLeft(LAMBDA a, k : a + Len(sms[m].groups[q[k]]), 0, [k \in 1..Len(q) |-> k])
SmInfo(m) == Query([n |-> SmCount(m), groups |-> DOMAIN sms[m].groups])
SmGroup(m, g) == IF g \in DOMAIN sms[m].groups THEN Query(NamesOf(sms[m].groups[g])) ELSE Refuse
RECURSIVE Concat(_, _)
Concat(t, gs) == IF gs = <<>> THEN <<>> ELSE NamesOf(t.groups[gs[1]]) \o Concat(t, Tail(gs))
(* the systematics a distribution gets, the global ones first unless the global group is listed *)
Listed(gs) == IF In(gs, "") THEN gs ELSE <<"">> \o gs
SmReg(m, name, gs) ==
    LET t == sms[m] IN
    IF \E k \in 1..Len(gs) : gs[k] \notin DOMAIN t.groups THEN Refuse
    ELSE IF ~Distinct(Concat(t, Listed(gs))) THEN Refuse
    ELSE SetSm(m, [t EXCEPT !.reg = Put(@, name, gs)])
Members(m) == UNION {{sms[m].groups[g][k] : k \in 1..Len(sms[m].groups[g])} : g \in DOMAIN sms[m].groups}
RECURSIVE Chain(_, _)      \* the last systematic's matrix comes leftmost
Chain(s, hs) == LET n == Len(hs) IN
    IF n = 1 THEN s[hs[1]].resp
    ELSE LET rest == TLCEval(Chain(s, SubSeq(hs, 1, n - 1)))  t == s[hs[n]].resp IN
         [r |-> t.r, c |-> rest.c, m |-> MulM(t.m, rest.m, rest.c)]
RECURSIVE Chains(_, _)
Chains(s, hs) == \A k \in 2..Len(hs) : s[hs[k]].resp.c = s[hs[k - 1]].resp.r
Used(t) == {g \in DOMAIN t.groups : t.groups[g] # <<>>}
SmConstruct(m) ==
    LET t == sms[m]
        good == {h \in Members(m) : CanConstruct(sys[h])}
        With(S) == [h \in DOMAIN sys |-> IF h \in S THEN Built(sys[h]) ELSE sys[h]]
    IN /\ UNCHANGED <<mats, ds>>
       /\ \A h \in good : Defined(sys[h])
       /\ IF good # Members(m)
          THEN ret' = Refused /\ UNCHANGED sms /\ \E S \in SUBSET good : sys' = With(S)
          ELSE LET s == TLCEval(With(good)) IN
               /\ sys' = s
               /\ IF \E g \in Used(t) : ~Chains(s, t.groups[g])
                  THEN /\ ret' = Refused
                       /\ \E S \in SUBSET {g \in Used(t) : Chains(s, t.groups[g])} :
                            sms' = [sms EXCEPT ![m].tot = [g \in DOMAIN @ \cup S |-> IF g \in S THEN Chain(s, t.groups[g]) ELSE @[g]]]
                  ELSE /\ ret' = Done
                       /\ sms' = [sms EXCEPT ![m].tot = [g \in DOMAIN @ \cup Used(t) |-> IF g \in Used(t) THEN Chain(s, t.groups[g]) ELSE @[g]]]
SmTotal(m, g) == IF g \in DOMAIN sms[m].tot THEN Query(sms[m].tot[g].m) ELSE Refuse
Steps(t, name) == SelectSeq(Listed(t.reg[name]), LAMBDA g : ~(g = "" /\ t.groups[""] = <<>>))
RECURSIVE Through(_, _, _)
Through(t, gs, c) == IF gs = <<>> THEN c ELSE Through(t, Tail(gs), TLCEval(ApplyM(t.tot[gs[1]].m, c)))
Applies(t, gs, c) == \A k \in 1..Len(gs) : gs[k] \in DOMAIN t.tot /\ t.tot[gs[k]].c = Len(c) /\ t.tot[gs[k]].r = Len(c)
Registered(t, o) == ds[o].name \in DOMAIN t.reg
(* each distribution that is registered becomes its original after its groups; the others stay *)
Distort(m, orig, work) ==
    LET t == sms[m]
        Out(k) == Through(t, Steps(t, ds[orig[k]].name), ds[orig[k]].c)
    IN IF \E k \in 1..Len(orig) : Registered(t, orig[k]) /\ ~Applies(t, Steps(t, ds[orig[k]].name), ds[orig[k]].c) THEN Refuse
       ELSE LET v == TLCEval([k \in 1..Len(work) |-> IF Registered(t, orig[k]) THEN [ds[orig[k]] EXCEPT !.c = Out(k)] ELSE ds[work[k]]])
            IN /\ ds' = [d \in DOMAIN ds |-> IF In(work, d) THEN v[PosIn(work, d)] ELSE ds[d]]
               /\ ret' = Ok([k \in 1..Len(work) |-> IF Registered(t, orig[k]) THEN RSum(v[k].c) ELSE "-1"])
               /\ UNCHANGED <<mats, sys, sms>>

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
SquareResponses == \A h \in DOMAIN sys : sys[h].resp.r = sys[h].resp.c \/ sys[h].resp.r # NBins(sys[h].axes)
(* no registered distribution gets a systematic twice from its own groups as they were then *)
GlobalAlone == \A m \in DOMAIN sms : LET t == sms[m] IN Distinct(NamesOf(t.groups[""]))
RefusedIsNoop == [][ret' = Refused => UNCHANGED <<mats, ds>>]_vars
=============================================================================
