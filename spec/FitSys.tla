------------------------------- MODULE FitSys -------------------------------
(***************************************************************************)
(* C20, C21, C28, C30: what is fitted and what a fit gives.                  *)
(*                                                                          *)
(* A test statistic is a polynomial of its named parameters.  A grid search  *)
(* goes over all points min + k step <= max (k >= 0 in every parameter) and  *)
(* keeps a best one; a fit result is what was last put into it; credible     *)
(* intervals are read off a posterior; an autocorrelation follows the last N *)
(* values; leapfrog steps move a point and its momenta down a slope.         *)
(***************************************************************************)
EXTENDS Hists, Poly

VARIABLES stats,  \* handle -> [names, terms]
          grids,  \* handle -> grid search
          fits,   \* handle -> fit result
          acs,    \* handle -> running autocorrelation
          orbs,   \* handle -> a point with momenta
          ret
fstate == <<stats, grids, fits, acs, orbs>>
fvars == <<fstate, ret>>
Done == [ok |-> TRUE, v |-> ""]
Ok(v) == [ok |-> TRUE, v |-> v]
Refused == [ok |-> FALSE, v |-> ""]
Put(f, k, v) == (k :> v) @@ f
FInit == stats = << >> /\ grids = << >> /\ fits = << >> /\ acs = << >> /\ orbs = << >> /\ ret = Done
FRefuse == ret' = Refused /\ UNCHANGED fstate
FQuery(v) == ret' = Ok(v) /\ UNCHANGED fstate

StNew(h, names, terms) == stats' = Put(stats, h, [names |-> names, terms |-> terms]) /\ ret' = Done /\ UNCHANGED <<grids, fits, acs, orbs>>

(***************************************************************************)
(* Fit results                                                              *)
(***************************************************************************)
NoHist == Hist(<<>>, <<>>)
NoFit == [best |-> << >>, ext |-> "0", valid |-> TRUE, prec |-> 5, has |-> FALSE, space |-> NoHist, sample |-> <<>>,
          p1 |-> << >>, p2 |-> << >>, cov |-> <<>>]
SetFit(f, v) == fits' = Put(fits, f, v) /\ ret' = Done /\ UNCHANGED <<stats, grids, acs, orbs>>
FrNew(f) == SetFit(f, NoFit)
FrBest(f, d) == SetFit(f, [fits[f] EXCEPT !.best = Fn(d)])
FrExt(f, x) == SetFit(f, [fits[f] EXCEPT !.ext = R(x)])
FrValid(f, b) == SetFit(f, [fits[f] EXCEPT !.valid = b])
FrPrec(f, n) == SetFit(f, [fits[f] EXCEPT !.prec = n])
FrSpace(f, h) == SetFit(f, [fits[f] EXCEPT !.has = TRUE, !.space = h])
FrSample(f, s) == SetFit(f, [fits[f] EXCEPT !.sample = s])
FrCov(f, m) == SetFit(f, [fits[f] EXCEPT !.cov = m])
FrProj(f, which, p) == SetFit(f, IF which = 1 THEN [fits[f] EXCEPT !.p1 = p] ELSE [fits[f] EXCEPT !.p2 = p])
FrGetSpace(f) == IF fits[f].has THEN FQuery(fits[f].space) ELSE FRefuse
(* a copy and an assignment give the same; what becomes of one is nothing to the other *)
FrCopy(f, to) == SetFit(to, fits[f])
FrDel(f) == fits' = [g \in DOMAIN fits \ {f} |-> fits[g]] /\ ret' = Done /\ UNCHANGED <<stats, grids, acs, orbs>>
(* every parameter with its value, to the digits asked for *)
FrString(f) == FQuery(fits[f].best)

(***************************************************************************)
(* Grid searches                                                            *)
(***************************************************************************)
NoGrid == [min |-> << >>, max |-> << >>, step |-> << >>, mx |-> FALSE, res |-> NoFit]
SetGrid(g, v) == grids' = Put(grids, g, v) /\ ret' = Done /\ UNCHANGED <<stats, fits, acs, orbs>>
GrNew(g) == SetGrid(g, NoGrid)
GrMin(g, d) == SetGrid(g, [grids[g] EXCEPT !.min = Fn(d)])
GrMax(g, d) == SetGrid(g, [grids[g] EXCEPT !.max = Fn(d)])
GrStep(g, d) == SetGrid(g, [grids[g] EXCEPT !.step = Fn(d)])
GrMx(g, b) == SetGrid(g, [grids[g] EXCEPT !.mx = b])
Ticks(t, n) == {RAdd(t.min[n], RMul(k, t.step[n])) : k \in 0..RFloor(RDiv(RSub(t.max[n], t.min[n]), t.step[n]))}
RECURSIVE Prod(_, _)
Prod(t, N) == IF N = {} THEN {<< >>} ELSE LET n == CHOOSE n \in N : TRUE  r == TLCEval(Prod(t, N \ {n})) IN
    {(n :> x) @@ p : x \in Ticks(t, n), p \in r}
GridPoints(t) == Prod(t, DOMAIN t.min)
GridOk(t, s) == /\ DOMAIN t.min = DOMAIN t.max /\ DOMAIN t.min = DOMAIN t.step
                /\ \A n \in DOMAIN t.min : RLt("0", t.step[n]) /\ RLe(t.min[n], t.max[n])
                /\ stats[s].names \subseteq DOMAIN t.min
Best(t, s) ==
    LET P == TLCEval(GridPoints(t))
        val == TLCEval([p \in P |-> PolyAt(stats[s].terms, p)])
        q == SetToSeq(P)
        m == TLCEval(FoldLeft(LAMBDA a, p : IF IF t.mx THEN RLt(val[a], val[p]) ELSE RLt(val[p], val[a]) THEN p ELSE a, q[1], q))
    IN [at |-> {p \in P : REq(val[p], val[m])}, v |-> val[m], pts |-> P]
(* p: which of the best points is given *)
GrRunTo(g, b, p) == p \in b.at /\ grids' = [grids EXCEPT ![g].res.best = p, ![g].res.ext = b.v] /\ ret' = Done /\ UNCHANGED <<stats, fits, acs, orbs>>
GrRun(g, s) == IF ~GridOk(grids[g], s) THEN FRefuse ELSE \E b \in {Best(grids[g], s)} : \E p \in b.at : GrRunTo(g, b, p)
GrRes(g, f) == SetFit(f, grids[g].res)

(***************************************************************************)
(* Credible intervals                                                       *)
(***************************************************************************)
(* where the content below reaches the fraction cl of all: linear in the bin that gets there *)
HistOk(h, cl) == ~REq(RSum(h.c), "0") /\ RLt("0", cl) /\ RLe(cl, "1") /\ Len(h.axes) = 1
Cums(c) == FoldLeft(LAMBDA a, x : Append(a, RAdd(IF a = <<>> THEN "0" ELSE a[Len(a)], x)), <<>>, c)
InBin(h, i, cum, goal) == LET a == h.axes[1] IN RSub(a.hi[i], RDiv(RMul(RSub(a.hi[i], a.lo[i]), RSub(cum[i], goal)), h.c[i]))
Crossing(h, cl) == LET cum == TLCEval(Cums(h.c))  goal == RMul(cl, cum[Len(cum)])
                       full == {i \in 1..Len(h.c) : RLt("0", h.c[i])}
                       i == CHOOSE i \in full : RLe(goal, cum[i]) /\ \A j \in full : j < i => RLt(cum[j], goal)
                       (* reached at an edge, to the last digit: or the beginning of what follows *)
                       edge == REq(goal, cum[i]) /\ \E j \in full : j > i
                       nxt == CHOOSE j \in full : j > i /\ \A k \in full : k > i => j <= k
                   IN {InBin(h, i, cum, goal)} \cup (IF edge THEN {h.axes[1].lo[nxt]} ELSE {})
IvHist(h, cl) == IF ~HistOk(h, cl) THEN FRefuse ELSE \E x \in Crossing(h, cl) : FQuery(x)
(* the chance to count no more than n where x are expected, and with it the fraction of the posterior above b that is below b + u *)
RECURSIVE Partial(_, _, _, _)
Partial(x, n, k, t) == IF k > n THEN "0" ELSE RAdd(t, Partial(x, n, k + 1, RDiv(RMul(t, x), k + 1)))
Few(x, n) == Partial(x, n, 0, "1")
Credible(b, n, u) == RSub("1", RMul(RExp(RNeg(u)), RDiv(Few(RAdd(b, u), n), Few(b, n))))
IvCounts(b, n, u) == FQuery(Credible(b, n, u))
(* the first multiple of tol whose credibility is cl within tol *)
Off(b, n, u, cl) == RAbs(RSub(Credible(b, n, u), cl))
RECURSIVE FirstWithin(_, _, _, _, _)
FirstWithin(b, n, cl, tol, u) == IF RLe(Off(b, n, u, cl), tol) THEN u ELSE FirstWithin(b, n, cl, tol, RAdd(u, tol))
BoundOk(cl, tol) == RLt("0", cl) /\ RLe(cl, "1") /\ RLt("0", tol)
IvBound(b, n, cl, tol) == IF ~BoundOk(cl, tol) THEN FRefuse ELSE FQuery(FirstWithin(b, n, cl, tol, "0"))

(***************************************************************************)
(* Autocorrelations                                                         *)
(***************************************************************************)
NoAc(n) == [n |-> n, held |-> <<>>, d |-> [k \in 1..n |-> "0"], q |-> [k \in 1..n |-> "0"]]
SetAc(a, v) == acs' = Put(acs, a, v) /\ ret' = Done /\ UNCHANGED <<stats, grids, fits, orbs>>
AcNew(a, n) == SetAc(a, NoAc(n))
AcClear(a) == SetAc(a, NoAc(acs[a].n))
Newest(s, n) == SubSeq(s, IF Len(s) > n THEN Len(s) - n + 1 ELSE 1, Len(s))
AcMean(t) == RDiv(RSum(t.held), Len(t.held))
AcVar(t) == LET m == AcMean(t) IN RDiv(RSum([k \in 1..Len(t.held) |-> RMul(RSub(t.held[k], m), RSub(t.held[k], m))]), Len(t.held))
AcAfter(t, x) ==
    LET h == TLCEval(Newest(Append(t.held, R(x)), t.n))
        m == RDiv(RSum(h), Len(h))
        dx == RSub(x, m)
    IN [t EXCEPT !.held = h,
                 !.d = TLCEval([k \in DOMAIN @ |-> IF k <= Len(h) THEN RAdd(@[k], RMul(dx, RSub(h[Len(h) - k + 1], m))) ELSE @[k]]),
                 !.q = TLCEval([k \in DOMAIN @ |-> IF k <= Len(h) THEN RAdd(@[k], RMul(dx, dx)) ELSE @[k]])]
AcFill(a, x) == SetAc(a, AcAfter(acs[a], x))
AcGet(a) == FQuery([k \in 1..acs[a].n |-> RDiv(acs[a].d[k], acs[a].q[k])])
AcMeanQ(a) == FQuery(AcMean(acs[a]))
AcVarQ(a) == FQuery(AcVar(acs[a]))

(***************************************************************************)
(* Slopes, energies and leapfrog steps                                      *)
(***************************************************************************)
SlopeQ(s, d, e) == FQuery(Slope(stats[s].terms, Fn(d), e))
EnergyQ(s, d) == FQuery(RNeg(PolyAt(stats[s].terms, Fn(d))))
SoftWall(mu, x) == RLn(RAdd("1", RExp(RMul(mu, x))))
WalledQ(s, d, lo, hi, mu) == LET p == Fn(d) IN
    FQuery(RSum(<<PolyAt(stats[s].terms, p)>> \o [k \in 1..Len(lo) |-> SoftWall(mu, RSub(lo[k][2], p[lo[k][1]]))]
                \o [k \in 1..Len(hi) |-> SoftWall(mu, RSub(p[hi[k][1]], hi[k][2]))]))
(* o: [s: statistic, e: reach of the slope, m: masses, q: place, p: momenta, lo, hi: walls, or none] *)
OrNew(o, s, e, m, q, p, lo, hi) == orbs' = Put(orbs, o, [s |-> s, e |-> e, m |-> Fn(m), q |-> Fn(q), p |-> Fn(p), lo |-> Fn(lo), hi |-> Fn(hi)])
                                   /\ ret' = Done /\ UNCHANGED <<stats, grids, fits, acs>>
Kick(o, g, q, p, t) == LET s == Slope(stats[o.s].terms, q, o.e) IN TLCEval([n \in DOMAIN p |-> RSub(p[n], RMul(t, s[n]))])
Moving(o, q, p, t) == TLCEval([n \in DOMAIN q |-> RAdd(q[n], RDiv(RMul(t, p[n]), o.m[n]))])
(* when n meets a wall *)
Meets(o, q, p, n) == IF RLt(p[n], "0") THEN RDiv(RMul(RSub(o.lo[n], q[n]), o.m[n]), p[n]) ELSE RDiv(RMul(RSub(o.hi[n], q[n]), o.m[n]), p[n])
Margin == "0.000001"
Close(x, y) == RLe(RAbs(RSub(x, y)), Margin)
(* [q, p, sure]: sure unless something happens in a corner, or so late or early that rounding decides *)
RECURSIVE Drift(_, _, _, _)
Drift(o, q, p, t) ==
    LET mv == {n \in DOMAIN q : ~REq(p[n], "0")}
        at == TLCEval([n \in mv |-> Meets(o, q, p, n)])
        hit == {n \in mv : RLt("0", at[n]) /\ RLt(at[n], t)}
        sure0 == \A n \in mv : ~Close(at[n], t) /\ (Close(at[n], "0") => FALSE)
    IN IF hit = {} THEN [q |-> Moving(o, q, p, t), p |-> p, sure |-> sure0]
       ELSE LET n == CHOOSE n \in hit : \A k \in hit : RLe(at[n], at[k])
                r == TLCEval(Drift(o, Moving(o, q, p, at[n]), [p EXCEPT ![n] = RNeg(@)], RSub(t, at[n])))
            IN [r EXCEPT !.sure = @ /\ sure0 /\ \A k \in mv \ {n} : ~Close(at[k], at[n])]
LeapOnce(o, st, t) ==
    LET p1 == Kick(o, 0, st.q, st.p, RDiv(t, "2"))
        d == TLCEval(IF o.lo = << >> THEN [q |-> Moving(o, st.q, p1, t), p |-> p1, sure |-> TRUE] ELSE Drift(o, st.q, p1, t))
    IN TLCEval([q |-> d.q, p |-> Kick(o, 0, d.q, d.p, RDiv(t, "2")), sure |-> d.sure /\ st.sure])
Leap(o, t, n) == FoldLeft(LAMBDA st, k : LeapOnce(o, st, t), [q |-> o.q, p |-> o.p, sure |-> TRUE], [k \in 1..n |-> k])
(* to: where it is found (exactly r in the explored instances; what was observed, if it is close, in a trace) *)
OrRunTo(o, to) == orbs' = [orbs EXCEPT ![o].q = to.q, ![o].p = to.p] /\ ret' = Done /\ UNCHANGED <<stats, grids, fits, acs>>
OrRun(o, t, n) == OrRunTo(o, Leap(orbs[o], t, n))
OrFlip(o) == orbs' = [orbs EXCEPT ![o].p = [n \in DOMAIN @ |-> RNeg(@[n])]] /\ ret' = Done /\ UNCHANGED <<stats, grids, fits, acs>>
=============================================================================
