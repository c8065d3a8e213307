------------------------------ MODULE ChainSys ------------------------------
(***************************************************************************)
(* C22: Markov chains.  From a start the chain goes, step by step, to what   *)
(* its sampler proposes or stays; what it remembers is where it was.         *)
(*                                                                          *)
(* The random numbers are inputs (harness/rootshim/TRandom3.h), so are the   *)
(* proposals of a scripted sampler.                                          *)
(***************************************************************************)
EXTENDS FitSys

VARIABLES chains   \* handle -> configuration
cvars == <<fvars, chains>>
CInit == FInit /\ chains = << >>
CDone == ret' = Done
(* min, max, start: functions; start << >> for a random one; axes <<>> for those that the ranges suggest *)
ChNew(h, c) == chains' = Put(chains, h, c) /\ ret' = Done /\ UNCHANGED fstate
SamNames(c) == DOMAIN c.min
InRange(c, p) == \A n \in DOMAIN p : RLe(c.min[n], p[n]) /\ RLe(p[n], c.max[n])
ValueAt(c, s, p) == LET v == PolyAt(stats[s].terms, p) IN IF c.flip THEN RNeg(v) ELSE v
Runs(c, s) == /\ DOMAIN c.min = stats[s].names /\ DOMAIN c.max = stats[s].names
              /\ (c.start # << >> => DOMAIN c.start = stats[s].names)
              /\ (c.iter > 0 /\ c.axes # <<>> => {c.axes[k].name : k \in 1..Len(c.axes)} = stats[s].names /\ Len(c.axes) = Cardinality(stats[s].names))

(* what there is along the way *)
Started(c, s, p) == LET v == TLCEval(ValueAt(c, s, p)) IN
    [cur |-> p, val |-> v, n |-> 0, acc |-> 0, best |-> {p}, bestv |-> v, pts |-> <<>>, vals |-> <<>>, rows |-> <<>>]
(* how likely a proposal of value w is taken from one of value v: certainly, or with this chance *)
Surely(c, v, w, corr) == IF c.logged THEN RLt("0", RAdd(RSub(w, v), corr)) ELSE RLt("1", RDiv(w, v))
Chance(c, v, w, corr) == IF Surely(c, v, w, corr) THEN "1" ELSE IF c.logged THEN RExp(RAdd(RSub(w, v), corr)) ELSE RDiv(w, v)
(* u: the number decided with, or none *)
Taken(c, s, st, p, us, corr) ==
    IF ~InRange(c, p) THEN FALSE
    ELSE LET w == ValueAt(c, s, p) IN
         IF Surely(c, st.val, w, corr) \/ us = <<>> THEN TRUE ELSE RLe(us[1], Chance(c, st.val, w, corr))
(* a number to decide with is needed *)
Decides(c, s, st, p, corr) == IF ~InRange(c, p) THEN FALSE ELSE RLt(Chance(c, st.val, ValueAt(c, s, p), corr), "0.999999999")
Counted(c, n) == n > c.burn /\ n - c.thin * (n \div c.thin) = 0
Stepped(c, s, st, p, take) ==
    LET q == IF take THEN p ELSE st.cur
        v == TLCEval(IF take THEN ValueAt(c, s, p) ELSE st.val)
        cnt == Counted(c, st.n)
    IN TLCEval(
       [cur |-> q, val |-> v, n |-> st.n + 1, acc |-> st.acc + (IF take THEN 1 ELSE 0),
        best |-> IF ~take THEN st.best ELSE IF RLt(st.bestv, v) THEN {p} ELSE IF REq(st.bestv, v) THEN st.best \cup {p} ELSE st.best,
        bestv |-> IF take /\ RLt(st.bestv, v) THEN v ELSE st.bestv,
        pts |-> IF cnt THEN Append(st.pts, q) ELSE st.pts,
        vals |-> IF cnt THEN Append(st.vals, v) ELSE st.vals,
        rows |-> Append(st.rows, [v |-> v, acc |-> take, n |-> st.n, at |-> q])])

(***************************************************************************)
(* What the samplers propose                                                *)
(***************************************************************************)
(* the numbers drawn, one for each name, in some order *)
Orders(N, k) == {f \in [N -> 1..k] : \A a, b \in N : a # b => f[a] # f[b]}
Pull(u) == RSub(RMul("6", u), "3")
Near1(x, y) == RTol(x, y, "0.000000001", "0.000000001")
NearP(f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : Near1(f[n], g[n])
MetroTo(sm, cur, us) ==
    LET free == DOMAIN cur \ ToSet(sm.fix) IN
    {[n \in DOMAIN cur |-> IF n \in free THEN RAdd(cur[n], RMul(sm.sig[n], Pull(us[f[n]]))) ELSE cur[n]] : f \in Orders(free, Len(us))}
Kinetic(m, p) == RSum([k \in 1..Cardinality(DOMAIN p) |-> LET n == SetToSeq(DOMAIN p)[k] IN RDiv(RMul(p[n], p[n]), RMul("2", m[n]))])
HmcFrom(sm, s, cur, us, f) ==
    LET p0 == [n \in DOMAIN cur |-> RMul(RSqrt(sm.m[n]), Pull(us[f[n]]))]
        o == [s |-> s, e |-> RMul("0.05", sm.eps), m |-> sm.m, q |-> cur, p |-> p0, lo |-> sm.lo, hi |-> sm.hi]
        walled == sm.lo # << >>
        r == TLCEval(IF walled THEN Leap(o, sm.eps, sm.n) ELSE [Leap([o EXCEPT !.hi = << >>], sm.eps, sm.n) EXCEPT !.sure = TRUE])
    IN [q |-> r.q, corr |-> RSub(Kinetic(sm.m, p0), Kinetic(sm.m, r.p)), sure |-> r.sure]

(***************************************************************************)
(* A whole chain, as it was observed                                        *)
(***************************************************************************)
(* one step: e = [p: proposal, cur: where it was proposed from, corr, du: numbers drawn for it, u: numbers drawn after it, ev: points evaluated] *)
Proposed(s, sm, e) ==
    CASE sm.kind = "script" -> REq(e.corr, e.wish.corr) /\ NearP(e.p, e.wish.p)
      [] sm.kind = "metro" -> REq(e.corr, "0") /\ \E q \in MetroTo(sm, e.cur, e.du) : NearP(q, e.p)
      [] OTHER -> \E f \in Orders(DOMAIN e.cur, Len(e.du)) : LET r == HmcFrom(sm, s, e.cur, e.du, f) IN ~r.sure \/ (NearP(r.q, e.p) /\ Near1(r.corr, e.corr))
SameP(f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : RSame(f[n], g[n])
Follows(c, s, sm, st, e) ==
    /\ SameP(e.cur, st.cur)
    /\ Proposed(s, sm, e)
    /\ \A k \in 1..Len(e.ev) : IF sm.kind = "hmc" THEN TRUE ELSE InRange(c, e.ev[k])
    /\ Decides(c, s, st, e.p, e.corr) => Len(e.u) > 0
Through(c, s, sm, st0, steps) ==
    FoldLeft(LAMBDA a, e : IF ~a.ok THEN a
                           ELSE IF ~TLCEval(Follows(c, s, sm, a.st, e)) THEN [a EXCEPT !.ok = FALSE]
                           ELSE [a EXCEPT !.st = Stepped(c, s, a.st, e.p, Taken(c, s, a.st, e.p, e.u, e.corr))],
             [ok |-> TRUE, st |-> st0], steps)
StartOk(c, p, us) ==
    IF c.start # << >> THEN SameP(p, c.start)
    ELSE \E f \in Orders(SamNames(c), Len(us)) : NearP([n \in SamNames(c) |-> RAdd(c.min[n], RMul(us[f[n]], RSub(c.max[n], c.min[n])))], p)

(* the histograms: how many of the counted points lie where *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Top(c, n) == IF REq(c.min[n], c.max[n]) THEN RAdd(c.max[n], "0.01") ELSE c.max[n]
(* the bins the ranges suggest: the dth root of the number of steps in each of d directions *)
Suggested(c, ax) ==
    LET nb == Len(ax.lo)  d == Cardinality(SamNames(c)) IN
    /\ nb > 0 /\ Pow(nb, d) <= c.iter /\ (c.iter < Pow(nb + 1, d) \/ c.iter = Pow(nb + 1, d))
    /\ \A k \in 1..nb : LET w == RDiv(RSub(Top(c, ax.name), c.min[ax.name]), nb) IN
         Near1(ax.lo[k], RAdd(c.min[ax.name], RMul(k - 1, w))) /\ Near1(ax.hi[k], RAdd(c.min[ax.name], RMul(k, w)))
AxisOk(c, n, ax) == /\ ax.name = n
                    /\ IF c.axes = <<>> THEN Suggested(c, ax)
                       ELSE LET a == c.axes[CHOOSE k \in 1..Len(c.axes) : c.axes[k].name = n] IN
                            Len(a.lo) = Len(ax.lo) /\ \A k \in 1..Len(a.lo) : RSame(a.lo[k], ax.lo[k]) /\ RSame(a.hi[k], ax.hi[k])
Filled(h, pts) == FoldLeft(LAMBDA c, p : FillC([h EXCEPT !.c = c], [d \in 1..Len(h.axes) |-> p[h.axes[d].name]], "1"), Zeros(h.axes), pts)
HistGood(c, names, h, pts) == /\ Len(h.axes) = Len(names) /\ \A k \in 1..Len(names) : AxisOk(c, names[k], h.axes[k])
                              /\ LET z == TLCEval(Filled(h, pts)) IN Len(z) = Len(h.c) /\ \A b \in 1..Len(z) : REq(z[b], h.c[b])
(* names: the parameters, in order *)
Later(names) == UNION {{<<names[j], names[i]>> : i \in 1..j - 1} : j \in 1..Len(names)}
(* x: the first "-" of a name is "_" in the tree, done by whoever looks *)
RowOk(r, x) == /\ Near1(r.v, x.v) /\ r.acc = x.acc /\ r.n = x.n /\ DOMAIN r.at = DOMAIN x.at /\ \A n \in DOMAIN r.at : RSame(r.at[n], x.at[n])
AcOk(vals, ac) ==
    LET t == TLCEval(FoldLeft(LAMBDA t, x : TLCEval(AcAfter(t, x)), NoAc(Len(vals)), vals)) IN
    \A k \in 1..Len(ac) : k <= Len(vals) /\ RLt("0.0001", t.q[k]) => RTol(RDiv(t.d[k], t.q[k]), ac[k], "0.000001", "0.000001")

(* what of an account of n steps does not fit; names: the parameters in order; z: what there is; o: what was observed *)
Shown(c, names, z, o) ==
    {w \in {"rate", "hists", "rows", "correlations"} :
        CASE w = "rate" -> IF z.n = 0 THEN FALSE ELSE ~(Near1(o.rate, RDiv(z.acc, z.n)) /\ Near1(o.rej, RSub("1", RDiv(z.acc, z.n))))
          [] w = "hists" ->
                IF z.n = 0 THEN ~(o.h1 = << >> /\ o.h2 = << >>)
                ELSE IF c.full THEN ~(o.h1 = << >> /\ o.h2 = << >>
                                      /\ HistGood(c, IF c.axes = <<>> THEN names ELSE [k \in 1..Len(c.axes) |-> c.axes[k].name], o.hist, z.pts))
                ELSE ~(/\ DOMAIN o.h1 = ToSet(names) /\ \A n \in ToSet(names) : HistGood(c, <<n>>, o.h1[n], z.pts)
                       /\ DOMAIN o.h2 = {p[1] \o "_" \o p[2] : p \in Later(names)}
                       /\ \A p \in Later(names) : HistGood(c, p, o.h2[p[1] \o "_" \o p[2]], z.pts))
          [] w = "rows" -> IF z.n = 0 THEN FALSE
                           ELSE IF c.save THEN ~(Len(o.rows) = Len(z.rows) /\ \A k \in 1..Len(z.rows) : RowOk(z.rows[k], o.rows[k])) ELSE o.rows # <<>>
          [] OTHER -> ~AcOk(z.vals, o.ac)}
(* what does not fit, if anything; names: the parameters in order; o: what was observed *)
Wrong(c, s, sm, names, o) ==
    IF ~StartOk(c, o.start, o.su) THEN {"start"}
    ELSE IF Len(o.steps) # c.iter THEN {"steps"}
    ELSE UNION {IF ~t.ok THEN {<<"step", t.st.n, t.st.cur>>} ELSE LET z == t.st IN
      Shown(c, names, z, o) \cup
      {w \in {"best", "extreme", "valid"} :
        CASE w = "best" -> ~(/\ NearP(o.best, o.start) \/ \E k \in 1..Len(z.rows) : NearP(o.best, z.rows[k].at)
                           /\ Near1(ValueAt(c, s, o.best), z.bestv))
          [] w = "extreme" -> ~Near1(o.ext, IF c.flip THEN RNeg(z.bestv) ELSE z.bestv)
          [] OTHER -> ~o.valid}
      : t \in {TLCEval(Through(c, s, sm, Started(c, s, o.start), o.steps))}}
ChRun(h, s, sm, names, o) ==
    /\ UNCHANGED <<fstate, chains>>
    /\ LET c == chains[h] IN IF ~Runs(c, s) THEN ret' = Refused ELSE Wrong(c, s, sm, names, o) = {} /\ ret' = Done

(***************************************************************************)
(* The account on its own: told of step after step, cleared, told again      *)
(***************************************************************************)
NoSteps == [n |-> 0, acc |-> 0, pts |-> <<>>, vals |-> <<>>, rows |-> <<>>]
SetSam(h, v) == chains' = Put(chains, h, v) /\ ret' = Done /\ UNCHANGED fstate
SmNew(h, c) == SetSam(h, [c |-> c, z |-> NoSteps])
(* which steps count may be changed at any time, what is kept only before the first of them *)
SmSet(h, burn, thin) == SetSam(h, [chains[h] EXCEPT !.c.burn = burn, !.c.thin = thin])
(* the tree of a chain that was saved stays with the account *)
SmKeep(h, full, save) == chains[h].z.n = 0 /\ (chains[h].c.save => save) /\ SetSam(h, [chains[h] EXCEPT !.c.full = full, !.c.save = save])
Told(c, z, p, v, acc) ==
    LET cnt == Counted(c, z.n) IN
    [n |-> z.n + 1, acc |-> z.acc + (IF acc THEN 1 ELSE 0),
     pts |-> IF cnt THEN Append(z.pts, p) ELSE z.pts, vals |-> IF cnt THEN Append(z.vals, v) ELSE z.vals,
     rows |-> Append(z.rows, [v |-> v, acc |-> acc, n |-> z.n, at |-> p])]
SmFill(h, p, v, acc) ==
    LET t == chains[h] IN
    IF t.z.n = 0 /\ t.c.axes # <<>> /\ Len(t.c.axes) # Cardinality(SamNames(t.c)) THEN ret' = Refused /\ UNCHANGED <<fstate, chains>>
    ELSE SetSam(h, [t EXCEPT !.z = Told(t.c, t.z, p, v, acc)])
(* cleared, it is as if it had been told nothing *)
SmClear(h) == SetSam(h, [chains[h] EXCEPT !.z = NoSteps])
SmGet(h) == ret' = Done /\ UNCHANGED <<fstate, chains>>
=============================================================================
