------------------------------ MODULE MiniSys ------------------------------
(***************************************************************************)
(* C29: fits by Minuit.                                                     *)
(*                                                                          *)
(* Minuit2 numbers its parameters and only minimises; the wrapper gives it   *)
(* named parameters and may maximise.  In Minuit2's place stands a minimiser *)
(* that tries the start and then the points it is given - a fixed parameter  *)
(* stays where it starts, a limited one between its limits - and answers     *)
(* with the best of them.  order is how names are numbered: any order is     *)
(* good as long as it is one order throughout.                              *)
(***************************************************************************)
EXTENDS Poly

VARIABLES stats, \* handle -> [names, terms]
          mins,  \* handle -> settings and result
          ret
mnstate == <<stats, mins>>
mnvars == <<mnstate, ret>>
Done == [ok |-> TRUE, v |-> ""]
Ok(v) == [ok |-> TRUE, v |-> v]
Put(f, k, v) == (k :> v) @@ f
MnInit == stats = << >> /\ mins = << >> /\ ret = Done
MnRefuse == ret' = [ok |-> FALSE, v |-> ""] /\ UNCHANGED mnstate
StNew(h, names, terms) == stats' = Put(stats, h, [names |-> names, terms |-> terms]) /\ ret' = Done /\ UNCHANGED mins

NoResult == [best |-> << >>, ext |-> "0", valid |-> TRUE, cov |-> <<>>]
DFn(d) == [n \in PNames(d) |-> RDouble(PGet(d, n))] \* a double is what is kept
Fresh == [vals |-> << >>, errs |-> << >>, min |-> << >>, max |-> << >>, fixed |-> {}, method |-> "Migrad", strategy |-> 2, calls |-> 0,
          tol |-> "0.1", up |-> "0.5", mx |-> FALSE, res |-> NoResult]
SetMin(m, v) == mins' = Put(mins, m, v) /\ ret' = Done /\ UNCHANGED stats
MnNew(m) == SetMin(m, Fresh)
MnVals(m, d) == SetMin(m, [mins[m] EXCEPT !.vals = DFn(d)])
MnErrs(m, d) == SetMin(m, [mins[m] EXCEPT !.errs = DFn(d)])
MnMin(m, d) == SetMin(m, [mins[m] EXCEPT !.min = DFn(d)])
MnMax(m, d) == SetMin(m, [mins[m] EXCEPT !.max = DFn(d)])
MnFix(m, n) == SetMin(m, [mins[m] EXCEPT !.fixed = @ \cup {n}])
MnRelease(m, n) == SetMin(m, [mins[m] EXCEPT !.fixed = @ \ {n}])
MnMethod(m, x) == SetMin(m, [mins[m] EXCEPT !.method = x])
MnStrategy(m, x) == SetMin(m, [mins[m] EXCEPT !.strategy = x])
MnCalls(m, x) == SetMin(m, [mins[m] EXCEPT !.calls = x])
MnTol(m, x) == SetMin(m, [mins[m] EXCEPT !.tol = RDouble(x)])
MnUp(m, x) == SetMin(m, [mins[m] EXCEPT !.up = RDouble(x)])
MnMx(m, x) == SetMin(m, [mins[m] EXCEPT !.mx = x])
(* a copy, made into a new handle or assigned to one: settings and result *)
MnCopy(m, to) == SetMin(to, mins[m])
MnGet(m) == ret' = Ok(mins[m]) /\ UNCHANGED mnstate

Methods == {"Migrad", "Minimize", "Simplex"}
CanRun(t, s) ==
    /\ DOMAIN t.min = DOMAIN t.max /\ \A n \in DOMAIN t.min : RLt(t.min[n], t.max[n])
    /\ DOMAIN t.vals = DOMAIN t.errs /\ DOMAIN t.vals = stats[s].names
    /\ t.fixed \subseteq stats[s].names /\ t.method \in Methods
Orders(N) == {q \in [1..Cardinality(N) -> N] : \A i, j \in 1..Cardinality(N) : q[i] = q[j] => i = j}
Within(t, n, x) ==
    IF n \in t.fixed THEN t.vals[n]
    ELSE IF n \notin DOMAIN t.min THEN R(x) ELSE IF RLt(x, t.min[n]) THEN t.min[n] ELSE IF RLt(t.max[n], x) THEN t.max[n] ELSE R(x)
At(p, i) == IF i <= Len(p) THEN RDouble(p[i]) ELSE "0"
(* the points tried, by name *)
Tried(t, q, pts) == [k \in 1..Len(pts) + 1 |-> [n \in {q[i] : i \in DOMAIN q} |-> LET i == CHOOSE i \in DOMAIN q : q[i] = n IN
                        Within(t, n, IF k = 1 THEN t.vals[n] ELSE At(pts[k - 1], i))]]
Flip(t, x) == IF t.mx THEN RNeg(x) ELSE x
(* the numbers of a symmetric matrix, row by row up to the diagonal *)
Sym(c, n) == [i \in 1..n |-> [j \in 1..n |-> LET a == IF i < j THEN i ELSE j  b == IF i < j THEN j ELSE i IN c[((b - 1) * b) \div 2 + a]]]
Free(t) == Cardinality(DOMAIN t.vals) - Cardinality(t.fixed)
(* what the minimiser is told and answered, and the result *)
Fit(t, s, q, pts, valid, hascov, cov) ==
    LET at == TLCEval(Tried(t, q, pts))
        f == TLCEval([k \in DOMAIN at |-> Flip(t, PolyAt(stats[s].terms, at[k]))])
        b == CHOOSE k \in DOMAIN f : (\A j \in DOMAIN f : RLe(f[k], f[j])) /\ \A j \in 1..k - 1 : ~REq(f[j], f[k])
    IN [order |-> q, at |-> at, f |-> f,
        res |-> [best |-> at[b], ext |-> PolyAt(stats[s].terms, at[b]), valid |-> valid, cov |-> IF hascov THEN Sym(cov, Free(t)) ELSE <<>>]]
MnRun(m, s, q, pts, valid, hascov, cov) ==
    IF ~CanRun(mins[m], s) THEN MnRefuse
    ELSE \E r \in {Fit(mins[m], s, q, pts, valid, hascov, cov)} : mins' = [mins EXCEPT ![m].res = r.res] /\ ret' = Ok(r) /\ UNCHANGED stats
=============================================================================
