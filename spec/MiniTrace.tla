----------------------------- MODULE MiniTrace -----------------------------
(* Checks traces recorded by harness/drv_mini.cpp against MiniSys. *)
EXTENDS MiniSys, TraceIO

VARIABLE l
tvars == <<mnvars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1
Outcome == Must(IsOk(ev), ev.op, ret', ev.out)
SameMat(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RVSame(x[i], y[i])
SameRes(x, y) == SameFn(x.best, y.best) /\ RClose(x.ext, y.ext) /\ x.valid = y.valid /\ SameMat(x.cov, y.cov)
SameSet(x, y) == /\ SameFn(x.min, y.min) /\ SameFn(x.max, y.max) /\ x.method = y.method /\ x.strategy = y.strategy /\ x.calls = y.calls
                 /\ REq(RDouble(x.tol), y.tol) /\ REq(RDouble(x.up), y.up) /\ x.mx = y.mx /\ SameRes(x.res, y.res)
(* does the fit look like this if names are numbered this way? *)
Told(t, q, y) ==
    /\ Len(y.init) = Len(q) /\ Len(y.errs) = Len(q)
    /\ \A i \in 1..Len(q) : LET n == q[i] IN
        /\ REq(RDouble(t.vals[n]), y.init[i]) /\ REq(RDouble(t.errs[n]), y.errs[i]) /\ y.fixed[i] = (n \in t.fixed)
        /\ (n \notin t.fixed => /\ y.haslo[i] = (n \in DOMAIN t.min) /\ y.hashi[i] = (n \in DOMAIN t.min)
                                /\ (n \in DOMAIN t.min => REq(t.min[n], y.lo[i]) /\ REq(t.max[n], y.hi[i])))
    /\ y.algo = t.method /\ y.strategy = t.strategy /\ y.calls = t.calls /\ REq(RDouble(t.tol), y.tol) /\ REq(RDouble(t.up), y.up)
Answered(q, r, y) ==
    /\ Len(y.evals) = Len(r.at)
    /\ \A k \in 1..Len(r.at) : SameFn(r.at[k], y.evals[k].at) /\ RClose(r.f[k], y.evals[k].f) /\ \A i \in 1..Len(q) : RSame(r.at[k][q[i]], y.evals[k].x[i])
Numbered == {q \in Orders(stats[ev.s].names) : IF IsOk(ev) THEN Told(mins[ev.m], q, ev.out.v) ELSE FALSE}
TRun == /\ Is("MnRun")
        /\ IF ~CanRun(mins[ev.m], ev.s) THEN MnRun(ev.m, ev.s, <<>>, <<>>, TRUE, FALSE, <<>>) /\ Must(IsRefusal(ev), ev.op, "refused", ev.out)
           ELSE LET N == TLCEval(Numbered)
                    G == TLCEval({q \in N : Answered(q, Fit(mins[ev.m], ev.s, q, ev.pts, ev.valid, ev.hascov, ev.cov), ev.out.v)})
                IN /\ Must(N # {}, ev.op, mins[ev.m], ev.out)
                   /\ Must(G # {}, ev.op, Fit(mins[ev.m], ev.s, CHOOSE q \in N : TRUE, ev.pts, ev.valid, ev.hascov, ev.cov), ev.out)
                   /\ \E q \in {CHOOSE q \in G : TRUE} : MnRun(ev.m, ev.s, q, ev.pts, ev.valid, ev.hascov, ev.cov) /\ Must(SameRes(ret'.v.res, ev.out.v.res), ev.op, ret'.v.res, ev.out.v.res)
TraceInit == MnInit /\ l = 1
TraceNext ==
    \/ Is("Reset") /\ stats' = << >> /\ mins' = << >> /\ ret' = Done
    \/ TRun
    \/ Is("StNew") /\ StNew(ev.h, {ev.names[k] : k \in 1..Len(ev.names)}, ev.terms) /\ Outcome
    \/ Is("MnNew") /\ MnNew(ev.m) /\ Outcome
    \/ (Is("MnCopy") \/ Is("MnAssign")) /\ MnCopy(ev.m, ev.to) /\ Outcome
    \/ Is("MnVals") /\ MnVals(ev.m, ev.d) /\ Outcome
    \/ Is("MnErrs") /\ MnErrs(ev.m, ev.d) /\ Outcome
    \/ Is("MnMin") /\ MnMin(ev.m, ev.d) /\ Outcome
    \/ Is("MnMax") /\ MnMax(ev.m, ev.d) /\ Outcome
    \/ Is("MnFix") /\ MnFix(ev.m, ev.n) /\ Outcome
    \/ Is("MnRelease") /\ MnRelease(ev.m, ev.n) /\ Outcome
    \/ Is("MnMethod") /\ MnMethod(ev.m, ev.x) /\ Outcome
    \/ Is("MnStrategy") /\ MnStrategy(ev.m, ev.x) /\ Outcome
    \/ Is("MnCalls") /\ MnCalls(ev.m, ev.x) /\ Outcome
    \/ Is("MnTol") /\ MnTol(ev.m, ev.x) /\ Outcome
    \/ Is("MnUp") /\ MnUp(ev.m, ev.x) /\ Outcome
    \/ Is("MnMx") /\ MnMx(ev.m, ev.x) /\ Outcome
    \/ Is("MnGet") /\ MnGet(ev.m) /\ Must(IF IsOk(ev) THEN SameSet(ret'.v, ev.out.v) ELSE FALSE, ev.op, ret', ev.out)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceRefusedIsNoop == [][~ret'.ok => UNCHANGED mnstate]_mnvars
=============================================================================
