----------------------------- MODULE ChainTrace -----------------------------
(* Checks traces recorded by harness/drv_chain.cpp against ChainSys. *)
EXTENDS ChainSys, TraceIO

VARIABLE l
tvars == <<cvars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1
Outcome == Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), ev.op, ret', ev.out)
AxesOf(j) == [d \in 1..Len(j) |-> Axis(j[d].name, "", j[d].lo, j[d].hi)]
HistOf(j) == Hist(AxesOf(j.axes), j.c)
HistMap(j) == [n \in {j[k].name : k \in 1..Len(j)} |-> HistOf(j[CHOOSE k \in 1..Len(j) : j[k].name = n])]

TStNew == Is("StNew") /\ StNew(ev.h, {ev.names[k] : k \in 1..Len(ev.names)}, ev.terms) /\ UNCHANGED chains /\ Outcome
ConfOf(e) == [min |-> Fn(e.min), max |-> Fn(e.max), start |-> Fn(e.start), flip |-> e.flip, logged |-> e.logged, iter |-> e.iter, burn |-> e.burn,
              thin |-> e.thin, full |-> e.full, save |-> e.save, axes |-> AxesOf(e.axes)]
TChNew == Is("ChNew") /\ ChNew(ev.c, ConfOf(ev)) /\ Outcome
(* the parameters in order, and as they are called in the tree *)
SamOf(j) == CASE j.kind = "script" -> [kind |-> "script"]
              [] j.kind = "metro" -> [kind |-> "metro", sig |-> Fn(j.sig), fix |-> j.fix]
              [] OTHER -> [kind |-> "hmc", eps |-> j.eps, n |-> j.n, m |-> Fn(j.m), lo |-> Fn(j.lo), hi |-> Fn(j.hi)]
StepOf(j, kind) == [cur |-> Fn(j.cur), p |-> Fn(j.p), corr |-> j.corr, du |-> j.du, u |-> j.u, ev |-> [k \in 1..Len(j.ev) |-> Fn(j.ev[k])]]
                   @@ (IF kind = "script" THEN [wish |-> [p |-> Fn(j.wish.p), corr |-> j.wish.corr]] ELSE << >>)
(* the tree's name of a parameter *)
Branch(n) == LET k == {i \in 1..Len(ev.names) : ev.names[i][1] = n} IN ev.names[CHOOSE i \in k : TRUE][2]
RowOf(j, names) == [v |-> j.v, acc |-> j.acc, n |-> j.n, at |-> LET f == Fn(j.at) IN [n \in ToSet(names) |-> f[Branch(n)]]]
ParNames == [k \in 1..Len(ev.names) |-> ev.names[k][1]]
Seen(o) == [start |-> Fn(o.start), su |-> o.su, steps |-> TLCEval([k \in 1..Len(o.steps) |-> StepOf(o.steps[k], ev.sm.kind)]), best |-> Fn(o.best), ext |-> o.ext,
            valid |-> o.valid, rate |-> o.rate, rej |-> o.rej, h1 |-> HistMap(o.h1), h2 |-> HistMap(o.h2),
            hist |-> IF "hist" \in DOMAIN o THEN HistOf(o.hist) ELSE NoHist,
            rows |-> TLCEval([k \in 1..Len(o.rows) |-> RowOf(o.rows[k], ParNames)]), ac |-> o.ac]
TChRun == /\ Is("ChRun")
          /\ LET c == chains[ev.c] IN
             IF ~Runs(c, ev.s) THEN ret' = Refused /\ UNCHANGED <<fstate, chains>>
             ELSE /\ Must(ev.out.ok, "ChRun refused", ev.c, ev.out)
                  /\ \E o \in {TLCEval(Seen(ev.out.v))} : \E w \in {Wrong(c, ev.s, SamOf(ev.sm), ParNames, o)} : Must(w = {}, "ChRun", w, "")
                  /\ ret' = Done /\ UNCHANGED <<fstate, chains>>
          /\ Outcome
(* the account on its own *)
TSmNew == Is("SmNew") /\ SmNew(ev.h, ConfOf(ev)) /\ Outcome
TSmSet == Is("SmSet") /\ SmSet(ev.h, ev.burn, ev.thin) /\ Outcome
TSmKeep == Is("SmKeep") /\ SmKeep(ev.h, ev.full, ev.save) /\ Outcome
TSmFill == Is("SmFill") /\ SmFill(ev.h, Fn(ev.at), ev.v, ev.acc) /\ Outcome
TSmClear == Is("SmClear") /\ SmClear(ev.h) /\ Outcome
SeenSam(o) == [rate |-> o.rate, rej |-> o.rej, h1 |-> HistMap(o.h1), h2 |-> HistMap(o.h2),
               hist |-> IF "hist" \in DOMAIN o THEN HistOf(o.hist) ELSE NoHist,
               rows |-> TLCEval([k \in 1..Len(o.rows) |-> RowOf(o.rows[k], ParNames)]), ac |-> o.ac]
TSmGet == /\ Is("SmGet") /\ SmGet(ev.h) /\ Outcome
          /\ LET t == chains[ev.h] IN
             /\ Must(ev.out.v.full = t.c.full /\ ev.out.v.save = t.c.save /\ ev.out.v.burn = t.c.burn /\ ev.out.v.thin = t.c.thin, "SmGet settings", t.c, ev.out.v)
             /\ \E o \in {TLCEval(SeenSam(ev.out.v))} : \E w \in {Shown(t.c, ParNames, t.z, o)} : Must(w = {}, "SmGet", w, t.z)
TReset == Is("Reset") /\ stats' = << >> /\ chains' = << >> /\ ret' = Done /\ UNCHANGED <<grids, fits, acs, orbs>>
TraceInit == CInit /\ l = 1
TraceNext == TStNew \/ TChNew \/ TChRun \/ TSmNew \/ TSmSet \/ TSmKeep \/ TSmFill \/ TSmClear \/ TSmGet \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceRefusedIsNoop == [][~ret'.ok => UNCHANGED <<fstate, chains>>]_tvars
=============================================================================
