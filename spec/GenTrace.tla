----------------------------- MODULE GenTrace -----------------------------
(* Checks traces recorded by harness/drv_gen.cpp against GenSys. *)
EXTENDS GenSys, TraceIO

VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1
Matches(same(_, _)) ==
    IF ret'.ok THEN Must(IsOk(ev) /\ same(ret'.v, ev.out.v), ev.op, ret', ev.out)
    ELSE Must(IsRefusal(ev), ev.op, ret', ev.out)
Exact(x, y) == x = y
Void(x, y) == TRUE
Evs(s) == [j \in 1..Len(s) |-> <<RFloor(s[j][1]), s[j][2]>>]
SameEvs(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j][1] = RFloor(b[j][1]) /\ RSame(a[j][2], b[j][2])
Ids(s) == [j \in 1..Len(s) |-> Num(RFloor(s[j][1]))]
Asked == IF ev.poi THEN ev.out.pois ELSE Expected(gens[ev.g])

TraceInit == Init /\ l = 1
TReset == Is("Reset") /\ sets' = << >> /\ gens' = << >> /\ streams' = << >> /\ ret' = Ok(<<>>)
TDraw == Is("Draw") /\ Draw(ev.g, Asked, IF IsOk(ev) THEN Evs(ev.out.v.evs) ELSE <<>>)
         /\ Matches(LAMBDA x, y : x.names = y.names /\ (~ev.take \/ x.taken = y.taken))
TLeft == Is("Left") /\ GenLeft(ev.g, ev.i, IF IsOk(ev) THEN Ids(ev.out.v.evs) ELSE <<>>) /\ Matches(LAMBDA x, y : x = y.n)
TSpread == Is("GenSpread") /\ IsOk(ev) /\ GenSpread(ev.g, ev.i, ev.n, Ids(ev.out.v)) /\ Matches(Void)
TRand == Is("Spread") /\ IsOk(ev) /\ Spread(ev.a, ev.b, ev.n, ev.out.v) /\ Matches(Void)
TSeed == Is("Seed") /\ IsOk(ev) /\ Seed(ev.s, ev.out.v.r) /\ Matches(LAMBDA x, y : x = y.s)
TraceNext ==
    \/ TReset \/ TDraw \/ TLeft \/ TSpread \/ TRand \/ TSeed
    \/ Is("SetNew") /\ SetNew(ev.h, ev.k, ev.names, ev.xs) /\ Matches(Void)
    \/ Is("GenNew") /\ GenNew(ev.g) /\ Matches(Void)
    \/ Is("GenSets") /\ GenSets(ev.g, ev.src) /\ Matches(Void)
    \/ Is("GenRates") /\ GenRates(ev.g, ev.rates) /\ Matches(Void)
    \/ Is("GenBoot") /\ GenBoot(ev.g, ev.flags) /\ Matches(Void)
    \/ Is("GenSeq") /\ GenSeq(ev.g, ev.flags) /\ Matches(Void)
    \/ Is("GenAdd") /\ GenAdd(ev.g, ev.h, ev.rate, ev.seq) /\ Matches(Void)
    \/ Is("GenCut") /\ GenCut(ev.g, ev.lo, ev.hi) /\ Matches(Void)
    \/ Is("GenSetCuts") /\ GenSetCuts(ev.g, ev.cuts) /\ Matches(Void)
    \/ Is("GenClear") /\ GenClear(ev.g) /\ Matches(Void)
    \/ Is("GenReset") /\ GenReset(ev.g) /\ Matches(Void)
    \/ Is("GenCopy") /\ GenCopy(ev.g, ev.to) /\ Matches(Void)
    \/ Is("All") /\ GenAll(ev.g) /\ Matches(LAMBDA x, y : SameEvs(x.evs, y.evs) /\ x.taken = y.taken /\ x.names = y.names)
    \/ Is("Binned") /\ BinnedDraw(ev.pdfs, ev.rates, ev.poi, ev.name, ev.us)
         /\ Matches(LAMBDA x, y : RVSame(x.c, y.c) /\ x.name = y.name /\ x.used = y.used /\ y.sameaxes)
    \/ Is("VonNeumann") /\ VonNeumann(ev.p, ev.dims, ev.a, ev.b, ev.y, ev.us) /\ Matches(LAMBDA x, y : RClose(x.x, y.x) /\ x.used = y.used)
    \/ Is("Gaus") /\ Gaus(ev.mean, ev.sd, ev.u) /\ Matches(RClose)
    \/ Is("Poisson") /\ Poisson(ev.mean, ev.u) /\ Matches(Exact)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
