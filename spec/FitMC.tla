-------------------------------- MODULE FitMC --------------------------------
(* Exhaustive instances of FitSys to a bounded depth; prints tests. *)
EXTENDS FitSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<fvars, log>>
Log(o) == log' = Append(log, o)
On(o) == o \in Ops
MCInit == FInit /\ log = <<>>
First == log = <<>>
T(k, x) == [k |-> k, x |-> x]
(* x^2 - 3x + 2y - x y z ... in up to three parameters *)
Stat1 == [names |-> {"x"}, terms |-> <<T("1", <<"x","x">>), T("-3/2", <<"x">>), T("1/4", <<>>)>>]
Stat2 == [names |-> {"x","y"}, terms |-> <<T("1", <<"x","x">>), T("-1", <<"x","y">>), T("1/2", <<"y","y","y">>), T("-2", <<"y">>)>>]
Stat3 == [names |-> {"x","y","z"}, terms |-> <<T("1", <<"x","y">>), T("-1", <<"z","z">>), T("3", <<"z">>), T("-1/2", <<"y","z">>)>>]
StatOf(n) == CASE n = 1 -> Stat1 [] n = 2 -> Stat2 [] n = 3 -> Stat3
StatJ(n) == [op |-> "StNew", h |-> "s", names |-> SetToSeq(StatOf(n).names), terms |-> StatOf(n).terms]

(***************************************************************************)
(* Grid searches over one to three parameters                               *)
(***************************************************************************)
Dicts(n) == SubSeq(<< <<"x", "1">>, <<"y", "-1">>, <<"z", "0">> >>, 1, n)
Lower(n, k) == [i \in 1..n |-> <<Dicts(n)[i][1], <<"-1", "1/2", "0">>[((i + k) % 3) + 1]>>]
Upper(n, k) == [i \in 1..n |-> <<Dicts(n)[i][1], <<"2", "1/2", "1", "-2">>[((i + k) % 4) + 1]>>]
Steps(n, k) == [i \in 1..n |-> <<Dicts(n)[i][1], <<"1/2", "1", "3/4", "0">>[((i * k) % 4) + 1]>>]
DoGrid == On("Grid") /\
    \/ First /\ \E n \in 1..3 : stats' = ("s" :> StatOf(n)) /\ grids' = ("g" :> NoGrid) /\ ret' = Done /\ UNCHANGED <<fits, acs, orbs>>
                 /\ log' = <<StatJ(n), [op |-> "GrNew", g |-> "g"]>>
    \/ /\ ~First /\ LET t == grids["g"]  n == Cardinality(stats["s"].names) IN
        \/ t.min = << >> /\ \E k \in 0..2, m \in {n, n - 1, n + 1} \cap 1..3 : GrMin("g", Lower(m, k)) /\ Log([op |-> "GrMin", g |-> "g", d |-> Lower(m, k)])
        \/ t.min # << >> /\ t.max = << >> /\ \E k \in 0..3, m \in {n} : GrMax("g", Upper(m, k)) /\ Log([op |-> "GrMax", g |-> "g", d |-> Upper(m, k)])
        \/ t.max # << >> /\ t.step = << >> /\ \E k \in 0..3, m \in {n} : GrStep("g", Steps(m, k)) /\ Log([op |-> "GrStep", g |-> "g", d |-> Steps(m, k)])
        \/ t.step # << >> /\ (GridOk(t, "s") => ~t.mx) /\ GrMx("g", ~t.mx) /\ Log([op |-> "GrMx", g |-> "g", on |-> ~t.mx])
        \/ t.step # << >> /\ GrRun("g", "s") /\ Log([op |-> "GrRun", g |-> "g", s |-> "s"])
        \/ "f" \notin DOMAIN fits /\ t.res # NoFit /\ GrRes("g", "f") /\ Log([op |-> "GrRes", g |-> "g", f |-> "f"])

(***************************************************************************)
(* Fit results: two of them                                                 *)
(***************************************************************************)
AX == [x |-> Axis("x", "", <<"0","1">>, <<"1","3">>), y |-> Axis("y", "", <<"1","2">>, <<"2","4">>)]
Build(s) == [k \in 1..Len(s) |-> AX[s[k]]]
HJ(s, c) == [axes |-> [k \in 1..Len(s) |-> [name |-> s[k], lo |-> AX[s[k]].lo, hi |-> AX[s[k]].hi]], c |-> c]
PJ(n, s, c) == [name |-> n, axes |-> HJ(s, c).axes, c |-> c]
DoFit == On("Fit") /\
    \/ First /\ FrNew("f") /\ Log([op |-> "FrNew", f |-> "f"])
    \/ \E f \in DOMAIN fits :
        \/ \E d \in {<< <<"b", "1234567/1024">>, <<"a", "-21/64">> >>} : fits[f].best = << >> /\ FrBest(f, d) /\ Log([op |-> "FrBest", f |-> f, d |-> d])
        \/ fits[f].ext = "0" /\ FrExt(f, "7/2") /\ Log([op |-> "FrExt", f |-> f, x |-> "7/2"])
        \/ fits[f].valid /\ FrValid(f, FALSE) /\ Log([op |-> "FrValid", f |-> f, on |-> FALSE])
        \/ fits[f].prec = 5 /\ \E n \in {2, 9} : FrPrec(f, n) /\ Log([op |-> "FrPrec", f |-> f, n |-> n])
        \/ \E c \in {<<"1","2">>, <<"5","0">>} : FrSpace(f, Hist(Build(<<"x">>), c)) /\ Log([op |-> "FrSpace", f |-> f, hist |-> HJ(<<"x">>, c)])
        \/ fits[f].sample = <<>> /\ LET r == << <<"1","2">>, <<"3">> >> IN FrSample(f, r) /\ Log([op |-> "FrSample", f |-> f, rows |-> r])
        \/ fits[f].cov = <<>> /\ LET r == << <<"1","2">>, <<"2","9">> >> IN FrCov(f, r) /\ Log([op |-> "FrCov", f |-> f, rows |-> r])
        \/ fits[f].p1 = << >> /\ FrProj(f, 1, ("x" :> Hist(Build(<<"x">>), <<"4","1">>))) /\ Log([op |-> "FrProj", f |-> f, which |-> 1, hists |-> <<PJ("x", <<"x">>, <<"4","1">>)>>])
        \/ fits[f].p2 = << >> /\ LET c == <<"1","2","3","4">> IN FrProj(f, 2, ("x_y" :> Hist(Build(<<"x","y">>), c))) /\ Log([op |-> "FrProj", f |-> f, which |-> 2, hists |-> <<PJ("x_y", <<"x","y">>, c)>>])
        \/ FrGetSpace(f) /\ Log([op |-> "FrGetSpace", f |-> f])
        \/ fits[f].best # << >> /\ FrString(f) /\ Log([op |-> "FrString", f |-> f])
        \/ \E to \in {"f", "g"} \ {f}, how \in {"copy", "assign"} : (to \notin DOMAIN fits => how = "copy") /\ FrCopy(f, to) /\ Log([op |-> "FrCopy", f |-> f, to |-> to, how |-> how])
        \/ Cardinality(DOMAIN fits) > 1 /\ FrDel(f) /\ Log([op |-> "FrDel", f |-> f])

(***************************************************************************)
(* Intervals, autocorrelations, slopes: questions without a history, all at  *)
(* once                                                                     *)
(***************************************************************************)
Posts == {<<"1","2","1">>, <<"0","4","0">>, <<"3","0","1">>, <<"0","0","0">>, <<"0","1","7">>, <<"2","2","0">>}
Ax3 == Axis("x", "", <<"0","1","2">>, <<"1","2","4">>)
H3J(c) == [axes |-> <<[name |-> "x", lo |-> Ax3.lo, hi |-> Ax3.hi]>>, c |-> c]
CLs == {"1/8", "1/4", "1/2", "3/4", "9/10", "1", "0", "-1/2", "9/8"}
DoIv == On("Iv") /\ First /\
    \/ \E c \in Posts, cl \in CLs : IvHist(Hist(<<Ax3>>, c), cl) /\ Log([op |-> "IvHist", hist |-> H3J(c), cl |-> cl])
    \/ \E cl \in {"1/2"} : IvHist(Hist(Build(<<"x","y">>), <<"1","2","3","4">>), cl) /\ Log([op |-> "IvHist", hist |-> HJ(<<"x","y">>, <<"1","2","3","4">>), cl |-> cl])
    \/ \E b \in {"0", "1/2", "3"}, n \in 0..4, u \in {"1/4", "2", "8"} : IvCounts(b, n, u) /\ Log([op |-> "IvCounts", b |-> b, n |-> n, u |-> u])
    \/ \E b \in {"0", "5/2"}, n \in {0, 1, 3}, cl \in {"1/2", "9/10", "1", "0", "5/4"}, tol \in {"1/16", "1/4", "0"} :
          IvBound(b, n, cl, tol) /\ Log([op |-> "IvBound", b |-> b, n |-> n, cl |-> cl, tol |-> tol])
DoAc == On("Ac") /\
    \/ First /\ \E n \in {1, 3} : AcNew("a", n) /\ Log([op |-> "AcNew", a |-> "a", n |-> n])
    \/ \E a \in DOMAIN acs :
        \/ \E x \in {"0", "1", "-5/2"} : AcFill(a, x) /\ Log([op |-> "AcFill", a |-> a, x |-> x])
        \/ acs[a].held # <<>> /\ AcGet(a) /\ Log([op |-> "AcGet", a |-> a])
        \/ Len(acs[a].held) = acs[a].n /\ AcClear(a) /\ Log([op |-> "AcClear", a |-> a])
Pt(n, k) == [i \in 1..n |-> <<Dicts(n)[i][1], <<"1/4", "-3/2", "2">>[((i + k) % 3) + 1]>>]
DoEn == On("En") /\
    \/ First /\ \E n \in 1..3 : stats' = ("s" :> StatOf(n)) /\ ret' = Done /\ UNCHANGED <<grids, fits, acs, orbs>> /\ log' = <<StatJ(n)>>
    \/ /\ ~First /\ \E k \in 0..2 : LET n == Cardinality(stats["s"].names)  d == Pt(n, k) IN
        \/ \E e \in {"1/8", "1/2"} : SlopeQ("s", d, e) /\ Log([op |-> "Slope", s |-> "s", d |-> d, e |-> e])
        \/ EnergyQ("s", d) /\ Log([op |-> "Energy", s |-> "s", d |-> d])
        \/ \E mu \in {"1", "5/2"}, m \in 0..1 : LET lo == SubSeq(Lower(n, k), 1, m)  hi == Upper(n, k) IN
              WalledQ("s", d, lo, hi, mu) /\ Log([op |-> "Walled", s |-> "s", d |-> d, lo |-> lo, hi |-> hi, mu |-> mu])
(* orbits in a parabola and over a plane, between walls or not *)
Bowl == [names |-> {"x","y"}, terms |-> <<T("1/2", <<"x","x">>), T("1/4", <<"y","y">>), T("1/4", <<"x","y">>), T("-1", <<"y">>)>>]
BowlJ == [op |-> "StNew", h |-> "s", names |-> <<"x","y">>, terms |-> Bowl.terms]
DoLeap == On("Leap") /\
    \/ First /\ \E w \in BOOLEAN, m \in {"1", "4"}, q \in {"1/4", "-1/2"}, p \in {"1", "-3/2"} :
          LET lo == IF w THEN << <<"x", "-1">>, <<"y", "-3/4">> >> ELSE <<>>  hi == IF w THEN << <<"x", "5/8">>, <<"y", "1">> >> ELSE <<>>
              M == << <<"x", m>>, <<"y", "1">> >>  Q == << <<"x", q>>, <<"y", "1/8">> >>  P == << <<"x", p>>, <<"y", "1/2">> >>
          IN /\ stats' = ("s" :> Bowl)
             /\ orbs' = ("o" :> [s |-> "s", e |-> "1/16", m |-> Fn(M), q |-> Fn(Q), p |-> Fn(P), lo |-> Fn(lo), hi |-> Fn(hi)])
             /\ ret' = Done /\ UNCHANGED <<grids, fits, acs>>
             /\ log' = <<BowlJ, [op |-> "OrNew", o |-> "o", s |-> "s", e |-> "1/16", m |-> M, q |-> Q, p |-> P, lo |-> lo, hi |-> hi]>>
    \/ /\ ~First
       /\ \/ \E t \in {"1/4", "1"}, n \in {1, 3} : OrRun("o", t, n) /\ Log([op |-> "OrRun", o |-> "o", t |-> t, n |-> n])
          \/ \E t \in {"1/2"} : OrRun("o", t, 1) /\ Log([op |-> "OrRun", o |-> "o", t |-> t, n |-> 1, one |-> TRUE])
          \/ OrFlip("o") /\ Log([op |-> "OrFlip", o |-> "o"])
MCNext == DoGrid \/ DoFit \/ DoIv \/ DoAc \/ DoEn \/ DoLeap
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<fstate, First, IF On("Iv") \/ On("En") THEN log ELSE <<>> >>
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
LastOp == log[Len(log)]
(* the best of a grid is on the grid and nothing on it is better; looking for the greatest is looking for the least of the negative *)
GridLaw == \A g \in DOMAIN grids : LET t == grids[g] IN
    GridOk(t, "s") => LET b == Best(t, "s")  o == Best([t EXCEPT !.mx = ~@], "s") IN
        /\ b.at \subseteq b.pts /\ Fn(Dicts(0)) = << >>
        /\ \A p \in b.pts : LET v == PolyAt(stats["s"].terms, p) IN IF t.mx THEN RLe(v, b.v) /\ RLe(o.v, v) ELSE RLe(b.v, v) /\ RLe(v, o.v)
        /\ Cardinality(b.pts) = FoldLeft(LAMBDA a, n : a * Cardinality(Ticks(t, n)), 1, SetToSeq(DOMAIN t.min))
        /\ \A n \in DOMAIN t.min : t.min[n] \in Ticks(t, n) /\ \A x \in Ticks(t, n) : RLe(t.min[n], x) /\ RLe(x, t.max[n])
(* a bound lies within the axis, and as much of the content as asked for lies below it *)
Below(h, x) == RSum([i \in 1..Len(h.c) |-> LET a == h.axes[1] IN
    IF RLe(a.hi[i], x) THEN h.c[i] ELSE IF RLe(x, a.lo[i]) THEN "0" ELSE RDiv(RMul(h.c[i], RSub(x, a.lo[i])), RSub(a.hi[i], a.lo[i]))])
IvLaw == On("Iv") /\ First => \A c \in Posts, cl \in CLs : LET h == Hist(<<Ax3>>, c) IN
    HistOk(h, cl) => \A x \in Crossing(h, cl) : REq(Below(h, x), RMul(cl, RSum(c)))
(* more above, more credible; never all *)
CountLaw == On("Iv") /\ First => \A b \in {"0", "1/2", "3"}, n \in 0..4 :
    REq(Credible(b, n, "0"), "0") /\ RLt(Credible(b, n, "1"), Credible(b, n, "2")) /\ RLt(Credible(b, n, "2"), "1")
    /\ RLe(Credible(b, n + 1, "1"), Credible(b, n, "1"))
AcLaw == \A a \in DOMAIN acs : Len(acs[a].held) <= acs[a].n /\ \A k \in 1..acs[a].n : RLe("0", acs[a].q[k])
(* flipped and sent the same number of steps, it is back where it started *)
Back(o, t, n) == LET r == Leap(o, t, n)  b == Leap([o EXCEPT !.q = r.q, !.p = [k \in DOMAIN r.p |-> RNeg(r.p[k])]], t, n) IN
    r.sure /\ b.sure => \A k \in DOMAIN o.q : REq(b.q[k], o.q[k]) /\ REq(b.p[k], RNeg(o.p[k]))
LeapLaw == \A o \in DOMAIN orbs : LET x == orbs[o] IN
    /\ TLCGet("level") <= 3 => Back(x, "1/4", 2) /\ Back(x, "1", 1)
    /\ x.lo # << >> /\ Leap(x, "1/4", 2).sure /\ (\A k \in DOMAIN x.q : RLe(x.lo[k], x.q[k]) /\ RLe(x.q[k], x.hi[k])) =>
         LET r == Leap(x, "1/4", 2) IN \A k \in DOMAIN x.q : RLe(x.lo[k], r.q[k]) /\ RLe(r.q[k], x.hi[k])
MCRefusedIsNoop == [][~ret'.ok => UNCHANGED fstate]_mcvars
(* what becomes of one fit result is nothing to the other *)
Apart == [][\A f \in DOMAIN fits \cap DOMAIN fits' : fits[f] # fits'[f] => Len(log') > Len(log) /\ LET o == log'[Len(log')] IN
    (o.op = "FrCopy" /\ o.to = f) \/ (o.op # "FrCopy" /\ o.op # "FrDel" /\ o.f = f)]_mcvars
=============================================================================
