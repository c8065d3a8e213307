-------------------------------- MODULE GenMC --------------------------------
(* Exhaustive instance of GenSys; prints one test per transition. *)
EXTENDS GenSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<vars, log>>
On(p) == p \in Ops
Log(o) == log' = Append(log, o)
First == TLCGet("level") = 1
MCInit == Init /\ log = <<>>

(***************************************************************************)
(* Data set generators: two sets, every combination of flags                *)
(***************************************************************************)
SetA == [k |-> 1, names |-> <<"id", "x">>, xs |-> <<"0", "1", "2">>]
SetB == [k |-> 2, names |-> <<"id", "x">>, xs |-> <<"1", "5">>]
B == {TRUE, FALSE}
Start(by, boot, seq, rate, cut) ==
    LET base == [NewGen EXCEPT !.boot = boot, !.seq = seq, !.rate = rate, !.cuts = cut]
        new(h, s) == [op |-> "SetNew", h |-> h, k |-> s.k, names |-> s.names, xs |-> s.xs]
    IN /\ sets' = [h \in {"A", "B"} |-> IF h = "A" THEN SetA ELSE SetB]
       /\ gens' = ("g" :> [base EXCEPT !.src = <<"A", "B">>, !.left = <<0..2, 0..1>>, !.hid = <<0, 0>>])
       /\ log' = log \o <<new("A", SetA), new("B", SetB), [op |-> "GenNew", g |-> "g"]>>
                 \o (IF by = "add" THEN <<[op |-> "GenAdd", g |-> "g", h |-> "A", rate |-> rate[1], seq |-> seq[1]],
                                          [op |-> "GenAdd", g |-> "g", h |-> "B", rate |-> rate[2], seq |-> seq[2]]>>
                     ELSE <<[op |-> "GenSets", g |-> "g", src |-> <<"A", "B">>], [op |-> "GenRates", g |-> "g", rates |-> rate], [op |-> "GenSeq", g |-> "g", flags |-> seq]>>)
                 \o <<[op |-> "GenBoot", g |-> "g", flags |-> boot]>> \o (IF cut = <<>> THEN <<>> ELSE <<[op |-> "GenCut", g |-> "g", lo |-> cut[1][1], hi |-> cut[1][2]]>>)
       /\ ret' = Ok(<<>>) /\ UNCHANGED streams
Idle(n) == [k \in 1..n |-> FALSE]
DoStart == On("Draw") /\ gens = << >> /\
    \/ \E b1, b2, s1, s2 \in B : ~(b1 /\ s1) /\ ~(b2 /\ s2) /\
        \E by \in {"add", "set"}, cut \in {<<>>, <<<<"1/2", "3/2">>>>} : Start(by, <<b1, b2>>, <<s1, s2>>, <<"1", "1">>, cut)
    \/ Start("set", <<TRUE>>, <<TRUE, FALSE>>, <<"1", "1">>, <<>>)
    \/ Start("set", <<FALSE, FALSE>>, <<TRUE>>, <<"1", "1">>, <<>>)
    \/ Start("set", <<>>, <<>>, <<"1", "1">>, <<>>)
    \/ Start("set", <<FALSE, FALSE>>, <<TRUE, TRUE>>, <<"1">>, <<>>)
RateSets == { <<"2", "3/4">>, <<"0", "2">>, <<"7/4", "0">>, <<"1/4", "5/4">> }

(* what may come out of one set, in one order *)
Outs(G, i, n) ==
    LET h == G.src[i] IN
    IF G.boot[i] THEN {IF Passes(G, h, 0) THEN [j \in 1..n |-> 0] ELSE <<>>}
    ELSE IF G.seq[i] THEN {SelectSeq(InOrder(Lowest(G.left[i], n)), LAMBDA e : Passes(G, h, e))}
    ELSE {SelectSeq(InOrder(S), LAMBDA e : Passes(G, h, e)) : S \in {T \in SUBSET G.left[i] : Cardinality(T) = n}}
AsEvs(G, i, d) == [j \in 1..Len(d) |-> <<1000 * sets[G.src[i]].k + d[j], sets[G.src[i]].xs[d[j] + 1]>>]
DoDraw == On("Draw") /\ \E g \in DOMAIN gens : LET G == gens[g]  ns == Expected(G) IN
    /\ ~G.torn
    /\ IF Drawable(G, ns)
       THEN \E d1 \in Outs(G, 1, ns[1]), d2 \in Outs(G, 2, ns[2]) : Draw(g, ns, AsEvs(G, 1, d1) \o AsEvs(G, 2, d2))
       ELSE Draw(g, ns, <<>>)
    /\ Log([op |-> "Draw", g |-> g, poi |-> FALSE, take |-> TRUE])
DoGen == On("Draw") /\ \E g \in DOMAIN gens : LET G == gens[g] IN
    \/ \E i \in 0..2 : /\ ~G.torn
        /\ \E rem \in (IF i = 2 THEN {{}} ELSE {S \in SUBSET G.left[i + 1] : Cardinality(S) = NLeft(G, i + 1)}) :
              GenLeft(g, i, InOrder(rem))
        /\ Log([op |-> "Left", g |-> g, i |-> i, names |-> <<"id", "x">>])
    \/ GenReset(g) /\ Log([op |-> "GenReset", g |-> g])
    \/ GenAll(g) /\ Log([op |-> "All", g |-> g])
    \/ \E r \in RateSets : Len(G.rate) = 2 /\ GenRates(g, r) /\ Log([op |-> "GenRates", g |-> g, rates |-> r])
    \/ g = "g" /\ GenCopy(g, "h") /\ Log([op |-> "GenCopy", g |-> g, to |-> "h"])
    \/ \E i \in 0..1 : /\ Len(G.src) = 2 /\ Same(G) /\ Flagged(G, 1) /\ Flagged(G, 2)
        /\ ~G.torn /\ G.hid[i + 1] = 0 /\ G.cuts = <<>> /\ Candidates(G, i + 1) # {}
        /\ LET n == Cardinality(Candidates(G, i + 1)) IN
           /\ \E r \in {IF ~G.boot[i + 1] /\ G.seq[i + 1] THEN [j \in 1..n |-> Min(G.left[i + 1])] ELSE InOrder(Candidates(G, i + 1))} : GenSpread(g, i, n, r)
           /\ Log([op |-> "GenSpread", g |-> g, i |-> i, n |-> n, of |-> 2])

(***************************************************************************)
(* Binned distributions and random numbers                                  *)
(***************************************************************************)
Ax == <<[name |-> "x", lo |-> <<"0", "1", "2">>, hi |-> <<"1", "2", "4">>]>>
Pdfs == { [name |-> "p", c |-> <<"1", "2", "0">>], [name |-> "q", c |-> <<"0", "1/2", "2">>], [name |-> "p", c |-> <<"0", "0", "3">>] }
Us == {"1/16", "7/16", "15/16"}
DoBinned == On("Binned") /\ First /\
    \/ \E p, q \in Pdfs, r1, r2 \in {"1", "3/4", "1/4"}, poi \in B, name \in {"", "n"}, us \in [1..4 -> Us] :
        /\ BinnedDraw(<<p, q>>, <<r1, r2>>, poi, name, us)
        /\ Log([op |-> "Binned", g |-> "b", axes |-> Ax, pdfs |-> <<p, q>>, rates |-> <<r1, r2>>, poi |-> poi, name |-> name, us |-> us])
    \/ \E p \in Pdfs, ps \in {0, 1}, rs \in {<<>>, <<"1", "2">>}, poi \in B :
        /\ BinnedDraw([k \in 1..ps |-> p], rs, poi, "", <<"1/16">>)
        /\ Log([op |-> "Binned", g |-> "b", axes |-> Ax, pdfs |-> [k \in 1..ps |-> p], rates |-> rs, poi |-> poi, name |-> "", us |-> <<"1/16">>])
DoRand == On("Rand") /\ First /\
    \/ \E p \in {<<"1">>, <<"0", "1">>, <<"1", "0", "-1/4">>}, d \in {1, 2}, ab \in {<<"0", "2">>, <<"-1", "1">>, <<"1", "1">>, <<"2", "1">>}, y \in {"1", "2", "0", "-1"},
          u \in [1..4 -> {"1/8", "1/2", "3/4"}] :
        /\ LET us == u \o <<"1/2", "0", "3/4", "0">> IN
           /\ VonNeumann(p, d, ab[1], ab[2], y, us)
           /\ Log([op |-> "VonNeumann", p |-> p, dims |-> d, a |-> ab[1], b |-> ab[2], y |-> y, us |-> us])
    \/ \E n \in 1..8 : \E ab \in {<<"range", "-1", "3">>, <<"range", "0", "1/4">>, <<"uniform", "0", "5/2">>, <<"unit", "0", "1">>, <<"shoot", "0", ToString(n)>>} :
        /\ ret' = Ok(<<>>) /\ UNCHANGED gstate
        /\ Log([op |-> "Spread", kind |-> ab[1], a |-> ab[2], b |-> ab[3], n |-> n])
    \/ \E m \in {"0", "-3/2"}, s \in {"0", "1", "1/4"}, u \in Us : Gaus(m, s, u) /\ Log([op |-> "Gaus", mean |-> m, sd |-> s, u |-> u])
    \/ \E m \in {"0", "5/2", "10"}, u \in Us : Poisson(m, u) /\ Log([op |-> "Poisson", mean |-> m, u |-> u])
    \/ \E s, t \in {1, 2} :
        /\ streams' = (s :> <<>>) /\ ret' = Ok(s) /\ UNCHANGED <<sets, gens>>
        /\ log' = log \o <<[op |-> "Seed", s |-> s, n |-> 3], [op |-> "Seed", s |-> t, n |-> 2], [op |-> "Seed", s |-> s, n |-> 4]>>

MCNext == DoStart \/ DoDraw \/ DoGen \/ DoBinned \/ DoRand
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<gstate, First, IF On("Draw") THEN <<>> ELSE log>>
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
(* nothing hidden that is not cut, nothing left that is not in the set *)
PoolLaw == \A g \in DOMAIN gens : LET G == gens[g] IN \A i \in 1..Len(G.src) :
    /\ G.left[i] \subseteq All(G.src[i]) /\ G.hid[i] >= 0
    /\ ~G.torn => G.hid[i] <= Cardinality({e \in G.left[i] : ~Passes(G, G.src[i], e)})
(* every event drawn is counted in the bin of some pdf *)
TotalLaw == On("Binned") /\ ret.ok => RLe("0", RSum(ret.v.c))
(* drawing from one generator leaves the other alone *)
Apart == [][\A g \in DOMAIN gens \cap DOMAIN gens' : gens[g] # gens'[g] => Len(log') > Len(log) /\ LET o == log'[Len(log')] IN
    (o.op = "GenCopy" /\ o.to = g) \/ (o.op # "GenCopy" /\ o.g = g)]_mcvars
(* without replacement, what was drawn does not come back before a reset *)
OnceOnly == [][\A g \in DOMAIN gens \cap DOMAIN gens' : Len(log') > Len(log) /\ log'[Len(log')].op \in {"Draw", "Left"} =>
    \A i \in 1..Len(gens[g].src) : gens'[g].left[i] \subseteq gens[g].left[i]]_mcvars
=============================================================================
