------------------------------- MODULE GenSys -------------------------------
(***************************************************************************)
(* C23: drawing fake data.  What the random number generator hands out is   *)
(* an input (harness/rootshim/TRandom3.h); which event a draw without       *)
(* replacement takes is left open and read from what was observed, within   *)
(* what is left to be drawn.                                                *)
(***************************************************************************)
EXTENDS Real, Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES sets,    \* data set -> [k: number, names, xs: sequence of reals]; event i has the observables <<1000 k + i, xs[i+1]>>
          gens,    \* generator -> [src: sequence of data sets, rate, boot, seq: sequences, cuts: sequence of <<lo, hi>>,
                   \*   left: sequence of sets of indices that were not seen to be drawn, hid: how many of those were drawn and cut,
                   \*   torn: whether a refused draw may have taken events]
          streams, \* seed -> the numbers drawn after it was set
          ret

gstate == <<sets, gens, streams>>
vars == <<sets, gens, streams, ret>>
Ok(v) == [ok |-> TRUE, v |-> v]
Refused == [ok |-> FALSE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == sets = << >> /\ gens = << >> /\ streams = << >> /\ ret = Refused

(***************************************************************************)
(* Data set generators                                                      *)
(***************************************************************************)
(* which event of its set *)
Num(e) == e - 1000 * (e \div 1000)
NewGen == [src |-> <<>>, rate |-> <<>>, boot |-> <<>>, seq |-> <<>>, cuts |-> <<>>, left |-> <<>>, hid |-> <<>>, torn |-> FALSE]
All(h) == 0..Len(sets[h].xs) - 1
Fresh(G, src) == [G EXCEPT !.src = src, !.left = [i \in 1..Len(src) |-> All(src[i])], !.hid = [i \in 1..Len(src) |-> 0], !.torn = FALSE]
Passes(G, h, e) == \A c \in 1..Len(G.cuts) : RLt(G.cuts[c][1], sets[h].xs[e + 1]) /\ RLt(sets[h].xs[e + 1], G.cuts[c][2])

SetNew(h, k, names, xs) == sets' = Put(sets, h, [k |-> k, names |-> names, xs |-> xs]) /\ ret' = Ok(<<>>) /\ UNCHANGED <<gens, streams>>
Change(g, G) == gens' = Put(gens, g, G) /\ ret' = Ok(<<>>) /\ UNCHANGED <<sets, streams>>
GenNew(g) == Change(g, NewGen)
GenSets(g, src) == Change(g, Fresh(gens[g], src))
GenRates(g, rs) == Change(g, [gens[g] EXCEPT !.rate = rs])
GenBoot(g, bs) == Change(g, [gens[g] EXCEPT !.boot = bs])
GenSeq(g, bs) == Change(g, [gens[g] EXCEPT !.seq = bs])
GenAdd(g, h, r, sq) == LET G == gens[g] IN
    Change(g, [G EXCEPT !.src = Append(@, h), !.rate = Append(@, r), !.seq = Append(@, sq), !.left = Append(@, All(h)), !.hid = Append(@, 0)])
GenCut(g, lo, hi) == Change(g, [gens[g] EXCEPT !.cuts = Append(@, <<lo, hi>>)])
GenSetCuts(g, cs) == Change(g, [gens[g] EXCEPT !.cuts = cs])
GenClear(g) == Change(g, [gens[g] EXCEPT !.src = <<>>, !.rate = <<>>, !.seq = <<>>, !.left = <<>>, !.hid = <<>>, !.torn = FALSE])
GenReset(g) == Change(g, Fresh(gens[g], gens[g].src))
(* a copy draws for itself *)
GenCopy(g, to) == Change(to, gens[g])

Round(r) == RFloor(RAdd(r, "1/2"))
NLeft(G, i) == Cardinality(G.left[i]) - G.hid[i]
Same(G) == Len(G.rate) = Len(G.src) /\ Len(G.src) > 0
(* there is a flag for set i *)
Flagged(G, i) == Len(G.boot) >= i /\ (G.boot[i] \/ Len(G.seq) >= i)
(* set i can give n events *)
CanGive(G, i, n) == Flagged(G, i) /\ (IF G.boot[i] THEN Len(sets[G.src[i]].xs) > 0 ELSE n <= NLeft(G, i))
(* with these numbers of events asked for, one set after the other (a fluctuated number is drawn when its set is reached) *)
Drawable(G, ns) == IF Same(G) /\ Len(ns) = Len(G.src) THEN \A i \in 1..Len(ns) : CanGive(G, i, ns[i]) ELSE FALSE
Undrawable(G, ns) == IF Same(G) THEN \E i \in 1..Len(ns) : ~CanGive(G, i, ns[i]) ELSE TRUE

(* the events of set i among those that came out, as indices *)
Of(G, i, evs) == LET s == SelectSeq(evs, LAMBDA e : e[1] \div 1000 = sets[G.src[i]].k) IN [j \in 1..Len(s) |-> Num(s[j][1])]
Lowest(S, n) == {e \in S : Cardinality({x \in S : x < e}) < n}
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* d: what came out of set i when n were drawn *)
Right(G, i, n, d) ==
    LET h == G.src[i]
        fails == {e \in All(h) : ~Passes(G, h, e)}
    IN /\ \A j \in 1..Len(d) : d[j] \in All(h) /\ Passes(G, h, d[j])
       /\ IF G.boot[i] THEN Len(d) <= n /\ (fails = {} => Len(d) = n)
          ELSE IF G.seq[i] THEN d = SelectSeq(InOrder(Lowest(G.left[i], n)), LAMBDA e : Passes(G, h, e))
          ELSE /\ ToSet(d) \subseteq G.left[i] /\ Cardinality(ToSet(d)) = Len(d)
               /\ Len(d) <= n /\ n - Len(d) <= Cardinality(fails \cap G.left[i]) - G.hid[i]
Taken(G, ns, evs) ==
    [G EXCEPT !.left = [i \in DOMAIN @ |-> IF G.boot[i] THEN @[i] ELSE IF G.seq[i] THEN @[i] \ Lowest(@[i], ns[i]) ELSE @[i] \ ToSet(Of(G, i, evs))],
              !.hid = [i \in DOMAIN @ |-> IF G.boot[i] \/ G.seq[i] THEN @[i] ELSE @[i] + ns[i] - Len(Of(G, i, evs))]]
(* evs: the events that came out, <<number, x>> each; they come set by set *)
Draw(g, ns, evs) ==
    LET G == gens[g] IN
    /\ ~G.torn
    /\ IF Drawable(G, ns)
       THEN /\ \A j \in 1..Len(evs) : \E i \in 1..Len(G.src) : evs[j][1] \div 1000 = sets[G.src[i]].k
            /\ \A j \in 1..Len(evs) - 1 : \E i, m \in 1..Len(G.src) :
                  i <= m /\ evs[j][1] \div 1000 = sets[G.src[i]].k /\ evs[j + 1][1] \div 1000 = sets[G.src[m]].k
            /\ \A i \in 1..Len(G.src) : Right(G, i, ns[i], Of(G, i, evs))
            /\ \A j \in 1..Len(evs) : \E i \in 1..Len(G.src) :
                  evs[j][1] \div 1000 = sets[G.src[i]].k /\ RSame(evs[j][2], sets[G.src[i]].xs[Num(evs[j][1]) + 1])
            /\ gens' = Put(gens, g, Taken(G, ns, evs))
            /\ ret' = Ok([names |-> sets[G.src[1]].names, taken |-> ns])
       ELSE /\ Undrawable(G, ns)
            /\ gens' = Put(gens, g, [G EXCEPT !.torn = Same(G)]) /\ ret' = Refused
    /\ UNCHANGED <<sets, streams>>
Expected(G) == [i \in 1..Len(G.rate) |-> Round(G.rate[i])]

(* every event of every set, without cuts *)
GenAll(g) ==
    /\ gens[g].cuts = <<>>
    /\ ret' = (IF gens[g].src = <<>> THEN Refused
               ELSE Ok(LET G == gens[g] IN
                       [evs |-> FlattenSeq([i \in 1..Len(G.src) |-> LET s == sets[G.src[i]] IN [j \in 1..Len(s.xs) |-> <<1000 * s.k + j - 1, s.xs[j]>>]]),
                        taken |-> [i \in 1..Len(G.src) |-> Len(sets[G.src[i]].xs)], names |-> sets[G.src[1]].names]))
    /\ UNCHANGED gstate
(* what is left of set i (0-based): r, in any order *)
GenLeft(g, i, r) ==
    LET G == gens[g] IN
    /\ ~G.torn
    /\ IF i >= Len(G.src) THEN ret' = Refused /\ UNCHANGED gstate
       ELSE /\ Cardinality(ToSet(r)) = Len(r) /\ ToSet(r) \subseteq G.left[i + 1] /\ Len(r) = NLeft(G, i + 1)
            /\ \A e \in G.left[i + 1] \ ToSet(r) : ~Passes(G, G.src[i + 1], e)
            /\ gens' = [gens EXCEPT ![g].left[i + 1] = ToSet(r), ![g].hid[i + 1] = 0]
            /\ ret' = Ok(Len(r)) /\ UNCHANGED <<sets, streams>>
(* one event is drawn from set i, as often as there are candidates, with random numbers from every part of the range: each comes out once *)
Candidates(G, i) == IF G.boot[i] THEN All(G.src[i]) ELSE G.left[i]
GenSpread(g, i, n, r) ==
    LET G == gens[g] IN
    /\ Same(G) /\ Flagged(G, i + 1) /\ G.hid[i + 1] = 0 /\ G.cuts = <<>> /\ ~G.torn
    /\ ret' = Ok(<<>>) /\ UNCHANGED gstate
    /\ Len(r) = n
    /\ IF ~G.boot[i + 1] /\ G.seq[i + 1] THEN \A j \in 1..n : {r[j]} = Lowest(G.left[i + 1], 1)
       ELSE ToSet(r) \subseteq Candidates(G, i + 1) /\ (n = Cardinality(Candidates(G, i + 1)) => Cardinality(ToSet(r)) = n)

(***************************************************************************)
(* Binned distributions                                                     *)
(***************************************************************************)
(* the bin a number in (0, 1) stands for: the first where the contents up to it reach that part of the whole *)
BinOf(c, u) == LET s == RSum(c) IN Min({b \in 1..Len(c) : RLe(RMul(u, s), RSum(SubSeq(c, 1, b)))})
(* pdfs one after the other, us: the random numbers *)
Counts(pdfs, rates, poi, us) ==
    FoldLeft(LAMBDA st, i :
               LET n == IF poi THEN RFloor(RMul(RMul("2", rates[i]), us[st.at])) ELSE Round(rates[i])
                   f == IF poi THEN st.at + 1 ELSE st.at
               IN [at |-> f + n,
                   c |-> FoldLeft(LAMBDA c, j : [c EXCEPT ![BinOf(pdfs[i].c, us[j])] = RAdd(@, "1")], st.c, [j \in 1..n |-> f + j - 1])],
             [at |-> 1, c |-> [b \in 1..Len(pdfs[1].c) |-> "0"]], [i \in 1..Len(pdfs) |-> i])
Joined(pdfs) == FoldLeft(LAMBDA a, i : a \o pdfs[i].name \o (IF i < Len(pdfs) THEN "_" ELSE ""), "", [i \in 1..Len(pdfs) |-> i])
BinnedDraw(pdfs, rates, poi, name, us) ==
    /\ ret' = (IF Len(pdfs) # Len(rates) \/ Len(pdfs) = 0 THEN Refused
               ELSE LET r == Counts(pdfs, rates, poi, us) IN
                    Ok([c |-> r.c, used |-> r.at - 1, name |-> IF name = "" THEN (IF poi THEN "Gen_Poi" ELSE "Gen_Exp") \o Joined(pdfs) ELSE name]))
    /\ UNCHANGED gstate

(***************************************************************************)
(* Random numbers                                                           *)
(***************************************************************************)
PolyX(p, x) == RSum([n \in 1..Len(p) |-> FoldLeft(LAMBDA a, j : RMul(a, x), p[n], [j \in 1..n - 1 |-> j])])   \* p[1] + p[2] x + ...
(* a function under a lid: places are tried until one lies below the function *)
Reject(p, a, b, y, us) == LET X(t) == RAdd(a, RMul(us[2 * t - 1], RSub(b, a)))
                              H == {t \in 1..Len(us) \div 2 : RLe(RMul(us[2 * t], y), PolyX(p, X(t)))}
                          IN IF H = {} THEN <<>> ELSE <<X(Min(H)), 2 * Min(H)>>
VonNeumann(p, dims, a, b, y, us) ==
    /\ ret' = (IF RLe(b, a) \/ RLe(y, "0") \/ dims # 1 THEN Refused
               ELSE LET r == Reject(p, a, b, y, us) IN Ok([x |-> r[1], used |-> r[2]]))
    /\ UNCHANGED gstate
(* n numbers, one for each nth part of the range of the generator, lie one in each nth part of [a, b] *)
Spread(a, b, n, r) ==
    /\ Len(r) = n /\ \A j \in 1..n : RLe(a, r[j]) /\ RLe(r[j], b)
    /\ {RFloor(RDiv(RMul(RSub(r[j], a), ToString(n)), RSub(b, a))) : j \in 1..n} = 0..n - 1
    /\ ret' = Ok(<<>>) /\ UNCHANGED gstate
Gaus(mean, sd, u) == ret' = Ok(RAdd(mean, RMul(sd, RSub(RMul("6", u), "3")))) /\ UNCHANGED gstate
Poisson(mean, u) == ret' = Ok(RFloor(RMul(RMul("2", mean), u))) /\ UNCHANGED gstate
(* the same seed, the same numbers *)
Agree(a, b) == \A i \in 1..Len(a) : i <= Len(b) => RSame(a[i], b[i])
Seed(s, r) ==
    /\ s \in DOMAIN streams => Agree(streams[s], r)
    /\ streams' = Put(streams, s, r) /\ ret' = Ok(s) /\ UNCHANGED <<sets, gens>>
=============================================================================
