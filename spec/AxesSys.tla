------------------------------- MODULE AxesSys -------------------------------
(***************************************************************************)
(* C01: a store of axes and axis collections built and queried through the *)
(* public interface.  One action per public call; `ret` is what it returned.*)
(***************************************************************************)
EXTENDS Axes, TLC

VARIABLES axs,     \* handle -> axis
          cols,    \* handle -> sequence of axes
          ret      \* outcome of the last call

vars == <<axs, cols, ret>>

Ok(v) == [ok |-> TRUE, v |-> v]
Refused == [ok |-> FALSE]
None == <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == axs = << >> /\ cols = << >> /\ ret = Refused

(* edges: the edges the implementation reports (its rounding of the ideal ones) *)
NewEqAxis(h, name, latex, min, max, n, lo, hi) ==
    IF EqValid(min, max, n)
    THEN /\ RVClose(lo, EqLo(min, max, n)) /\ RVClose(hi, EqHi(min, max, n))
         /\ axs' = Put(axs, h, Axis(name, latex, lo, hi))
         /\ ret' = Ok(axs'[h]) /\ UNCHANGED cols
    ELSE ret' = Refused /\ UNCHANGED <<axs, cols>>

NewEdgeAxis(h, name, latex, lo, hi) ==
    IF EdgesValid(lo, hi)
    THEN axs' = Put(axs, h, Axis(name, latex, lo, hi)) /\ ret' = Ok(axs'[h]) /\ UNCHANGED cols
    ELSE ret' = Refused /\ UNCHANGED <<axs, cols>>

AxisFind(h, v) == ret' = Ok(FindIdx(axs[h], v)) /\ UNCHANGED <<axs, cols>>

AxisBin(h, i) ==
    /\ ret' = IF i < NBinsOf(axs[h])
              THEN Ok(<<axs[h].lo[i+1], axs[h].hi[i+1], Centre(axs[h], i), Width(axs[h], i)>>)
              ELSE Refused
    /\ UNCHANGED <<axs, cols>>

AxisEq(h, g) == ret' = Ok(SameAxis(axs[h], axs[g])) /\ UNCHANGED <<axs, cols>>

NewCol(c) == cols' = Put(cols, c, <<>>) /\ ret' = Ok(None) /\ UNCHANGED axs

(* a name can be used once in a collection; a refused axis changes nothing *)
AddAxis(c, h) ==
    IF HasName(cols[c], axs[h].name)
    THEN ret' = Refused /\ UNCHANGED <<axs, cols>>
    ELSE /\ cols' = [cols EXCEPT ![c] = Append(@, axs[h])]
         /\ ret' = Ok(None) /\ UNCHANGED axs

(* several at once: in that order, all of them; where one of them has a name   *)
(* that is taken the call is refused, with k of those before it added          *)
RECURSIVE Fits(_, _)
Fits(ax, hs) == IF hs = <<>> \/ HasName(ax, axs[hs[1]].name) THEN 0
                ELSE 1 + Fits(Append(ax, axs[hs[1]]), Tail(hs))
AddAxes(c, hs, k) ==
    LET n == Fits(cols[c], hs)  t(j) == cols[c] \o [i \in 1..j |-> axs[hs[i]]] IN
    IF n = Len(hs) THEN cols' = [cols EXCEPT ![c] = t(n)] /\ ret' = Ok(None) /\ UNCHANGED axs
    ELSE k <= n /\ cols' = [cols EXCEPT ![c] = t(k)] /\ ret' = Refused /\ UNCHANGED axs

ColFind(c, vals) ==
    /\ ret' = IF Len(vals) = Len(cols[c]) THEN Ok(FindBin(cols[c], vals)) ELSE Refused
    /\ UNCHANGED <<axs, cols>>

Flatten(c, idx) ==
    /\ ret' = IF Len(idx) = Len(cols[c]) THEN Ok(Flat(cols[c], idx)) ELSE Refused
    /\ UNCHANGED <<axs, cols>>

Unpack(c, bin) ==
    /\ ret' = IF bin < NBins(cols[c]) THEN Ok(Unflat(cols[c], bin)) ELSE Refused
    /\ UNCHANGED <<axs, cols>>

(* edges, centre and width of a global bin along one axis *)
ColBin(c, bin, dim) ==
    /\ ret' = IF bin < NBins(cols[c]) /\ dim < Len(cols[c])
              THEN LET a == cols[c][dim+1]  i == UnflatD(cols[c], bin, dim+1)
                   IN Ok(<<a.lo[i+1], a.hi[i+1], Centre(a, i), Width(a, i)>>)
              ELSE Refused
    /\ UNCHANGED <<axs, cols>>

(* low edges, high edges and centres of a global bin along all axes, *)
(* where there is room for exactly as many numbers as axes               *)
ColBinAll(c, bin, room) ==
    /\ ret' = IF bin < NBins(cols[c]) /\ room = Len(cols[c])
              THEN LET u == Unflat(cols[c], bin)
                       D == 1..Len(cols[c])
                   IN Ok(<<[d \in D |-> cols[c][d].lo[u[d]+1]],
                           [d \in D |-> cols[c][d].hi[u[d]+1]],
                           [d \in D |-> Centre(cols[c][d], u[d])]>>)
              ELSE Refused
    /\ UNCHANGED <<axs, cols>>

ColAxis(c, name) ==
    /\ ret' = IF HasName(cols[c], name)
              THEN Ok([idx |-> NameIdx(cols[c], name) - 1, ax |-> cols[c][NameIdx(cols[c], name)]])
              ELSE Refused
    /\ UNCHANGED <<axs, cols>>

ColAxisAt(c, i) ==
    /\ ret' = IF i < Len(cols[c]) THEN Ok(cols[c][i+1]) ELSE Refused
    /\ UNCHANGED <<axs, cols>>

ColEq(c, d) == ret' = Ok(SameAxes(cols[c], cols[d])) /\ UNCHANGED <<axs, cols>>

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
(* every value is in exactly one bin, the ends taking what lies outside *)
PartitionAt(a, v) ==
    LET i == FindIdx(a, v) n == NBinsOf(a)
    IN /\ i \in 0..(n-1)
       /\ RLt(v, a.lo[1]) => i = 0
       /\ RLe(a.hi[n], v) => i = n - 1
       /\ (RLe(a.lo[1], v) /\ RLt(v, a.hi[n])) =>
             /\ RLe(a.lo[i+1], v) /\ RLt(v, a.hi[i+1])
             /\ \A j \in 0..(n-1) : (RLe(a.lo[j+1], v) /\ RLt(v, a.hi[j+1])) => j = i
Partition(V) == \A h \in DOMAIN axs : Contiguous(axs[h]) => \A v \in V : PartitionAt(axs[h], v)

RECURSIVE Tuples(_)
Tuples(c) == IF c = <<>> THEN {<<>>}
             ELSE {<<i>> \o t : i \in 0..(NBinsOf(c[1]) - 1), t \in Tuples(Tail(c))}

(* global bin numbers and index tuples are in bijection *)
Bijection ==
    \A c \in DOMAIN cols : Len(cols[c]) > 0 =>
        /\ \A b \in 0..(NBins(cols[c]) - 1) :
              /\ Unflat(cols[c], b) \in Tuples(cols[c])
              /\ Flat(cols[c], Unflat(cols[c], b)) = b
        /\ \A t \in Tuples(cols[c]) :
              /\ Flat(cols[c], t) \in 0..(NBins(cols[c]) - 1)
              /\ Unflat(cols[c], Flat(cols[c], t)) = t

UniqueNames == \A c \in DOMAIN cols : \A i, j \in 1..Len(cols[c]) :
                   cols[c][i].name = cols[c][j].name => i = j

(* axes and collections are only ever added to; a refusal changes nothing *)
RefusedIsNoop == [][ret' = Refused => /\ UNCHANGED axs
                                      /\ \/ UNCHANGED cols
                                         \/ \E c \in DOMAIN cols : Len(cols'[c]) > Len(cols[c])]_vars
AppendOnly == [][\A c \in DOMAIN cols :
                    \/ cols'[c] = <<>>
                    \/ /\ Len(cols'[c]) >= Len(cols[c])
                       /\ SubSeq(cols'[c], 1, Len(cols[c])) = cols[c]]_vars
=============================================================================
