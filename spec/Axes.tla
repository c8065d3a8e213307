-------------------------------- MODULE Axes --------------------------------
(***************************************************************************)
(* Bin axes and their products, as data.                                    *)
(*                                                                          *)
(* axis == [name, latex, lo, hi]: lo[k], hi[k] are the edges of bin k-1.    *)
(* A collection is a sequence of axes.  Bin numbers are 0-based, as in the  *)
(* library; a multi-dimensional bin is numbered with the last axis fastest. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real

Axis(name, latex, lo, hi) ==
    [name |-> name, latex |-> IF latex = "" THEN name ELSE latex, lo |-> lo, hi |-> hi]

NBinsOf(a) == Len(a.lo)

(* Equal-width bins of [min, max) *)
EqLo(min, max, n) == [k \in 1..n |-> RAdd(min, RDiv(RMul(k - 1, RSub(max, min)), n))]
EqHi(min, max, n) == [k \in 1..n |-> RAdd(min, RDiv(RMul(k, RSub(max, min)), n))]
EqValid(min, max, n) == n > 0 /\ RLt(min, max)

EdgesValid(lo, hi) ==
    /\ Len(lo) = Len(hi) /\ Len(lo) > 0
    /\ \A k \in 1..Len(lo) : RLe(lo[k], hi[k]) /\ (k > 1 => RLe(lo[k-1], lo[k]))

Contiguous(a) == \A k \in 2..NBinsOf(a) : RClose(a.hi[k-1], a.lo[k])

Centre(a, i) == RDiv(RAdd(a.lo[i+1], a.hi[i+1]), 2)
Width(a, i)  == RSub(a.hi[i+1], a.lo[i+1])

(* The bin of a value: the number of bins that end at or below it; the      *)
(* first bin takes the underflow, the last the overflow.                    *)
FindIdx(a, v) ==
    LET k == Cardinality({i \in 1..NBinsOf(a) : RLe(a.hi[i], v)})
    IN IF k = NBinsOf(a) THEN k - 1 ELSE k

(***************************************************************************)
(* Products                                                                 *)
(***************************************************************************)
NDims(c) == Len(c)
RECURSIVE ProdBins(_)
ProdBins(c) == IF c = <<>> THEN 1 ELSE NBinsOf(c[1]) * ProdBins(Tail(c))
NBins(c) == IF c = <<>> THEN 0 ELSE ProdBins(c)

Stride(c, d) == ProdBins(SubSeq(c, d + 1, Len(c)))     \* d is 1-based

RECURSIVE FlatAcc(_, _, _)
FlatAcc(c, idx, d) == IF d = 0 THEN 0 ELSE idx[d] * Stride(c, d) + FlatAcc(c, idx, d - 1)
Flat(c, idx) == FlatAcc(c, idx, Len(c))

UnflatD(c, bin, d) == (bin \div Stride(c, d)) % NBinsOf(c[d])
Unflat(c, bin) == [d \in 1..Len(c) |-> UnflatD(c, bin, d)]

FindBin(c, vals) == Flat(c, [d \in 1..Len(c) |-> FindIdx(c[d], vals[d])])

Names(c) == [d \in 1..Len(c) |-> c[d].name]
HasName(c, n) == \E d \in 1..Len(c) : c[d].name = n
NameIdx(c, n) == CHOOSE d \in 1..Len(c) : c[d].name = n

(* Two axes are the same binning iff their edges agree: names do not count. *)
SameAxis(a, b) == a.lo = b.lo /\ a.hi = b.hi
SameAxes(c, d) == Len(c) = Len(d) /\ \A k \in 1..Len(c) : SameAxis(c[k], d[k])
=============================================================================
