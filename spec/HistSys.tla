------------------------------ MODULE HistSys ------------------------------
(***************************************************************************)
(* C02, C03, C05: a store of histograms / binned distributions, and of      *)
(* shrinkers, worked on through the public interface.                        *)
(*                                                                          *)
(* Rnd(c) is the set of content sequences the implementation may hold where *)
(* the exact result is c (floating-point rounding).                          *)
(***************************************************************************)
EXTENDS Hists, TLC

CONSTANT Rnd(_)

VARIABLES hs,    \* handle -> [axes, c, obs]
          shr,   \* handle -> [buf, ov, map]; map: <<>> or <<[axes, buf, ov]>>
          ret
vars == <<hs, shr, ret>>

Ok(v) == [ok |-> TRUE, v |-> v]
Done == [ok |-> TRUE, v |-> <<>>]
Refused == [ok |-> FALSE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == hs = << >> /\ shr = << >> /\ ret = Done

Refuse == ret' = Refused /\ UNCHANGED <<hs, shr>>
Query(v) == ret' = Ok(v) /\ UNCHANGED <<hs, shr>>
SetC(h, c) == \E x \in Rnd(c) : hs' = [hs EXCEPT ![h].c = x] /\ ret' = Done /\ UNCHANGED shr
New(h, axes, c, obs) == \E x \in Rnd(c) :
    hs' = Put(hs, h, [axes |-> axes, c |-> x, obs |-> obs]) /\ ret' = Done /\ UNCHANGED shr

NewHist(h, axes) == New(h, axes, Zeros(axes), <<>>)
SetObs(h, o) == hs' = [hs EXCEPT ![h].obs = o] /\ ret' = Done /\ UNCHANGED shr
Copy(h, to) == New(to, hs[h].axes, hs[h].c, hs[h].obs)
Assign(h, to) == New(to, hs[h].axes, hs[h].c, hs[h].obs)

Fill(h, vals, w) ==
    IF Len(vals) # Len(hs[h].axes) THEN Refuse ELSE SetC(h, FillC(hs[h], vals, w))
(* m: function from observable names to values; extra names are ignored *)
FillMap(h, m, w) ==
    IF \E d \in 1..Len(hs[h].axes) : hs[h].axes[d].name \notin DOMAIN m THEN Refuse
    ELSE SetC(h, FillC(hs[h], [d \in 1..Len(hs[h].axes) |-> m[hs[h].axes[d].name]], w))
SetBin(h, b, x) == IF b >= NBins(hs[h].axes) THEN Refuse ELSE SetC(h, [hs[h].c EXCEPT ![b+1] = R(x)])
AddBin(h, b, x) == IF b >= NBins(hs[h].axes) THEN Refuse ELSE SetC(h, [hs[h].c EXCEPT ![b+1] = RAdd(@, x)])
GetBin(h, b) == IF b >= NBins(hs[h].axes) THEN Refuse ELSE Query(hs[h].c[b+1])
SetAll(h, c) == IF Len(c) # NBins(hs[h].axes) THEN Refuse ELSE SetC(h, [b \in DOMAIN c |-> R(c[b])])
ScaleH(h, k) == SetC(h, ScaleC(hs[h], k))
NormaliseH(h) == SetC(h, NormaliseC(hs[h]))
EmptyH(h) == SetC(h, Zeros(hs[h].axes))
PadH(h, p) == SetC(h, PadC(hs[h], p))
AddH(h, g, w) == IF ~SameAxes(hs[h].axes, hs[g].axes) THEN Refuse ELSE SetC(h, AddC(hs[h], hs[g], w))
MulH(h, g) == IF ~SameAxes(hs[h].axes, hs[g].axes) THEN Refuse ELSE SetC(h, MulC(hs[h], hs[g]))
DivH(h, g) == IF ~SameAxes(hs[h].axes, hs[g].axes) THEN Refuse ELSE SetC(h, DivC(hs[h], hs[g]))
IntegralH(h) == Query(Integral(hs[h]))
RangeH(h, a, b) == IF Len(hs[h].axes) # 1 THEN Refuse ELSE Query(RangeIntegral(hs[h], a, b))
MeansH(h) == Query([d \in 1..Len(hs[h].axes) |-> MeanD(hs[h], d)])
VarsH(h) == Query([d \in 1..Len(hs[h].axes) |-> VarD(hs[h], d)])
Prob(h, vals) == IF Len(vals) # Len(hs[h].axes) THEN Refuse
                 ELSE Query(RDiv(hs[h].c[FindBin(hs[h].axes, vals) + 1], Integral(hs[h])))

(* where a point is, and what a bin is: asked of the histogram, answered by its axes *)
Where(h, vals) == IF Len(vals) # Len(hs[h].axes) THEN Refuse ELSE Query(FindBin(hs[h].axes, vals))
BinAt(h, b, room) ==
    LET ax == hs[h].axes  u == Unflat(ax, b)  D == 1..Len(ax) IN
    IF b >= NBins(ax) \/ room # Len(ax) THEN Refuse
    ELSE Query([idx |-> u, lo |-> [d \in D |-> ax[d].lo[u[d]+1]], hi |-> [d \in D |-> ax[d].hi[u[d]+1]],
                ctr |-> [d \in D |-> Centre(ax[d], u[d])]])
AxisNo(h, n) == IF ~HasName(hs[h].axes, n) THEN Refuse ELSE Query(NameIdx(hs[h].axes, n) - 1)

MargH(h, names, to) ==
    IF ~MargValid(hs[h], names) THEN Refuse
    ELSE LET m == Marg(hs[h], names) IN New(to, m.axes, m.c, names)
SliceH(h, fixed, to) ==
    IF ~SliceValid(hs[h], fixed) THEN Refuse
    ELSE LET s == Slice(hs[h], fixed) IN New(to, s.axes, s.c, Names(s.axes))

(* every 1-D projection in axis order, then (beyond 2-D) every unordered pair *)
PairNames(h) == LET n == Names(hs[h].axes)
                IN {{n[i], n[j]} : i, j \in 1..Len(n)} \ {{n[i]} : i \in 1..Len(n)}
(* all 1-D slices along an axis: one per combination of the other axes' bins *)
Others(h, a) == SelectSeq(Names(hs[h].axes), LAMBDA n : n # a)
RECURSIVE FixedSet(_, _)
FixedSet(h, names) ==
    IF names = <<>> THEN {<< >>}
    ELSE {(names[1] :> i) @@ f : i \in 0..(NBinsOf(hs[h].axes[NameIdx(hs[h].axes, names[1])]) - 1),
                                  f \in FixedSet(h, Tail(names))}

(***************************************************************************)
(* Shrinkers                                                                *)
(***************************************************************************)
NewShr(s) == shr' = Put(shr, s, [buf |-> << >>, ov |-> FALSE, map |-> <<>>]) /\ ret' = Done /\ UNCHANGED hs
SetBuffer(s, n, lo, hi) == shr' = [shr EXCEPT ![s].buf = Put(@, n, <<lo, hi>>)] /\ ret' = Done /\ UNCHANGED hs
SetOv(s, b) == shr' = [shr EXCEPT ![s].ov = b] /\ ret' = Done /\ UNCHANGED hs
GetBuffer(s, n) == IF n \in DOMAIN shr[s].buf THEN Query(shr[s].buf[n]) ELSE Refuse
SetMap(s, h) ==
    IF ~ShrinkValid(hs[h].axes, shr[s].buf)
    THEN ret' = Refused /\ shr' = [shr EXCEPT ![s].map = <<>>] /\ UNCHANGED hs
    ELSE /\ shr' = [shr EXCEPT ![s].map = <<[axes |-> hs[h].axes, buf |-> shr[s].buf, ov |-> shr[s].ov]>>]
         /\ ret' = Done /\ UNCHANGED hs
CanShrink(s, h) == /\ shr[s].map # <<>>
                   /\ shr[s].map[1] = [axes |-> hs[h].axes, buf |-> shr[s].buf, ov |-> shr[s].ov]
ShrinkH(s, h, to) ==
    /\ CanShrink(s, h)
    /\ LET x == Shrink(hs[h], shr[s].map[1].buf, shr[s].map[1].ov) IN New(to, x.axes, x.c, hs[h].obs)
ShrinkAx(a, lo, hi) == IF ShrinkAxisValid(a, <<lo, hi>>) THEN Query(ShrinkAxis(a, <<lo, hi>>)) ELSE Refuse

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
AllWellFormed == \A h \in DOMAIN hs : WellFormed(hs[h])
RefusedIsNoop == [][ret' = Refused => UNCHANGED hs]_vars
=============================================================================
