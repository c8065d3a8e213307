------------------------------- MODULE Hists -------------------------------
(***************************************************************************)
(* Binned contents over a product of axes, as data, and the operations a    *)
(* histogram offers on them.  hist == [axes, c]; c[b+1] is bin b's content. *)
(***************************************************************************)
EXTENDS Axes, SequencesExt, TLC

Hist(axes, c) == [axes |-> axes, c |-> c]
Zeros(axes) == [b \in 1..NBins(axes) |-> "0"]
WellFormed(h) == Len(h.c) = NBins(h.axes)

FillC(h, vals, w) == LET b == FindBin(h.axes, vals) + 1 IN [h.c EXCEPT ![b] = RAdd(@, w)]
Integral(h) == RSum(h.c)
NormaliseC(h) == LET s == Integral(h) IN [b \in DOMAIN h.c |-> RDiv(h.c[b], s)]
ScaleC(h, k) == RScaleSeq(h.c, k)
AddC(h, g, w) == RAddSeq(h.c, RScaleSeq(g.c, w))
MulC(h, g) == RMulSeq(h.c, g.c)
DivC(h, g) == RDivSeq(h.c, g.c)
PadC(h, p) == [b \in DOMAIN h.c |-> IF REq(h.c[b], "0") THEN R(p) ELSE h.c[b]]

CentreOf(h, b, d) == Centre(h.axes[d], UnflatD(h.axes, b, d))      \* b 0-based, d 1-based
MeanD(h, d) == RSum([b \in DOMAIN h.c |-> RMul(h.c[b], CentreOf(h, b - 1, d))])
VarD(h, d) == LET m == MeanD(h, d)
              IN RSub(RSum([b \in DOMAIN h.c |-> RMul(h.c[b], RMul(CentreOf(h, b-1, d), CentreOf(h, b-1, d)))]), RMul(m, m))

(* 1-D: everything from the bin of lo to the bin of hi, both included *)
RangeIntegral(h, lo, hi) ==
    IF RLe(hi, lo) THEN "0"
    ELSE RSum(SubSeq(h.c, FindIdx(h.axes[1], lo) + 1, FindIdx(h.axes[1], hi) + 1))

(* Projection onto the named axes, in the order named *)
MargAxes(h, names) == [k \in 1..Len(names) |-> h.axes[NameIdx(h.axes, names[k])]]
BinSeq(h) == [b \in 1..Len(h.c) |-> b]
Accum(c, k, x) == [c EXCEPT ![k] = RAdd(@, x)]
MargC(h, names) ==
    LET na == MargAxes(h, names)
        pos == TLCEval([k \in 1..Len(names) |-> NameIdx(h.axes, names[k])])
        To(b) == LET u == TLCEval(Unflat(h.axes, b - 1)) IN Flat(na, TLCEval([k \in 1..Len(names) |-> u[pos[k]]])) + 1
    IN FoldLeft(LAMBDA acc, b : Accum(acc, To(b), h.c[b]), TLCEval(Zeros(na)), BinSeq(h))
Marg(h, names) == Hist(MargAxes(h, names), MargC(h, names))
MargValid(h, names) == /\ Len(names) > 0
                       /\ \A k \in 1..Len(names) : HasName(h.axes, names[k])
                       /\ \A j, k \in 1..Len(names) : names[j] = names[k] => j = k

(* Slice: fixed is a function from axis names to bin indices; the other axes *)
(* stay, in their order, each cell keeping its place.                        *)
SliceFree(h, fixed) == SelectSeq([d \in 1..Len(h.axes) |-> d], LAMBDA d : h.axes[d].name \notin DOMAIN fixed)
SliceValid(h, fixed) ==
    /\ \A n \in DOMAIN fixed : HasName(h.axes, n) /\ fixed[n] < NBinsOf(h.axes[NameIdx(h.axes, n)])
    /\ Cardinality(DOMAIN fixed) < Len(h.axes)
Slice(h, fixed) ==
    LET fr == SliceFree(h, fixed)
        na == [k \in 1..Len(fr) |-> h.axes[fr[k]]]
        cell(u) == [d \in 1..Len(h.axes) |->
                       IF h.axes[d].name \in DOMAIN fixed THEN fixed[h.axes[d].name]
                       ELSE u[CHOOSE k \in 1..Len(fr) : fr[k] = d]]
    IN Hist(na, [nb \in 1..NBins(na) |-> h.c[Flat(h.axes, TLCEval(cell(TLCEval(Unflat(na, nb - 1))))) + 1]])

(***************************************************************************)
(* Shrinking: buf maps axis names to <<bins cut below, bins cut above>>.    *)
(***************************************************************************)
BufOf(buf, n) == IF n \in DOMAIN buf THEN buf[n] ELSE <<0, 0>>
ShrinkAxisValid(a, b) == IF b = <<0, 0>> THEN TRUE ELSE b[1] + b[2] < NBinsOf(a)
ShrinkAxis(a, b) == [a EXCEPT !.lo = SubSeq(@, b[1] + 1, Len(@) - b[2]),
                              !.hi = SubSeq(@, b[1] + 1, Len(@) - b[2])]
ShrinkAxes(axes, buf) == [d \in 1..Len(axes) |-> ShrinkAxis(axes[d], BufOf(buf, axes[d].name))]
ShrinkValid(axes, buf) == \A d \in 1..Len(axes) : ShrinkAxisValid(axes[d], BufOf(buf, axes[d].name))
InBuffer(axes, buf, u) == \E d \in 1..Len(axes) :
    LET b == BufOf(buf, axes[d].name) IN u[d] < b[1] \/ u[d] >= NBinsOf(axes[d]) - b[2]
Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
ShrinkTo(axes, buf, u) ==     \* where an old cell goes
    Flat(ShrinkAxes(axes, buf),
         [d \in 1..Len(axes) |-> LET b == BufOf(buf, axes[d].name)
                                 IN Clamp(u[d] - b[1], NBinsOf(axes[d]) - b[1] - b[2])])
ShrinkC(h, buf, ov) ==
    LET na == ShrinkAxes(h.axes, buf)
        Step(acc, b) == LET u == TLCEval(Unflat(h.axes, b - 1))
                        IN IF ov \/ ~InBuffer(h.axes, buf, u)
                           THEN Accum(acc, ShrinkTo(h.axes, buf, u) + 1, h.c[b]) ELSE acc
    IN FoldLeft(Step, TLCEval(Zeros(na)), BinSeq(h))
Shrink(h, buf, ov) == Hist(ShrinkAxes(h.axes, buf), ShrinkC(h, buf, ov))
=============================================================================
