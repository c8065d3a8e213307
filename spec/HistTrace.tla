----------------------------- MODULE HistTrace -----------------------------
(* Checks traces recorded by harness/drv_hist.cpp against HistSys. *)
EXTENDS HistSys, TraceIO

VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]
Is(o) == l <= Len(Trace) /\ ev.op = o /\ l' = l + 1

(* the contents the implementation reports, if they are the exact ones up to rounding *)
AbsSum(c) == FoldLeft(LAMBDA a, x : RAdd(a, RAbs(x)), "0", c)
Finite(c) == \A b \in DOMAIN c : RIsFinite(c[b])
(* rounding errors are those of the contents that go in; a total of almost nothing out of a lot is all rounding *)
Inputs == {h \in {ev.h} \cup (IF "g" \in DOMAIN ev THEN {ev.g} ELSE {}) : h \in DOMAIN hs}
Into == LET H == {h \in Inputs : Finite(hs[h].c)} IN
        FoldLeft(LAMBDA a, h : RAdd(a, AbsSum(hs[h].c)), "0", SetToSeq(H))
(* without contents or weights below 0 nothing cancels *)
Plain == /\ \A h \in Inputs : \A b \in DOMAIN hs[h].c : IF RIsFinite(hs[h].c[b]) THEN RLe("0", hs[h].c[b]) ELSE FALSE
         /\ "w" \in DOMAIN ev => IF RIsFinite(ev.w) THEN RLe("0", ev.w) ELSE FALSE
Ill == IF ev.h \in DOMAIN hs /\ Finite(hs[ev.h].c)
       THEN RLt(RAbs(RSum(hs[ev.h].c)), RMul("1e-6", AbsSum(hs[ev.h].c))) ELSE FALSE
Tol0 == "1e-12"
(* beyond what a double holds *)
Huge(x) == RIsFinite(x) /\ RLt("1e290", RAbs(x))
(* to as many digits as what went in has; below 1e-290 there may be none left *)
Digits(x, y) == RIsFinite(x) /\ RIsFinite(y) /\ RTol(x, y, Tol0, IF Plain THEN "1e-290" ELSE RAdd("1e-290", RMul(Tol0, Into)))
Near(x, y) == IF Len(x) # Len(y) THEN FALSE
              ELSE \A b \in DOMAIN x : \/ RSame(x[b], y[b])
                                       \/ ev.op = "Normalise" /\ (Ill \/ RLt("1e290", Into))
                                       \/ ev.op = "Normalise" /\ RIsFinite(x[b]) /\ RIsFinite(y[b]) /\ RTol(x[b], y[b], "1e-9", "1e-290")
                                       \/ Huge(x[b])
                                       \/ Digits(x[b], y[b])
                                       \/ ~RIsFinite(x[b]) /\ ev.op = "Div" /\ ~RIsFinite(y[b])
TraceRnd(c) == IF "c" \in DOMAIN ev.out /\ Must(Near(c, ev.out.c), ev.op, c, ev.out) THEN {ev.out.c} ELSE {}

AxisOf(j) == Axis(j.name, IF "latex" \in DOMAIN j THEN j.latex ELSE "", j.lo, j.hi)
AxesOf(j) == [d \in 1..Len(j) |-> AxisOf(j[d])]
Fun(pairs) == [n \in {pairs[k][1] : k \in 1..Len(pairs)} |->
                  pairs[CHOOSE k \in 1..Len(pairs) : pairs[k][1] = n][2]]

(* outcome, and, after any call, the object it was made on *)
Outcome == Must(ret'.ok = ev.out.ok /\ (ev.out.ok \/ IsRefusal(ev)), ev.op, ret', ev.out)
Same(h) == "c" \in DOMAIN ev.out => Must(RVSame(hs'[h].c, ev.out.c), ev.op, hs'[h].c, ev.out)
(* the second operand is never touched *)
Operand(g) == "c2" \in DOMAIN ev.out => Must(RVSame(hs[g].c, ev.out.c2), ev.op, hs[g].c, ev.out)
Axes2(h) == "axes" \in DOMAIN ev.out =>
    Must(/\ Len(ev.out.axes) = Len(hs'[h].axes)
         /\ \A d \in 1..Len(ev.out.axes) :
               /\ ev.out.axes[d].name = hs'[h].axes[d].name /\ ev.out.axes[d].latex = hs'[h].axes[d].latex
               /\ RVSame(ev.out.axes[d].lo, hs'[h].axes[d].lo) /\ RVSame(ev.out.axes[d].hi, hs'[h].axes[d].hi)
         /\ "obs" \in DOMAIN ev.out => ev.out.obs = hs'[h].obs, ev.op, hs'[h], ev.out)
On(h) == Outcome /\ Same(h)
Made(to, from) == Outcome /\ (ev.out.ok => Same(to) /\ Axes2(to)) /\ Operand(from)
Val(same(_, _)) == Outcome /\ (ret'.ok => Must(same(ret'.v, ev.out.v), ev.op, ret', ev.out))

TNew == Is("New") /\ NewHist(ev.h, AxesOf(ev.axes)) /\ Made(ev.h, ev.h)
TNewWith == Is("NewWith") /\ New(ev.h, AxesOf(ev.axes), [b \in DOMAIN ev.c |-> R(ev.c[b])], <<>>) /\ Outcome /\ Same(ev.h) 
TSetObs == Is("SetObs") /\ SetObs(ev.h, ev.names) /\ On(ev.h)
TCopy == Is("Copy") /\ Copy(ev.h, ev.to) /\ Made(ev.to, ev.h)
TFill == Is("Fill") /\ Fill(ev.h, ev.vals, ev.w) /\ On(ev.h)
TFillMap == Is("FillMap") /\ FillMap(ev.h, Fun(ev.m), ev.w) /\ On(ev.h)
TSetBin == Is("SetBin") /\ SetBin(ev.h, ev.b, ev.x) /\ On(ev.h)
TAddBin == Is("AddBin") /\ AddBin(ev.h, ev.b, ev.x) /\ On(ev.h)
TGetBin == Is("GetBin") /\ GetBin(ev.h, ev.b) /\ Val(RSame) /\ On(ev.h)
TSetAll == Is("SetAll") /\ SetAll(ev.h, ev.x) /\ On(ev.h)
TScale == Is("Scale") /\ ScaleH(ev.h, ev.k) /\ On(ev.h)
TNormalise == Is("Normalise") /\ NormaliseH(ev.h) /\ On(ev.h)
TEmpty == Is("Empty") /\ EmptyH(ev.h) /\ On(ev.h)
TPad == Is("Pad") /\ PadH(ev.h, ev.p) /\ On(ev.h)
TAdd == Is("Add") /\ AddH(ev.h, ev.g, ev.w) /\ On(ev.h) /\ (ev.h # ev.g => Operand(ev.g))
TMul == Is("Mul") /\ MulH(ev.h, ev.g) /\ On(ev.h) /\ (ev.h # ev.g => Operand(ev.g))
TDiv == Is("Div") /\ DivH(ev.h, ev.g) /\ On(ev.h) /\ (ev.h # ev.g => Operand(ev.g))
NearI(x, y) == RSame(x, y) \/ RLt("1e290", Into) \/ Digits(x, y)
OrIll(same) == same \/ Ill \/ RLt("1e290", Into)
CloseM(x, y) == OrIll(RVClose(x, y))
CloseC(x, y) == IF RIsFinite(x) /\ RIsFinite(y) THEN RTol(x, y, "1e-9", IF Plain THEN "1e-290" ELSE "1e-9") ELSE RClose(x, y)
CloseP(x, y) == OrIll(CloseC(x, y))
TIntegral == Is("Integral") /\ IntegralH(ev.h) /\ Val(NearI) /\ On(ev.h)
TRange == Is("Range") /\ RangeH(ev.h, ev.a, ev.b) /\ Val(NearI) /\ On(ev.h)
TMeans == Is("Means") /\ MeansH(ev.h) /\ Val(CloseM) /\ On(ev.h)
TVars == Is("Vars") /\ VarsH(ev.h) /\ Val(CloseM) /\ On(ev.h)
TProb == Is("Prob") /\ Prob(ev.h, ev.vals) /\ Val(CloseP) /\ On(ev.h)
TWhere == Is("Where") /\ Where(ev.h, ev.vals) /\ Val(LAMBDA x, y : x = y) /\ On(ev.h)
TBinAt == Is("BinAt") /\ BinAt(ev.h, ev.b, IF "room" \in DOMAIN ev THEN ev.room ELSE Len(hs[ev.h].axes))
          /\ Val(LAMBDA x, y : x.idx = y.idx /\ RVSame(x.lo, y.lo) /\ RVSame(x.hi, y.hi) /\ RVClose(x.ctr, y.ctr)) /\ On(ev.h)
TAxisNo == Is("AxisNo") /\ AxisNo(ev.h, ev.name) /\ Val(LAMBDA x, y : x = y) /\ On(ev.h)
TMarg == Is("Marg") /\ MargH(ev.h, ev.names, ev.to) /\ Made(ev.to, ev.h)
TSlice == Is("Slice") /\ SliceH(ev.h, Fun(ev.fixed), ev.to) /\ Made(ev.to, ev.h)

(* all projections a viewer can show: 1-D in axis order, then unordered pairs beyond 2-D *)
TProjs ==
    /\ Is("Projs") /\ UNCHANGED vars /\ IsOk(ev)
    /\ LET n == Names(hs[ev.h].axes)  ps == ev.out.v  nd == Len(n)
           Right(p) == LET m == Marg(hs[ev.h], p.names) IN Len(m.c) = Len(p.c) /\ \A b \in DOMAIN m.c : CloseC(m.c[b], p.c[b])
       IN Must(/\ Len(ps) = nd + (IF nd > 2 THEN (nd * (nd - 1)) \div 2 ELSE 0)
               /\ \A i \in 1..nd : ps[i].names = <<n[i]>> /\ Right(ps[i])
               /\ \A i \in (nd + 1)..Len(ps) : Len(ps[i].names) = 2 /\ Right(ps[i])
               /\ nd > 2 => {{ps[i].names[1], ps[i].names[2]} : i \in (nd+1)..Len(ps)} = PairNames(ev.h),
               "Projs", hs[ev.h], ev.out)
(* the 1-D slices along an axis: each combination of the other axes' bins once *)
TSlices1 ==
    /\ Is("Slices1") /\ UNCHANGED vars /\ IsOk(ev)
    /\ LET F == FixedSet(ev.h, Others(ev.h, ev.axis))  ss == ev.out.v
       IN Must(/\ Len(ss) = Cardinality(F)
               /\ \A f \in F : LET s == Slice(hs[ev.h], f) IN \E i \in 1..Len(ss) : RVSame(s.c, ss[i].c)
               /\ \A i \in 1..Len(ss) : ss[i].names = <<ev.axis>> /\ \E f \in F : RVSame(Slice(hs[ev.h], f).c, ss[i].c),
               "Slices1", F, ev.out)
(* a family of 1-D or 2-D histograms over chosen axes, all filled from the same dictionaries *)
RECURSIVE FillAll(_, _, _)
FillAll(h, names, fills) ==
    IF fills = <<>> THEN h.c
    ELSE LET m == Fun(fills[1])
         IN FillAll([h EXCEPT !.c = FillC(h, [k \in 1..Len(names) |-> m[names[k]]], "1")], names, Tail(fills))
TFamily ==
    /\ Is("Family") /\ UNCHANGED vars /\ IsOk(ev)
    /\ LET ax == hs[ev.h].axes
           Right(o) == LET a == [k \in 1..Len(o.names) |-> ax[NameIdx(ax, o.names[k])]]
                       IN RVClose(FillAll(Hist(a, Zeros(a)), o.names, ev.fills), o.c)
       IN Must(/\ {ev.out.v[i].names : i \in 1..Len(ev.out.v)} = {ev.combs[i] : i \in 1..Len(ev.combs)}
               /\ Len(ev.out.v) = Cardinality({ev.combs[i] : i \in 1..Len(ev.combs)})
               /\ \A i \in 1..Len(ev.out.v) : Right(ev.out.v[i]), "Family", hs[ev.h].axes, ev.out)
(* the 2^d bin centres around a point, and the contents there *)
TLattice ==
    /\ Is("Lattice") /\ UNCHANGED vars /\ IsOk(ev)
    /\ LET h == hs[ev.h]  nd == Len(h.axes)
           u == [d \in 1..nd |-> LET i == FindIdx(h.axes[d], ev.vals[d])
                                 IN IF RLe(Centre(h.axes[d], i), ev.vals[d]) THEN i ELSE i - 1]
           Bit(k, d) == (k \div (2^(d-1))) % 2
           Cell(k) == [d \in 1..nd |-> u[d] + Bit(k, d)]
       IN Must(/\ Len(ev.out.v.vals) = 2^nd /\ Len(ev.out.v.locs) = 2^nd
               /\ \A k \in 0..(2^nd - 1) :
                     /\ CloseC(h.c[Flat(h.axes, Cell(k)) + 1], ev.out.v.vals[k+1])
                     /\ RVClose([d \in 1..nd |-> Centre(h.axes[d], Cell(k)[d])], ev.out.v.locs[k+1]),
               "Lattice", <<h, u>>, ev.out)

TNewShr == Is("NewShr") /\ NewShr(ev.s) /\ Outcome
TSetBuffer == Is("SetBuffer") /\ SetBuffer(ev.s, ev.name, ev.lo, ev.hi) /\ Outcome
TSetOv == Is("SetOv") /\ SetOv(ev.s, ev.b) /\ Outcome
              /\ Must(ev.out.v = ev.b, "SetOv", ev.b, ev.out)
TGetBuffer == Is("GetBuffer") /\ GetBuffer(ev.s, ev.name) /\ Val(LAMBDA x, y : x = y)
TSetMap == Is("SetMap") /\ SetMap(ev.s, ev.h) /\ Outcome /\ Operand(ev.h)
TShrink == Is("ShrinkDist") /\ ShrinkH(ev.s, ev.h, ev.to) /\ Made(ev.to, ev.h)
TShrinkAx == Is("ShrinkAxis") /\ ShrinkAx(AxisOf(ev.axis), ev.lo, ev.hi)
             /\ Val(LAMBDA x, y : x.name = y.name /\ x.latex = y.latex /\ RVSame(x.lo, y.lo) /\ RVSame(x.hi, y.hi))

TReset == Is("Reset") /\ hs' = << >> /\ shr' = << >> /\ ret' = Done

TraceInit == Init /\ l = 1
TraceNext ==
    \/ TNew \/ TNewWith \/ TSetObs \/ TCopy \/ TFill \/ TFillMap \/ TSetBin \/ TAddBin \/ TGetBin \/ TSetAll
    \/ TScale \/ TNormalise \/ TEmpty \/ TPad \/ TAdd \/ TMul \/ TDiv \/ TIntegral \/ TRange \/ TMeans \/ TVars
    \/ TProb \/ TWhere \/ TBinAt \/ TAxisNo \/ TMarg \/ TSlice \/ TProjs \/ TSlices1 \/ TFamily \/ TLattice
    \/ TNewShr \/ TSetBuffer \/ TSetOv \/ TGetBuffer \/ TSetMap \/ TShrink \/ TShrinkAx \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceRefusedIsNoop == [][ret' = Refused => UNCHANGED hs]_tvars
=============================================================================
