------------------------------- MODULE HistMC -------------------------------
(* Exhaustive instance of HistSys to a bounded depth; prints tests. *)
EXTENDS HistSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<vars, log>>
Exact(c) == {c}
Log(o) == log' = Append(log, o)

AX == [x |-> Axis("x", "", <<"0","1">>, <<"1","2">>),
       y |-> Axis("y", "", <<"0","1/2","2">>, <<"1/2","2","3">>),
       z |-> Axis("z", "", <<"-1","0">>, <<"0","1">>)]
Shapes == {<<"x">>, <<"y">>, <<"x","y">>, <<"y","x">>, <<"z","y","x">>}
Build(s) == [k \in 1..Len(s) |-> AX[s[k]]]
Prime(n) == <<2,3,5,7,11,13,17,19,23,29,31,37>>[n]
Fresh(h) == h \notin DOMAIN hs
On(o) == o \in Ops
AxJ(s) == [k \in 1..Len(s) |-> [name |-> s[k], lo |-> AX[s[k]].lo, hi |-> AX[s[k]].hi]]

MCInit == Init /\ log = <<>>
(* distinguishable contents: cell b holds the b-th prime *)
DoNew == \E h \in {"a","b"}, s \in Shapes : Fresh(h) /\ (h = "b" => "a" \in DOMAIN hs)
    /\ New(h, Build(s), [b \in 1..NBins(Build(s)) |-> R(Prime(b))], <<>>)
    /\ Log([op |-> "NewWith", h |-> h, kind |-> "H", axes |-> AxJ(s), c |-> [b \in 1..NBins(Build(s)) |-> ToString(Prime(b))]])
Vs == {<<"-1">>, <<"1/2">>, <<"1","1">>, <<"5","-3">>, <<"0","1/2","1/2">>}
DoFill == On("Fill") /\ \E h \in DOMAIN hs, v \in Vs : Fill(h, v, "1/2") /\ Log([op |-> "Fill", h |-> h, vals |-> v, w |-> "1/2"])
Ms == { [x |-> "1/2"], [x |-> "3/2", y |-> "1/2"], [x |-> "0", y |-> "9", z |-> "0"] }
DoFillMap == On("Fill") /\ \E h \in DOMAIN hs, m \in Ms : FillMap(h, m, "2")
    /\ Log([op |-> "FillMap", h |-> h, m |-> [k \in 1..Cardinality(DOMAIN m) |-> LET n == SetToSeq(DOMAIN m)[k] IN <<n, m[n]>>], w |-> "2"])
DoBin == On("Bin") /\ \E h \in DOMAIN hs, b \in {0, 1, 5, 6, 11, 12} :
    \/ SetBin(h, b, "1/4") /\ Log([op |-> "SetBin", h |-> h, b |-> b, x |-> "1/4"])
    \/ AddBin(h, b, "-3") /\ Log([op |-> "AddBin", h |-> h, b |-> b, x |-> "-3"])
    \/ GetBin(h, b) /\ Log([op |-> "GetBin", h |-> h, b |-> b])
DoGeo == On("Bin") /\ \E h \in DOMAIN hs :
    \/ \E b \in {0, 1, 5, 6, 11, 12} : BinAt(h, b, Len(hs[h].axes)) /\ Log([op |-> "BinAt", h |-> h, b |-> b])
    \/ BinAt(h, 0, Len(hs[h].axes) - 1) /\ Log([op |-> "BinAt", h |-> h, b |-> 0, room |-> Len(hs[h].axes) - 1])
    \/ \E v \in Vs : Where(h, v) /\ Log([op |-> "Where", h |-> h, vals |-> v])
    \/ \E n \in {"x","y","z"} : AxisNo(h, n) /\ Log([op |-> "AxisNo", h |-> h, name |-> n])
DoArith == On("Arith") /\ \E h \in DOMAIN hs :
    \/ ScaleH(h, "1/2") /\ Log([op |-> "Scale", h |-> h, k |-> "1/2"])
    \/ NormaliseH(h) /\ Log([op |-> "Normalise", h |-> h])
    \/ EmptyH(h) /\ Log([op |-> "Empty", h |-> h])
    \/ PadH(h, "1/8") /\ Log([op |-> "Pad", h |-> h, p |-> "1/8"])
    \/ IntegralH(h) /\ Log([op |-> "Integral", h |-> h])
    \/ MeansH(h) /\ Log([op |-> "Means", h |-> h])
    \/ VarsH(h) /\ Log([op |-> "Vars", h |-> h])
    \/ \E g \in DOMAIN hs : \/ AddH(h, g, "2") /\ Log([op |-> "Add", h |-> h, g |-> g, w |-> "2"])
                            \/ MulH(h, g) /\ Log([op |-> "Mul", h |-> h, g |-> g])
                            \/ DivH(h, g) /\ Log([op |-> "Div", h |-> h, g |-> g])
    \/ \E p \in {<<"0","1">>, <<"1","1">>, <<"-1","1/2">>, <<"1/2","9">>} :
          RangeH(h, p[1], p[2]) /\ Log([op |-> "Range", h |-> h, a |-> p[1], b |-> p[2]])
Projs == {<<"x">>, <<"y">>, <<"x","y">>, <<"y","z">>, <<"y","x","z">>, <<"x","x">>, <<"w">>}
DoMarg == On("Proj") /\ \E h \in DOMAIN hs, n \in Projs : MargH(h, n, "m")
    /\ Log([op |-> "Marg", h |-> h, names |-> n, to |-> "m"])
Fix == { [x |-> 0], [x |-> 1], [y |-> 2], [y |-> 3], [x |-> 1, z |-> 0], [z |-> 1], [w |-> 0], [x |-> 2, y |-> 0] }
DoSlice == On("Proj") /\ \E h \in DOMAIN hs, f \in Fix : SliceH(h, f, "s")
    /\ Log([op |-> "Slice", h |-> h, fixed |-> [k \in 1..Cardinality(DOMAIN f) |-> LET n == SetToSeq(DOMAIN f)[k] IN <<n, f[n]>>], to |-> "s"])
DoShr == On("Shrink") /\
    \/ DOMAIN shr = {} /\ NewShr("k") /\ Log([op |-> "NewShr", s |-> "k"])
    \/ \E s \in DOMAIN shr, n \in {"x","y","w"}, p \in {<<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>, <<0,2>>} :
          SetBuffer(s, n, p[1], p[2]) /\ Log([op |-> "SetBuffer", s |-> s, name |-> n, lo |-> p[1], hi |-> p[2]])
    \/ \E s \in DOMAIN shr : ~shr[s].ov /\ SetOv(s, TRUE) /\ Log([op |-> "SetOv", s |-> s, b |-> TRUE])
    \/ \E s \in DOMAIN shr, h \in DOMAIN hs : SetMap(s, h) /\ Log([op |-> "SetMap", s |-> s, h |-> h])
    \/ \E s \in DOMAIN shr, h \in DOMAIN hs : ShrinkH(s, h, "t") /\ Log([op |-> "ShrinkDist", s |-> s, h |-> h, to |-> "t"])
MCNext == DoNew \/ DoFill \/ DoFillMap \/ DoBin \/ DoGeo \/ DoArith \/ DoMarg \/ DoSlice \/ DoShr
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<hs, shr>>
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws every reachable histogram obeys                                     *)
(***************************************************************************)
Finite(h) == \A b \in DOMAIN h.c : RIsFinite(h.c[b])
SeqsOf(S) == {s \in UNION {[1..n -> S] : n \in 1..Cardinality(S)} : \A i, j \in DOMAIN s : s[i] = s[j] => i = j}
NameSeqs(h) == SeqsOf({h.axes[d].name : d \in 1..Len(h.axes)})
(* projecting keeps the total; projecting twice is projecting once; all axes in order is the identity *)
MargLaws == \A k \in DOMAIN hs : Finite(hs[k]) =>
    \A n \in NameSeqs(hs[k]) :
        LET m == TLCEval(Marg(hs[k], n)) IN
        /\ REq(Integral(m), Integral(hs[k]))
        /\ \A p \in {SubSeq(n, 1, 1), SubSeq(n, 2, Len(n))} \ {<<>>, n} : Marg(m, p) = Marg(hs[k], p)
        /\ n = Names(hs[k].axes) => m = Hist(hs[k].axes, [b \in DOMAIN hs[k].c |-> R(hs[k].c[b])])
(* the slices along an axis add up to the projection that drops it *)
SliceLaws == \A k \in DOMAIN hs : (Finite(hs[k]) /\ Len(hs[k].axes) > 1) =>
    \A d \in 1..Len(hs[k].axes) :
        LET n == hs[k].axes[d].name
            sl == TLCEval([i \in 1..NBinsOf(hs[k].axes[d]) |-> Slice(hs[k], (n :> (i - 1)))])
            m == TLCEval(Marg(hs[k], Others(k, n)))
        IN \A b \in DOMAIN m.c : REq(m.c[b], RSum([i \in DOMAIN sl |-> sl[i].c[b]]))
Bufs == [ {"x","y"} -> {<<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>} ]
(* shrinking keeps every kept cell, loses exactly the buffer, or folds all of it in *)
ShrinkLaws == \A k \in DOMAIN hs : Finite(hs[k]) => \A f \in Bufs : ShrinkValid(hs[k].axes, f) =>
    LET in == TLCEval(Shrink(hs[k], f, FALSE))  ov == TLCEval(Shrink(hs[k], f, TRUE))  h == hs[k] IN
    /\ WellFormed(in) /\ WellFormed(ov)
    /\ REq(Integral(ov), Integral(h))
    /\ \A b \in DOMAIN h.c : ~InBuffer(h.axes, f, Unflat(h.axes, b - 1)) =>
          REq(in.c[ShrinkTo(h.axes, f, Unflat(h.axes, b - 1)) + 1], h.c[b])
    /\ \A b \in DOMAIN in.c : LET u == Unflat(in.axes, b - 1) IN
          \A d \in 1..Len(u) : REq(in.axes[d].lo[u[d]+1], h.axes[d].lo[u[d] + BufOf(f, h.axes[d].name)[1] + 1])
FillLaws == \A k \in DOMAIN hs : Finite(hs[k]) =>
    \A v \in Vs : Len(v) = Len(hs[k].axes) =>
        LET c == FillC(hs[k], v, "3/4") IN
        /\ REq(RSum(c), RAdd(Integral(hs[k]), "3/4"))
        /\ Cardinality({b \in DOMAIN c : ~REq(c[b], hs[k].c[b])}) = 1
NormLaws == \A k \in DOMAIN hs : (Finite(hs[k]) /\ ~REq(Integral(hs[k]), 0)) => REq(RSum(NormaliseC(hs[k])), 1)
MCRefusedIsNoop == [][ret' = Refused => UNCHANGED hs]_mcvars
=============================================================================
