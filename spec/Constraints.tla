---------------------------- MODULE Constraints ----------------------------
(***************************************************************************)
(* Constraints on parameters as data, and the penalty they give.  A set of   *)
(* parameters is a sequence of <<name, value>>; a set of constraints is      *)
(* [ind, pair, ratio, frac, interp, shape], each a function from what it     *)
(* constrains.                                                              *)
(***************************************************************************)
EXTENDS Hists

DHas(p, n) == \E k \in 1..Len(p) : p[k][1] = n
DGet(p, n) == p[CHOOSE k \in 1..Len(p) : p[k][1] = n][2]
NoCons == [ind |-> << >>, pair |-> << >>, ratio |-> << >>, frac |-> << >>, interp |-> << >>, shape |-> << >>]
PairedIn(t) == UNION {{p[1], p[2]} : p \in DOMAIN t.pair}
SingleIn(t) == DOMAIN t.ind

Sq(x) == RMul(x, x)
Pull(x, m, s) == RDiv(Sq(RSub(x, m)), RMul("2", Sq(s)))
IndVal(t, x) == Pull(x, t.m, IF RLe(t.m, x) THEN t.hi ELSE t.lo)
PairVal(t, x, y) == LET u == RDiv(RSub(x, t.m1), t.s1)  v == RDiv(RSub(y, t.m2), t.s2) IN
    RDiv(RSub(RDiv(RAdd(Sq(u), Sq(v)), "2"), RMul(t.corr, RMul(u, v))), RSub("1", Sq(t.corr)))
Tiny == "0x1.5798ee2308c3ap-27"      \* 1e-8
RatioVal(t, x, y) == Pull(RDiv(x, IF RLt(RAbs(y), Tiny) THEN Tiny ELSE y), t.m, t.s)
FracVal(t, x, y) == Pull(RDiv(RSub(x, y), RAdd(x, y)), t.m, t.s)
Lin(co, dict) == RSum([k \in 1..Len(co) |-> RMul(co[k][2], DGet(dict, co[k][1]))])
(* values at the centres of the bins, linear in between in every direction *)
LoIdx(a, x) == LET i == FindIdx(a, x) IN IF RLe(Centre(a, i), x) THEN i ELSE i - 1
(* at the last centre itself a value may be given: that of the centre *)
AtEnd(a, x) == REq(Centre(a, NBinsOf(a) - 1), x)
InLattice(h, v) == \A d \in 1..Len(v) : LoIdx(h.axes[d], v[d]) >= 0 /\ LoIdx(h.axes[d], v[d]) + 1 < NBinsOf(h.axes[d])
RECURSIVE Corners(_)
Corners(n) == IF n = 0 THEN {<<>>} ELSE {Append(t, b) : t \in Corners(n - 1), b \in {0, 1}}
Interp(h, v) ==
    LET n == Len(v)
        lo == TLCEval([d \in 1..n |-> LoIdx(h.axes[d], v[d]) - (IF AtEnd(h.axes[d], v[d]) THEN 1 ELSE 0)])
        f == TLCEval([d \in 1..n |-> RDiv(RSub(v[d], Centre(h.axes[d], lo[d])), RSub(Centre(h.axes[d], lo[d] + 1), Centre(h.axes[d], lo[d])))])
        W(t) == FoldLeft(LAMBDA a, d : RMul(a, IF t[d] = 1 THEN f[d] ELSE RSub("1", f[d])), "1", [d \in 1..n |-> d])
        V(t) == h.c[Flat(h.axes, [d \in 1..n |-> lo[d] + t[d]]) + 1]
        ts == SetToSeq(Corners(n))
    IN RSum([k \in 1..Len(ts) |-> RMul(W(ts[k]), V(ts[k]))])
AxisPick(h, dict) == [d \in 1..Len(h.axes) |-> DGet(dict, h.axes[d].name)]
Sum(S, Op(_)) == LET q == SetToSeq(S) IN RSum([k \in 1..Len(q) |-> Op(q[k])])
NeedsOf(t) ==
    DOMAIN t.ind \cup UNION {{p[1], p[2]} : p \in DOMAIN t.pair \cup DOMAIN t.ratio \cup DOMAIN t.frac}
    \cup UNION {{t.interp[l].axes[d].name : d \in 1..Len(t.interp[l].axes)} : l \in DOMAIN t.interp}
    \cup UNION {{t.shape[k].co[j][1] : j \in 1..Len(t.shape[k].co)} : k \in DOMAIN t.shape}
Has(needs, dict) == \A n \in needs : DHas(dict, n)
LatticeOk(t, dict) == \A l \in DOMAIN t.interp : InLattice(t.interp[l], AxisPick(t.interp[l], dict))
LatticeEdge(t, dict) == \A l \in DOMAIN t.interp : LET h == t.interp[l]  v == AxisPick(h, dict) IN
    \A d \in 1..Len(v) : (AtEnd(h.axes[d], v[d]) /\ NBinsOf(h.axes[d]) > 1) \/ (LoIdx(h.axes[d], v[d]) >= 0 /\ LoIdx(h.axes[d], v[d]) + 1 < NBinsOf(h.axes[d]))
ConVal(t, dict) == RSum(<<
        Sum(DOMAIN t.ind, LAMBDA n : IndVal(t.ind[n], DGet(dict, n))),
        Sum(DOMAIN t.pair, LAMBDA p : PairVal(t.pair[p], DGet(dict, p[1]), DGet(dict, p[2]))),
        Sum(DOMAIN t.ratio, LAMBDA p : RatioVal(t.ratio[p], DGet(dict, p[1]), DGet(dict, p[2]))),
        Sum(DOMAIN t.frac, LAMBDA p : FracVal(t.frac[p], DGet(dict, p[1]), DGet(dict, p[2]))),
        Sum(DOMAIN t.interp, LAMBDA l : Interp(t.interp[l], AxisPick(t.interp[l], dict))),
        Sum(DOMAIN t.shape, LAMBDA k : Pull(Lin(t.shape[k].co, dict), t.shape[k].m, t.shape[k].s)) >>)
=============================================================================
