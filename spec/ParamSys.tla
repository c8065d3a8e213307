------------------------------ MODULE ParamSys ------------------------------
(***************************************************************************)
(* C11-C13: parameters by name (ParameterManager over a caller's storage),   *)
(* every fit component's parameters (systematics, functions, kernels,        *)
(* spectra), groups of components, and constraints on parameters.            *)
(* A set of parameters is a sequence of <<name, value>>.                     *)
(***************************************************************************)
EXTENDS Constraints

VARIABLES pms,    \* handle -> [d, c, m]: doubles, a container, name -> [src, i]
          cps,    \* handle -> [kind, name, cells, g, par]
          mgrs,   \* handle -> sequence of handles of cps
          cons,   \* handle -> [ind, pair, ratio, frac, interp, shape]
          ret
state == <<pms, cps, mgrs, cons>>
vars == <<state, ret>>

Ok(v) == [ok |-> TRUE, v |-> v]
Done == [ok |-> TRUE, v |-> <<>>]
Refused == [ok |-> FALSE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Refuse == ret' = Refused /\ UNCHANGED state
Query(v) == ret' = Ok(v) /\ UNCHANGED state
Init == pms = << >> /\ cps = << >> /\ mgrs = << >> /\ cons = << >> /\ ret = Done

(***************************************************************************)
(* ParameterManager                                                         *)
(***************************************************************************)
SetPm(p, v) == pms' = Put(pms, p, v) /\ ret' = Done /\ UNCHANGED <<cps, mgrs, cons>>
NewPm(p, d, c) == SetPm(p, [d |-> d, c |-> c, m |-> << >>])
PmNames(p) == DOMAIN pms[p].m
PmLive(p, n) == pms[p].m[n].i <= Len(pms[p][pms[p].m[n].src])
PmVal(p, n) == pms[p][pms[p].m[n].src][pms[p].m[n].i]
PmAddD(p, i, name) == SetPm(p, [pms[p] EXCEPT !.m = Put(@, name, [src |-> "d", i |-> i])])
RECURSIVE PutAll(_, _, _)
PutAll(m, names, k) == IF k > Len(names) THEN m ELSE PutAll(Put(m, names[k], [src |-> "c", i |-> k]), names, k + 1)
PmAddC(p, names) == IF Len(names) # Len(pms[p].c) THEN Refuse ELSE SetPm(p, [pms[p] EXCEPT !.m = PutAll(@, names, 1)])
PmAddBase(p, base) == PmAddC(p, [k \in 1..Len(pms[p].c) |-> base \o "_" \o ToString(k - 1)])
Store(v, t, x) == IF t.src = "d" THEN [v EXCEPT !.d[t.i] = x] ELSE [v EXCEPT !.c[t.i] = x]
PmSet(p, n, x) == IF n \in PmNames(p) /\ PmLive(p, n) THEN SetPm(p, Store(pms[p], pms[p].m[n], x)) ELSE Refuse
PmGet(p, n) == IF n \in PmNames(p) /\ PmLive(p, n) THEN Query(PmVal(p, n)) ELSE Refuse
(* all of them or none; names nobody asked for are ignored; of two names for one place, either may come last *)
Cells(v) == {v.m[n] : n \in DOMAIN v.m}
RECURSIVE Stores(_, _, _, _)
Stores(v, m, dict, ts) == IF ts = {} THEN {v} ELSE LET t == CHOOSE t \in ts : TRUE IN
    UNION {Stores(Store(v, t, x), m, dict, ts \ {t}) : x \in {DGet(dict, n) : n \in {n \in DOMAIN m : m[n] = t}}}
PmSets(p, dict) == IF ~(\A n \in PmNames(p) : DHas(dict, n)) THEN Refuse
                   ELSE \E v \in Stores(pms[p], pms[p].m, dict, Cells(pms[p])) : SetPm(p, v)
(* the same, of several results the one that was seen: d and c *)
CellOpts(v, dict, t) == {DGet(dict, n) : n \in {n \in DOMAIN v.m : v.m[n] = t}}
SeenCell(v, dict, src, i, x) ==
    LET t == [src |-> src, i |-> i]  o == CellOpts(v, dict, t) IN
    IF o = {} THEN v[src][i] ELSE IF \E y \in o : RSame(y, x) THEN CHOOSE y \in o : RSame(y, x) ELSE CHOOSE y \in o : TRUE
PmSetsSeen(p, dict, d, c) ==
    IF ~(\A n \in PmNames(p) : DHas(dict, n)) THEN Refuse
    ELSE LET v == pms[p] IN
         SetPm(p, [v EXCEPT !.d = [i \in 1..Len(@) |-> SeenCell(v, dict, "d", i, IF i <= Len(d) THEN d[i] ELSE "0")],
                               !.c = [i \in 1..Len(@) |-> SeenCell(v, dict, "c", i, IF i <= Len(c) THEN c[i] ELSE "0")]])
PmRename(p, o, n) == IF o \notin PmNames(p) \/ n \in PmNames(p) THEN Refuse
                     ELSE SetPm(p, [pms[p] EXCEPT !.m = Drop(Put(@, n, @[o]), o)])
PmClear(p) == SetPm(p, [pms[p] EXCEPT !.m = << >>])
(* the caller changes the storage behind the parameters *)
Poke(p, src, i, x) == SetPm(p, Store(pms[p], [src |-> src, i |-> i], x))
Resize(p, n) == SetPm(p, [pms[p] EXCEPT !.c = [k \in 1..n |-> IF k <= Len(@) THEN @[k] ELSE "0"]])

(***************************************************************************)
(* Fit components: cells are what the parameters control, in the order of    *)
(* the object's own getters; a name may stand for several cells.             *)
(***************************************************************************)
Cell(n, v) == [n |-> n, v |-> v]
Idx(base, k) == base \o "_" \o ToString(k - 1)
(* kinds that take what they find in a set and leave the rest alone *)
Partial(c) == c.kind \in {"gauss", "jump", "conv", "evconv", "analytic"}
(* kinds where two cells may go by one name *)
Shares(c) == Partial(c) \/ c.kind = "vary"
FreshCells(kind, name, j) ==
    CASE kind = "shift" -> <<Cell("shift", "1")>>
      [] kind = "scale" -> <<Cell("scaleFactor", "1")>>
      [] kind = "evshift" -> <<Cell("shift", "0")>>
      [] kind = "evscale" -> <<Cell("scale", "1")>>
      [] kind = "evreconv" -> <<Cell("correction", "1")>>
      [] kind = "sqrt" -> <<Cell("grad", "1")>>
      [] kind = "renorm" -> <<>>
      [] kind \in {"shape", "scalefn"} -> [k \in 1..Len(j) |-> Cell(j[k], "0")]
      [] kind = "spectral" -> [k \in 1..j |-> Cell(name \o "_bin_" \o ToString(k - 1), "0")]
      [] kind = "gauss" -> [k \in 1..Len(j.m) |-> Cell(Idx("means", k), j.m[k])] \o [k \in 1..Len(j.s) |-> Cell(Idx("stddevs", k), j.s[k])]
SetCps(h, v) == cps' = Put(cps, h, v) /\ ret' = Done /\ UNCHANGED <<pms, mgrs, cons>>
(* a Gaussian has as many widths as means, all of them positive *)
BadGauss(m, s) == Len(m) # Len(s) \/ \E k \in 1..Len(s) : RLe(s[k], "0")
FarOut == "6"       \* from so many widths on nothing is left
NewCp(h, kind, name, j) ==
    IF kind = "gauss" /\ BadGauss(j.m, j.s) THEN Refuse
    ELSE SetCps(h, [kind |-> kind, name |-> IF kind = "gauss" /\ name = "" THEN "gaussian" ELSE name, cells |-> FreshCells(kind, name, j),
                    par |-> <<>>, ker |-> <<>>, cut |-> FarOut])
(* kernels and distributions built on a function hold a copy of it *)
Wrap(h, kind, name, g) == SetCps(h, [kind |-> kind, name |-> name, cells |-> cps[g].cells, par |-> <<>>, ker |-> <<>>, cut |-> cps[g].cut])
(* a kernel whose parameters follow functions: deps is a sequence of <<parameter, sqrt component>>, in the order of the parameters *)
NewVary(h, name, g, deps) ==
    SetCps(h, [kind |-> "vary", name |-> name, cells |-> [k \in 1..Len(deps) |-> cps[deps[k][2]].cells[1]],
               par |-> [k \in 1..Len(deps) |-> deps[k][1]], ker |-> cps[g].cells, cut |-> cps[g].cut])
(* a dependence given again takes the place of the one before; another parameter joins the rest *)
VaDep(h, p, q) == LET c == cps[h] IN
    IF p \in {c.par[k] : k \in 1..Len(c.par)}
    THEN SetCps(h, [c EXCEPT !.cells[CHOOSE k \in 1..Len(c.par) : c.par[k] = p] = cps[q].cells[1]])
    ELSE SetCps(h, [c EXCEPT !.par = Append(@, p), !.cells = Append(@, cps[q].cells[1])])
(* another kernel under the same dependences *)
VaKer(h, g) == SetCps(h, [cps[h] EXCEPT !.ker = cps[g].cells, !.cut = cps[g].cut])
CpNames(c) == {c.cells[k].n : k \in 1..Len(c.cells)}
CpVals(c, n) == {c.cells[k].v : k \in {k \in 1..Len(c.cells) : c.cells[k].n = n}}
WithName(c, n, x) == [c EXCEPT !.cells = [k \in 1..Len(@) |-> IF @[k].n = n THEN [@[k] EXCEPT !.v = x] ELSE @[k]]]
WithDict(c, dict) == [c EXCEPT !.cells = [k \in 1..Len(c.cells) |-> LET e == c.cells[k] IN IF DHas(dict, e.n) THEN Cell(e.n, DGet(dict, e.n)) ELSE e]]
CpSet(h, n, x) == IF n \in CpNames(cps[h]) THEN SetCps(h, WithName(cps[h], n, x)) ELSE Refuse
CpGet(h, n) == IF n \in CpNames(cps[h]) THEN \E v \in CpVals(cps[h], n) : Query(v) ELSE Refuse
Complete(c, dict) == Partial(c) \/ \A n \in CpNames(c) : DHas(dict, n)
(* a set that lacks a parameter is refused; what is made of several functions may have passed it to those it suits *)
CpSets(h, dict) ==
    IF Complete(cps[h], dict) THEN SetCps(h, WithDict(cps[h], dict))
    ELSE /\ ret' = Refused /\ UNCHANGED <<pms, mgrs, cons>>
         /\ \/ UNCHANGED cps
            \/ cps[h].kind = "vary" /\ cps' = [cps EXCEPT ![h] = WithDict(@, dict)]
CpRename(h, o, n) ==
    LET c == cps[h] IN
    IF o \notin CpNames(c) THEN Refuse
    ELSE IF o = n /\ ~Shares(c) THEN Refuse \/ SetCps(h, c)       \* either way nothing changes
    ELSE IF n \in CpNames(c) /\ ~Shares(c) THEN Refuse
    ELSE SetCps(h, [c EXCEPT !.cells = [k \in 1..Len(@) |-> IF @[k].n = o THEN [@[k] EXCEPT !.n = n] ELSE @[k]]])
(* another function for a systematic brings parameters of its own, and takes the old ones away *)
CpFunc(h, names) == cps[h].kind \in {"shape", "scalefn"} /\ SetCps(h, [cps[h] EXCEPT !.cells = FreshCells(cps[h].kind, cps[h].name, names)])
CpTitle(h, n) == SetCps(h, [cps[h] EXCEPT !.name = n])
(* by the object's own setter, which refuses values that mean nothing *)
BadDirect(c, k, x) == CASE c.kind = "evscale" -> RLe(x, "0")
                        [] c.kind = "evreconv" -> RLt(x, "0")
                        [] OTHER -> FALSE
Direct(h, k, x) == IF BadDirect(cps[h], k, x) THEN Refuse ELSE SetCps(h, [cps[h] EXCEPT !.cells[k].v = x])
CpCopy(h, to) == SetCps(to, [cps[h] EXCEPT !.name = IF cps[h].kind = "gauss" THEN @ \o "_copy" ELSE @])
(* what the parameters do: the density at x given x2 *)
GaussAt(cells, x) == LET n == Len(x) IN
    FoldLeft(LAMBDA a, k : RMul(a, RGauss(x[k], cells[k].v, cells[n + k].v)), "1", [k \in 1..n |-> k])
Below(x, m, s, cut) == IF RLt(RMul(cut, s), RSub(x, m)) THEN "1" ELSE IF RLt(RMul(cut, s), RSub(m, x)) THEN "0" ELSE RGaussCdf(x, m, s)
GaussIn(cells, cut, lo, hi) == LET n == Len(lo) IN
    FoldLeft(LAMBDA a, k : RMul(a, RSub(Below(hi[k], cells[k].v, cells[n + k].v, cut), Below(lo[k], cells[k].v, cells[n + k].v, cut))),
             "1", [k \in 1..n |-> k])
Sub(x, y) == [k \in 1..Len(x) |-> RSub(x[k], y[k])]
VaryCells(c, x2) == [k \in 1..Len(c.ker) |->
    IF \E j \in 1..Len(c.par) : c.par[j] = c.ker[k].n
    THEN [c.ker[k] EXCEPT !.v = RMul(c.cells[CHOOSE j \in 1..Len(c.par) : c.par[j] = c.ker[k].n].v, RSqrt(RAbs(x2[1])))] ELSE c.ker[k]]
CellsAt(c, x2) == IF c.kind = "vary" THEN VaryCells(c, x2) ELSE c.cells
DimsOf(c) == Len(IF c.kind = "vary" THEN c.ker ELSE c.cells) \div 2
Positive(cells, n) == \A k \in 1..n : RLt("0", cells[n + k].v)
Dens(h, x, x2) == LET c == cps[h]  cs == CellsAt(c, x2)
                      y == IF c.kind \in {"jump", "vary"} THEN Sub(x, x2) ELSE x IN
    IF Len(x) # DimsOf(c) THEN Refuse ELSE Positive(cs, Len(x)) /\ Query(GaussAt(cs, y))
Inside(h, lo, hi, x2) == LET c == cps[h]  cs == CellsAt(c, x2)
                             m == IF c.kind \in {"jump", "vary"} THEN x2 ELSE [k \in 1..Len(lo) |-> "0"] IN
    IF Len(lo) # DimsOf(c) THEN Refuse ELSE Positive(cs, Len(lo)) /\ Query(GaussIn(cs, c.cut, Sub(lo, m), Sub(hi, m)))
(* a Gaussian's own ways in: all its means, all its widths, and how far out it ends *)
Half(h) == Len(cps[h].cells) \div 2
Into(h, m, s) == [cps[h] EXCEPT !.cells = [k \in 1..Len(@) |-> [@[k] EXCEPT !.v = IF k <= Half(h) THEN m[k] ELSE s[k - Half(h)]]]]
Means(h) == [k \in 1..Half(h) |-> cps[h].cells[k].v]
Widths(h) == [k \in 1..Half(h) |-> cps[h].cells[Half(h) + k].v]
GaMeans(h, m) == Len(m) = Half(h) /\ SetCps(h, Into(h, m, Widths(h)))
GaWidths(h, s) == Len(s) = Half(h) /\ SetCps(h, Into(h, Means(h), s))
GaCut(h, x) == SetCps(h, [cps[h] EXCEPT !.cut = x])
GaAt(h, k) == IF k > Half(h) THEN Refuse ELSE Query([m |-> Means(h)[k], s |-> Widths(h)[k]])
(* u: what the generator of standard numbers gave *)
GaSample(h, u) == Len(u) = Half(h) /\ Query([k \in 1..Half(h) |-> RAdd(Means(h)[k], RMul(Widths(h)[k], u[k]))])
(* a conditional one is its Gaussian moved to where it is asked for *)
CoSample(h, x2, u) == LET c == cps[h]  cs == CellsAt(c, x2)  n == DimsOf(c) IN
    Positive(cs, n) /\ Len(u) = n /\ Query([k \in 1..n |-> RAdd(x2[k], RAdd(cs[k].v, RMul(cs[n + k].v, u[k])))])
(* over another Gaussian, of however many dimensions *)
GaOver(h, to) == CpCopy(h, to)
SqrtAt(h, x) == Query(RMul(cps[h].cells[1].v, RSqrt(RAbs(x))))

(***************************************************************************)
(* Groups of components                                                     *)
(***************************************************************************)
SetMg(g, v) == mgrs' = Put(mgrs, g, v) /\ ret' = Done /\ UNCHANGED <<pms, cps, cons>>
NewMg(g) == SetMg(g, <<>>)
MgAdd(g, h) == SetMg(g, Append(mgrs[g], h))
MgClear(g) == SetMg(g, <<>>)
Members(g) == {mgrs[g][k] : k \in 1..Len(mgrs[g])}
NamesIn(c, q) == UNION {CpNames(c[q[k]]) : k \in 1..Len(q)}
OwnerIn(c, q, n) == q[CHOOSE k \in 1..Len(q) : n \in CpNames(c[q[k]]) /\ \A j \in 1..(k-1) : n \notin CpNames(c[q[j]])]
MgNames(g) == NamesIn(cps, mgrs[g])
MgOwner(g, n) == OwnerIn(cps, mgrs[g], n)
(* every component takes its own from the set; one that misses some is refused and keeps what it has *)
MgSets(g, dict) ==
    LET good == {h \in Members(g) : Complete(cps[h], dict)}
        With(S) == [h \in DOMAIN cps |-> IF h \in S THEN WithDict(cps[h], dict) ELSE cps[h]] IN
    /\ UNCHANGED <<pms, mgrs, cons>>
    /\ IF dict = <<>> THEN ret' = Done /\ UNCHANGED cps
       ELSE IF good = Members(g) THEN ret' = Done /\ cps' = With(good)
       ELSE ret' = Refused /\ \E S \in SUBSET good : cps' = With(S)
MgGet(g, n) == IF n \in MgNames(g) THEN \E v \in CpVals(cps[MgOwner(g, n)], n) : Query(v) ELSE Refuse

(***************************************************************************)
(* Constraints                                                              *)
(***************************************************************************)
SetCon(c, v) == cons' = Put(cons, c, v) /\ ret' = Done /\ UNCHANGED <<pms, cps, mgrs>>
NewCon(c) == SetCon(c, NoCons)
CopyCon(c, to) == SetCon(to, cons[c])
Paired(c) == PairedIn(cons[c])
Single(c) == SingleIn(cons[c])
(* a parameter has one constraint of its own, or one shared with one other parameter *)
ConInd(c, n, m, hi, lo) == IF n \in Paired(c) THEN Refuse
    ELSE SetCon(c, [cons[c] EXCEPT !.ind = Put(@, n, [m |-> m, hi |-> hi, lo |-> lo])])
ConPair(c, a, m1, s1, b, m2, s2, corr) ==
    IF RLe("1", RAbs(corr)) THEN Refuse
    ELSE IF <<a, b>> \notin DOMAIN cons[c].pair /\ {a, b} \cap (Paired(c) \cup Single(c)) # {} THEN Refuse
    ELSE SetCon(c, [cons[c] EXCEPT !.pair = Put(@, <<a, b>>, [m1 |-> m1, s1 |-> s1, m2 |-> m2, s2 |-> s2, corr |-> corr])])
ConRatio(c, a, b, m, s) == SetCon(c, [cons[c] EXCEPT !.ratio = Put(@, <<a, b>>, [m |-> m, s |-> s])])
ConFrac(c, a, b, m, s) == SetCon(c, [cons[c] EXCEPT !.frac = Put(@, <<a, b>>, [m |-> m, s |-> s])])
ConInterp(c, label, h) == SetCon(c, [cons[c] EXCEPT !.interp = Put(@, label, h)])
(* a function of the parameters, here a linear one; the key is the set it was given with *)
KeyOf(dict) == {<<dict[k][1], R(dict[k][2])>> : k \in 1..Len(dict)}
ConShape(c, dict, co, m, s) == SetCon(c, [cons[c] EXCEPT !.shape = Put(@, KeyOf(dict), [co |-> co, m |-> m, s |-> s])])

ConEval(c, dict) == LET t == cons[c] IN
    IF ~Has(NeedsOf(t), dict) THEN Refuse
    ELSE IF LatticeOk(t, dict) THEN Query(ConVal(t, dict))
    ELSE Refuse \/ (LatticeEdge(t, dict) /\ Query(ConVal(t, dict)))

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
(* no parameter is constrained both on its own and with another, nor with two others *)
OneConstraintEach == \A c \in DOMAIN cons :
    /\ Single(c) \cap Paired(c) = {}
    /\ \A p, q \in DOMAIN cons[c].pair : p # q => {p[1], p[2]} \cap {q[1], q[2]} = {}
NamesUnique == \A h \in DOMAIN cps : ~Shares(cps[h]) => \A j, k \in 1..Len(cps[h].cells) : cps[h].cells[j].n = cps[h].cells[k].n => j = k
RefusedIsNoop == [][ret' = Refused => UNCHANGED <<pms, mgrs, cons>>]_vars
=============================================================================
