------------------------------- MODULE ParamMC -------------------------------
(* Exhaustive instances of ParamSys to a bounded depth; prints tests. *)
EXTENDS ParamSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<vars, log>>
Exact(c) == {c}
Log(o) == log' = Append(log, o)
On(o) == o \in Ops
Fresh(h, f) == h \notin DOMAIN f
MCInit == Init /\ log = <<>>

(* parameters over somebody's storage *)
Dicts == { << <<"a","5">>, <<"b","6">> >>, << <<"c","8">>, <<"b","7">>, <<"a","9">> >>, << <<"a","3">> >>,
           << <<"c","1">>, <<"k_0","2">>, <<"k_1","4">> >>, <<>> }
LivePm(p) == \A n \in PmNames(p) : PmLive(p, n)
DoPm == On("Pm") /\
    \/ Fresh("p", pms) /\ NewPm("p", <<"1","2">>, <<"10","20">>) /\ Log([op |-> "NewPm", p |-> "p", d |-> <<"1","2">>, c |-> <<"10","20">>])
    \/ \E p \in DOMAIN pms :
        \/ \E i \in {1, 2}, n \in {"a","b"} : PmAddD(p, i, n) /\ Log([op |-> "PmAddD", p |-> p, i |-> i, name |-> n])
        \/ \E n \in {<<"c","a">>, <<"c">>} : PmAddC(p, n) /\ Log([op |-> "PmAddC", p |-> p, names |-> n])
        \/ PmAddBase(p, "k") /\ Log([op |-> "PmAddBase", p |-> p, base |-> "k"])
        \/ \E n \in {"a","c","k_1"} : \/ PmSet(p, n, "7") /\ Log([op |-> "PmSet", p |-> p, name |-> n, x |-> "7"])
                                      \/ PmGet(p, n) /\ Log([op |-> "PmGet", p |-> p, name |-> n])
        \/ LivePm(p) /\ \E d \in Dicts : PmSets(p, d) /\ Log([op |-> "PmSets", p |-> p, dict |-> d])
        \/ \E o \in {"a","c"}, n \in {"b","c"} : PmRename(p, o, n) /\ Log([op |-> "PmRename", p |-> p, from |-> o, to |-> n])
        \/ PmClear(p) /\ Log([op |-> "PmClear", p |-> p])
        \/ Poke(p, "d", 1, "0") /\ Log([op |-> "Poke", p |-> p, src |-> "d", i |-> 1, x |-> "0"])
        \/ \E n \in {1, 3} : Resize(p, n) /\ Log([op |-> "Resize", p |-> p, n |-> n])

(* every kind of component, alone: the same story for each *)
Kinds == {"shift","scale","evshift","evscale","evreconv","sqrt","renorm"}
FirstN(c) == c.cells[1].n
LastN(c) == c.cells[Len(c.cells)].n
CanDirect(c) == c.kind \in {"shift","scale","evshift","evscale","evreconv","sqrt","spectral","gauss"} /\ Len(c.cells) > 0
CpOps(h) == LET c == cps[h]  ns == CpNames(c) \cup {"w"} IN
    \/ \E n \in ns : \/ CpSet(h, n, "3") /\ Log([op |-> "CpSet", h |-> h, name |-> n, x |-> "3"])
                     \/ CpGet(h, n) /\ Log([op |-> "CpGet", h |-> h, name |-> n])
    \/ \E n \in ns : CpRename(h, n, "q") /\ Log([op |-> "CpRename", h |-> h, from |-> n, to |-> "q"])
    \/ Len(c.cells) > 1 /\ CpRename(h, FirstN(c), LastN(c)) /\ Log([op |-> "CpRename", h |-> h, from |-> FirstN(c), to |-> LastN(c)])
    \/ Len(c.cells) > 0 /\ CpSets(h, <<<<FirstN(c), "4">>>>) /\ Log([op |-> "CpSets", h |-> h, dict |-> <<<<FirstN(c), "4">>>>])
    \/ LET d == <<<<"w", "9">>>> \o [k \in 1..Len(c.cells) |-> <<c.cells[k].n, ToString(5 + k)>>] IN
         NamesUnique /\ (\A j, k \in 1..Len(c.cells) : c.cells[j].n = c.cells[k].n => j = k)
         /\ CpSets(h, d) /\ Log([op |-> "CpSets", h |-> h, dict |-> d])
    \/ CpSets(h, <<<<"w", "9">>>>) /\ Log([op |-> "CpSets", h |-> h, dict |-> <<<<"w", "9">>>>])
    \/ CanDirect(c) /\ Direct(h, Len(c.cells), "2") /\ Log([op |-> "Direct", h |-> h, k |-> Len(c.cells), x |-> "2"])
    \/ c.kind \notin {"conv","renorm"} /\ h = "s" /\ Fresh("t", cps) /\ CpCopy(h, "t") /\ Log([op |-> "CpCopy", h |-> h, to |-> "t"])
    \/ c.kind = "gauss" /\ Dens(h, [k \in 1..DimsOf(c) |-> "1"], <<>>) /\ Log([op |-> "Dens", h |-> h, x |-> [k \in 1..DimsOf(c) |-> "1"], x2 |-> <<>>])
    \/ c.kind = "gauss" /\
        \/ LET m == [k \in 1..DimsOf(c) |-> ToString(k)] IN
             \/ GaMeans(h, m) /\ Log([op |-> "GaMeans", h |-> h, to |-> m])
             \/ GaWidths(h, m) /\ Log([op |-> "GaWidths", h |-> h, to |-> m])
        \/ GaCut(h, "5/8") /\ Log([op |-> "GaCut", h |-> h, x |-> "5/8"])
        \/ \E k \in {1, DimsOf(c) + 1} : GaAt(h, k) /\ Log([op |-> "GaAt", h |-> h, k |-> k])
    \/ c.kind = "sqrt" /\ SqrtAt(h, "4") /\ Log([op |-> "SqrtAt", h |-> h, x |-> "4"])
    \/ c.kind \in {"shape","scalefn"} /\ \E j \in {<<"v","x">>, <<"x">>} : CpFunc(h, j) /\ Log([op |-> "CpFunc", h |-> h, j |-> j])
    \/ UNCHANGED vars /\ Log([op |-> "CpState", h |-> h])
DoCp == On("Cp") /\
    \/ \E k \in Kinds : Fresh("s", cps) /\ NewCp("s", k, "S", <<>>) /\ Log([op |-> "NewCp", h |-> "s", kind |-> k, name |-> "S"])
    \/ \E k \in {"shape","scalefn"} : LET j == <<"u","v">> IN
         Fresh("s", cps) /\ NewCp("s", k, "S", j) /\ Log([op |-> "NewCp", h |-> "s", kind |-> k, name |-> "S", j |-> j])
    \/ Fresh("s", cps) /\ NewCp("s", "spectral", "S", 2) /\ Log([op |-> "NewCp", h |-> "s", kind |-> "spectral", name |-> "S", j |-> 2])
    \/ LET j == [m |-> <<"1","2">>, s |-> <<"1/2","3">>] IN
         Fresh("s", cps) /\ NewCp("s", "gauss", "S", j) /\ Log([op |-> "NewCp", h |-> "s", kind |-> "gauss", name |-> "S", j |-> j])
    \/ \E h \in DOMAIN cps : CpOps(h)
(* what is built on a function, and functions inside a kernel *)
GJ == [m |-> <<"1">>, s |-> <<"2">>]
DoWr == On("Wr") /\
    \/ /\ cps = << >> /\ ret' = Done /\ UNCHANGED <<pms, mgrs, cons>>
       /\ cps' = [g |-> [kind |-> "gauss", name |-> "G", cells |-> FreshCells("gauss", "G", GJ), par |-> <<>>, ker |-> <<>>, cut |-> FarOut],
                  q |-> [kind |-> "sqrt", name |-> "Q", cells |-> FreshCells("sqrt", "Q", <<>>), par |-> <<>>, ker |-> <<>>, cut |-> FarOut]]
       /\ log' = << [op |-> "NewCp", h |-> "g", kind |-> "gauss", name |-> "G", j |-> GJ], [op |-> "NewCp", h |-> "q", kind |-> "sqrt", name |-> "Q"] >>
    \/ cps # << >> /\
        \/ \E k \in {"jump","analytic","conv","evconv"} : Fresh("s", cps) /\ Wrap("s", k, "S", "g") /\ Log([op |-> "Wrap", h |-> "s", kind |-> k, name |-> "S", g |-> "g"])
        \/ \E p \in {"means_0","stddevs_0"} : LET d == <<<<p, "q">>>> IN
             cps["g"].cells[1].n = "means_0" /\ cps["g"].cells[2].n = "stddevs_0"
             /\ Fresh("s", cps) /\ NewVary("s", "S", "g", d) /\ Log([op |-> "NewVary", h |-> "s", name |-> "S", g |-> "g", deps |-> d])
        \/ \E h \in {"s","t"} \cap DOMAIN cps : CpOps(h)
        \/ \E h \in {"s","t"} \cap DOMAIN cps : cps[h].kind \in {"jump","vary","analytic"}
             /\ Dens(h, <<"2">>, <<"4">>) /\ Log([op |-> "Dens", h |-> h, x |-> <<"2">>, x2 |-> <<"4">>])
        \/ \E h \in {"s","t"} \cap DOMAIN cps : cps[h].kind \in {"jump","vary"}
             /\ Inside(h, <<"0">>, <<"3">>, <<"4">>) /\ Log([op |-> "Inside", h |-> h, lo |-> <<"0">>, hi |-> <<"3">>, x2 |-> <<"4">>])
        \/ \E h \in {"s","t"} \cap DOMAIN cps : cps[h].kind \in {"jump","vary"}
             /\ CoSample(h, <<"4">>, <<"1/2">>) /\ Log([op |-> "CoSample", h |-> h, x2 |-> <<"4">>])
        \/ \E h \in {"s"} \cap DOMAIN cps : cps[h].kind = "vary" /\
             \/ \E p \in {"means_0","stddevs_0"} : VaDep(h, p, "q") /\ Log([op |-> "VaDep", h |-> h, name |-> p, g |-> "q"])
             \/ VaKer(h, "g") /\ Log([op |-> "VaKer", h |-> h, g |-> "g"])
        \/ Direct("g", 2, "4") /\ Log([op |-> "Direct", h |-> "g", k |-> 2, x |-> "4"])      \* the original, after it was used
        \/ Direct("q", 1, "3") /\ Log([op |-> "Direct", h |-> "q", k |-> 1, x |-> "3"])

(* groups, with two members answering to one name *)
DoMg == On("Mg") /\
    \/ /\ cps = << >> /\ ret' = Done /\ UNCHANGED <<pms, cons>> /\ mgrs' = [m |-> <<>>]
       /\ cps' = [a |-> [kind |-> "shift", name |-> "A", cells |-> <<Cell("shift","1")>>, par |-> <<>>, ker |-> <<>>, cut |-> FarOut],
                  b |-> [kind |-> "scale", name |-> "B", cells |-> <<Cell("scaleFactor","1")>>, par |-> <<>>, ker |-> <<>>, cut |-> FarOut],
                  f |-> [kind |-> "shape", name |-> "F", cells |-> <<Cell("u","0"), Cell("shift","0")>>, par |-> <<>>, ker |-> <<>>, cut |-> FarOut]]
       /\ log' = << [op |-> "NewCp", h |-> "a", kind |-> "shift", name |-> "A"], [op |-> "NewCp", h |-> "b", kind |-> "scale", name |-> "B"],
                    [op |-> "NewCp", h |-> "f", kind |-> "shape", name |-> "F", j |-> <<"u","shift">>], [op |-> "NewMg", m |-> "m"] >>
    \/ mgrs # << >> /\
        \/ \E h \in DOMAIN cps : h \notin Members("m") /\ MgAdd("m", h) /\ Log([op |-> "MgAdd", m |-> "m", h |-> h])
        \/ MgClear("m") /\ Log([op |-> "MgClear", m |-> "m"])
        \/ \E d \in { << <<"shift","5">>, <<"scaleFactor","6">>, <<"u","7">>, <<"w","8">> >>, << <<"shift","3">>, <<"u","2">> >>,
                      << <<"scaleFactor","4">> >>, <<>> } : MgSets("m", d) /\ Log([op |-> "MgSets", m |-> "m", dict |-> d])
        \/ \E n \in {"shift","u","w"} : MgGet("m", n) /\ Log([op |-> "MgGet", m |-> "m", name |-> n])
        \/ CpSet("a", "shift", "9") /\ Log([op |-> "CpSet", h |-> "a", name |-> "shift", x |-> "9"])
        \/ CpFunc("f", <<"w","u">>) /\ Log([op |-> "CpFunc", h |-> "f", j |-> <<"w","u">>])
        \/ CpRename("a", "shift", "z") /\ Log([op |-> "CpRename", h |-> "a", from |-> "shift", to |-> "z"])

(* constraints of every kind on three parameters *)
IAx == <<[name |-> "a", lo |-> <<"0","2","4">>, hi |-> <<"2","4","8">>], [name |-> "b", lo |-> <<"-1","0">>, hi |-> <<"0","3">>]>>
IV == <<"1","5","2","7","4","0">>
AxI == [d \in 1..2 |-> Axis(IAx[d].name, "", IAx[d].lo, IAx[d].hi)]
Points == { << <<"a","2">>, <<"b","1/4">>, <<"c","3">> >>, << <<"a","3">>, <<"b","-1/2">>, <<"c","1/2">>, <<"w","7">> >>,
            << <<"a","1">>, <<"b","3/2">>, <<"c","-2">> >>, << <<"a","9">>, <<"b","0">>, <<"c","1">> >>, << <<"a","1">>, <<"b","1">> >> }
SD == << <<"a","0">>, <<"c","1">> >>
SCo == << <<"a","2">>, <<"c","-1">> >>
DoCon == On("Con") /\
    \/ Fresh("k", cons) /\ NewCon("k") /\ Log([op |-> "NewCon", c |-> "k"])
    \/ \E c \in DOMAIN cons :
        \/ \E n \in {"a","b"} : \/ ConInd(c, n, "2", "1/2", "1/4") /\ Log([op |-> "ConInd", c |-> c, name |-> n, m |-> "2", hi |-> "1/2", lo |-> "1/4"])
                                \/ ConInd(c, n, "1", "3", "3") /\ Log([op |-> "ConInd", c |-> c, name |-> n, m |-> "1", hi |-> "3"])
        \/ \E p \in { <<"a","b">>, <<"b","a">>, <<"b","c">> }, r \in {"1/2", "-1"} :
             ConPair(c, p[1], "1", "2", p[2], "0", "1/2", r) /\ Log([op |-> "ConPair", c |-> c, a |-> p[1], m1 |-> "1", s1 |-> "2", b |-> p[2], m2 |-> "0", s2 |-> "1/2", corr |-> r])
        \/ \E p \in { <<"a","b">>, <<"b","c">> } :
             \/ ConRatio(c, p[1], p[2], "2", "1/2") /\ Log([op |-> "ConRatio", c |-> c, a |-> p[1], b |-> p[2], m |-> "2", s |-> "1/2"])
             \/ ConFrac(c, p[1], p[2], "1/2", "1/4") /\ Log([op |-> "ConFrac", c |-> c, a |-> p[1], b |-> p[2], m |-> "1/2", s |-> "1/4"])
        \/ ConInterp(c, "L", Hist(AxI, IV)) /\ Log([op |-> "ConInterp", c |-> c, label |-> "L", axes |-> IAx, vals |-> IV])
        \/ \E s \in {"1","2"} : ConShape(c, SD, SCo, "3", s) /\ Log([op |-> "ConShape", c |-> c, dict |-> SD, co |-> SCo, m |-> "3", s |-> s])
        \/ Fresh("j", cons) /\ CopyCon(c, "j") /\ Log([op |-> "CopyCon", c |-> c, to |-> "j"])
        \/ \E d \in Points : ConEval(c, d) /\ Log([op |-> "ConEval", c |-> c, dict |-> d])

MCNext == DoPm \/ DoCp \/ DoWr \/ DoMg \/ DoCon
MCSpec == MCInit /\ [][MCNext]_mcvars
View == state
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
LastOp == Last(log')
(* a set of parameters reaches every one of them, or none *)
AllOrNothing == [][(log' # log /\ LastOp.op = "PmSets") =>
    \/ ret'.ok /\ \A n \in PmNames(LastOp.p) : \E j \in PmNames(LastOp.p) :
                    pms[LastOp.p].m[j] = pms[LastOp.p].m[n] /\ DGet(LastOp.dict, j) = pms'[LastOp.p][pms[LastOp.p].m[n].src][pms[LastOp.p].m[n].i]
    \/ ~ret'.ok /\ UNCHANGED state]_mcvars
(* renaming keeps every value *)
RenameKeeps == [][(log' # log /\ LastOp.op = "PmRename" /\ ret'.ok) =>
    /\ pms'[LastOp.p].d = pms[LastOp.p].d /\ pms'[LastOp.p].c = pms[LastOp.p].c
    /\ pms'[LastOp.p].m[LastOp.to] = pms[LastOp.p].m[LastOp.from]]_mcvars
CpRenameKeeps == [][(log' # log /\ LastOp.op = "CpRename" /\ ret'.ok) =>
    [k \in 1..Len(cps[LastOp.h].cells) |-> cps[LastOp.h].cells[k].v] = [k \in 1..Len(cps'[LastOp.h].cells) |-> cps'[LastOp.h].cells[k].v]]_mcvars
(* what is set by name is got by name, and nobody else changes *)
RoundTrip == [][(log' # log /\ LastOp.op = "CpSet" /\ ret'.ok) =>
    /\ CpVals(cps'[LastOp.h], LastOp.name) = {LastOp.x}
    /\ \A h \in DOMAIN cps : h # LastOp.h => cps'[h] = cps[h]
    /\ \A n \in CpNames(cps[LastOp.h]) : n # LastOp.name => CpVals(cps'[LastOp.h], n) = CpVals(cps[LastOp.h], n)]_mcvars
(* a constraint of equal widths is a plain one; at the means it costs nothing; interpolation is exact at the centres *)
EqualWidths == \A c \in DOMAIN cons : \A n \in Single(c) : LET t == cons[c].ind[n] IN
    /\ RSame(IndVal(t, t.m), "0")
    /\ RSame(IndVal([t EXCEPT !.lo = t.hi], "5"), Pull("5", t.m, t.hi))
    /\ RSame(IndVal(t, RAdd(t.m, t.hi)), "1/2") /\ RSame(IndVal(t, RSub(t.m, t.lo)), "1/2")
PairPositive == \A c \in DOMAIN cons : \A p \in DOMAIN cons[c].pair : LET t == cons[c].pair[p] IN
    /\ RSame(PairVal(t, t.m1, t.m2), "0")
    /\ \A x, y \in {"-1","0","3"} : RLe("0", PairVal(t, x, y))
    /\ RSame(PairVal([t EXCEPT !.corr = "0"], "3", "4"), RAdd(Pull("3", t.m1, t.s1), Pull("4", t.m2, t.s2)))
Lattice == \A c \in DOMAIN cons : \A l \in DOMAIN cons[c].interp : LET h == cons[c].interp[l] IN
    \A i \in 0..1 : RSame(Interp(h, <<Centre(h.axes[1], i), Centre(h.axes[2], 0)>>), h.c[Flat(h.axes, <<i, 0>>) + 1])
MCRefusedIsNoop == [][ret' = Refused => UNCHANGED <<pms, mgrs, cons>>]_mcvars
=============================================================================
