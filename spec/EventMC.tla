------------------------------- MODULE EventMC -------------------------------
(* Exhaustive instances of EventSys to a bounded depth; prints tests.  Two    *)
(* observables, a few rows, cuts and systematics that differ in every way the *)
(* order or the choice of observable can show.                                *)
EXTENDS EventSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<vars, log>>
Exact(c) == {c}
Log(o) == log' = Append(log, o)
On(o) == o \in Ops

Rows0 == << <<"1","2">>, <<"3/2","-1">>, <<"5","2">> >>
SetUp == << [op |-> "NewDs", d |-> "a"], [op |-> "SetNames", d |-> "a", names |-> <<"x","y">>] >>
         \o [k \in 1..Len(Rows0) |-> [op |-> "AddEntry", d |-> "a", row |-> Rows0[k]]]
AxX == [name |-> "x", lo |-> <<"0","2","4">>, hi |-> <<"2","4","8">>]
AxY == [name |-> "y", lo |-> <<"-2","0">>, hi |-> <<"0","3">>]
Ax(j) == [k \in 1..Len(j) |-> Axis(j[k].name, "", j[k].lo, j[k].hi)]

MCInit == /\ cuts = << >> /\ logs = << >> /\ sys = << >> /\ mans = << >> /\ eds = << >> /\ exps = << >> /\ ret = Done
          /\ IF On("Ds") THEN ds = << >> /\ log = <<>>
             ELSE ds = [a |-> [names |-> <<"x","y">>, n |-> 2, rows |-> Rows0]] /\ log = SetUp
Fresh(h, f) == h \notin DOMAIN f

NameLists == {<<"x","y">>, <<"y","x">>, <<"x">>}
RowLists == {<<"1","2">>, <<"3","4">>, <<"7">>, <<>>}
DoDs == On("Ds") /\
    \/ \E d \in {"a","b"} : Fresh(d, ds) /\ (d = "b" => "a" \in DOMAIN ds) /\ NewDs(d) /\ Log([op |-> "NewDs", d |-> d])
    \/ \E d \in DOMAIN ds :
        \/ \E n \in NameLists : SetNames(d, n) /\ Log([op |-> "SetNames", d |-> d, names |-> n])
        \/ \E r \in RowLists : AddEntry(d, r) /\ Log([op |-> "AddEntry", d |-> d, row |-> r])
        \/ \E t \in {"b","c"} : CopyDs(d, t) /\ Log([op |-> "CopyDs", d |-> d, to |-> t])
        \/ \E e \in DOMAIN ds : Concat(d, e, "c") /\ Log([op |-> "Concat", d |-> d, e |-> e, to |-> "c"])
        \/ \E i \in {0, 1} : \/ GetEntry(d, i) /\ Log([op |-> "GetEntry", d |-> d, i |-> i])
                             \/ \E n \in {"x","y","w"} : Datum(d, i, n) /\ Log([op |-> "Datum", d |-> d, i |-> i, name |-> n])
                             \/ \E n \in {<<"y","x">>, <<"x","w">>} : ToObs(d, i, n) /\ Log([op |-> "ToObs", d |-> d, i |-> i, names |-> n])
        \/ \E m \in { <<[name |-> "y", x |-> "9"]>>, <<[at |-> 1, x |-> "9"], [name |-> "x", x |-> "8"]>>, <<[at |-> 2, x |-> "9"]>> } :
             EvMut(d, 0, m) /\ Log([op |-> "EvMut", d |-> d, i |-> 0, sets |-> m])
        \/ UNCHANGED vars /\ Log([op |-> "DsState", d |-> d])

CutSet == { [kind |-> "line", name |-> "lx", obs |-> "x", a |-> "1", side |-> "lower"],
            [kind |-> "line", name |-> "uy", obs |-> "y", a |-> "2", side |-> "upper"],
            [kind |-> "box", name |-> "bx", obs |-> "x", a |-> "1", b |-> "5"],
            [kind |-> "bool", name |-> "qy", obs |-> "y", a |-> "2"],
            [kind |-> "line", name |-> "bad", obs |-> "x", a |-> "1", side |-> "middle"],
            [kind |-> "bool", name |-> "no", obs |-> "w", a |-> "0"] }
DoCut == On("Cut") /\
    \/ DOMAIN cuts = {} /\ NewCuts("c") /\ Log([op |-> "NewCuts", c |-> "c"])
    \/ \E c \in DOMAIN cuts :
        \/ \E k \in CutSet : AddCut(c, k) /\ Log([op |-> "AddCut", c |-> c, cut |-> k])
        \/ Fresh("k", cuts) /\ CopyCuts(c, "k") /\ Log([op |-> "CopyCuts", c |-> c, to |-> "k"])
        \/ QCutNames(c) /\ Log([op |-> "CutNames", c |-> c])
        \/ Fresh("g", logs) /\ NewLog("g", CutNames(cuts[c])) /\ Log([op |-> "NewLogOf", g |-> "g", c |-> c])
        \/ \E i \in 0..3 : \/ Pass(c, "a", i) /\ Log([op |-> "Pass", c |-> c, d |-> "a", i |-> i])
                           \/ \E g \in DOMAIN logs : PassLog(c, g, "a", i) /\ Log([op |-> "PassLog", c |-> c, g |-> g, d |-> "a", i |-> i])
    \/ \E g \in DOMAIN logs : \/ LogCut(g, 0) /\ Log([op |-> "LogCut", g |-> g, k |-> 0])
                              \/ LogPass(g) /\ Log([op |-> "LogPass", g |-> g])
                              \/ QLog(g) /\ Log([op |-> "QLog", g |-> g])
                              \/ LogLost(g) /\ Log([op |-> "QLog", g |-> g, nofile |-> TRUE])

(* numbers for convolutions to draw *)
Draws == <<"2","-3/2","5","1/4","7","-1","3/2","11">>
DoSys == On("Sys") /\
    \/ \E k \in {"shift","scale","reconv","conv"} : Fresh(k, sys) /\ NewSys(k, k) /\ Log([op |-> "NewSys", s |-> k, kind |-> k])
    \/ \E s \in DOMAIN sys :
        \/ \E n \in {<<"x">>, <<"y">>} : \/ SysOut(s, n) /\ Log([op |-> "SysOut", s |-> s, names |-> n])
                                         \/ SysIn(s, n) /\ Log([op |-> "SysIn", s |-> s, names |-> n])
        \/ \E v \in {"2","-1"} : SysVal(s, v) /\ Log([op |-> "SysVal", s |-> s, x |-> v])
        \/ \E n \in {sys[s].pname, "q"} : SysPar(s, n, "3") /\ Log([op |-> "SysPar", s |-> s, name |-> n, x |-> "3"])
        \/ SysRename(s, sys[s].pname, "q") /\ Log([op |-> "SysRename", s |-> s, from |-> sys[s].pname, to |-> "q"])
        \/ sys[s].kind = "conv" /\ \E w \in {"pdf","cond","wide","none"} : SysKern(s, w) /\ Log([op |-> "SysKern", s |-> s, how |-> w])
        \/ \E i \in {0, 2, 3} : Apply(s, "a", i, Draws) /\ Log([op |-> "Apply", s |-> s, d |-> "a", i |-> i, u |-> Draws])
(* managers: systematics that do not commute, in every order *)
SysSetUp == [sh |-> [kind |-> "shift", in |-> <<>>, out |-> <<"x">>, val |-> "1", pname |-> "shift"],
             sc |-> [kind |-> "scale", in |-> <<>>, out |-> <<"x">>, val |-> "2", pname |-> "scale"],
             rc |-> [kind |-> "reconv", in |-> <<"x">>, out |-> <<"y">>, val |-> "1/2", pname |-> "correction"],
             cv |-> [kind |-> "conv", in |-> <<>>, out |-> <<"x">>, val |-> "1", pname |-> "width"]]
DoMan == On("Man") /\
    \/ /\ sys = << >> /\ sys' = SysSetUp /\ mans' = [m |-> <<>>] /\ ret' = Done /\ UNCHANGED <<ds, cuts, logs, eds, exps>>
       /\ log' = log \o << [op |-> "NewSys", s |-> "sh", kind |-> "shift"], [op |-> "SysOut", s |-> "sh", names |-> <<"x">>],
                           [op |-> "SysVal", s |-> "sh", x |-> "1"],
                           [op |-> "NewSys", s |-> "sc", kind |-> "scale"], [op |-> "SysOut", s |-> "sc", names |-> <<"x">>],
                           [op |-> "SysVal", s |-> "sc", x |-> "2"],
                           [op |-> "NewSys", s |-> "rc", kind |-> "reconv"], [op |-> "SysIn", s |-> "rc", names |-> <<"x">>],
                           [op |-> "SysOut", s |-> "rc", names |-> <<"y">>], [op |-> "SysVal", s |-> "rc", x |-> "1/2"],
                           [op |-> "NewSys", s |-> "cv", kind |-> "conv"], [op |-> "SysOut", s |-> "cv", names |-> <<"x">>],
                           [op |-> "SysKern", s |-> "cv", how |-> "pdf"],
                           [op |-> "NewMan", m |-> "m"] >>
    \/ \E m \in DOMAIN mans : \/ \E s \in DOMAIN sys : ManAdd(m, s) /\ Log([op |-> "ManAdd", m |-> m, s |-> s])
                              \/ ManClear(m) /\ Log([op |-> "ManClear", m |-> m])
                              \/ \E i \in {0, 1} : ApplyMan(m, "a", i, Draws) /\ Log([op |-> "ApplyMan", m |-> m, d |-> "a", i |-> i, u |-> Draws])

BC == <<"1","0","2","3","5","7">>
DoEd == On("Ed") /\
    \/ Fresh("b", eds) /\ \E o \in {<<"x","y">>, <<"y","x">>, <<"x">>} :
         NewB("b", "B", Ax(<<AxX, AxY>>), BC, o) /\ Log([op |-> "NewB", h |-> "b", name |-> "B", axes |-> <<AxX, AxY>>, c |-> BC, obs |-> o])
    \/ Fresh("f", eds) /\ \E o \in {<<"y">>, <<"x">>, <<"w">>} :
         NewA("f", "F", "2", <<"3">>, o) /\ Log([op |-> "NewA", h |-> "f", name |-> "F", k |-> "2", co |-> <<"3">>, obs |-> o])
    \/ {"b","f"} \subseteq DOMAIN eds /\ Fresh("p", eds) /\ NewC("p", <<"b","f">>) /\ Log([op |-> "NewC", h |-> "p", parts |-> <<"b","f">>])
    \/ \E h \in DOMAIN eds \cap {"b","f","p"} :
        \/ \E i \in {0, 1, 3} : ProbEd(h, "a", i) /\ Log([op |-> "ProbEd", h |-> h, d |-> "a", i |-> i])
        \/ InfoEd(h) /\ Log([op |-> "InfoEd", h |-> h])
        \/ NormEd(h) /\ Log([op |-> "NormEd", h |-> h])
        \/ Fresh("z", eds) /\ CloneEd(h, "z") /\ Log([op |-> "CloneEd", h |-> h, to |-> "z"])
        \/ h # "p" /\ SetObsEd(h, <<"y","x">>) /\ Log([op |-> "SetObsEd", h |-> h, obs |-> <<"y","x">>])
        \/ RenameEd(h, "N") /\ Log([op |-> "RenameEd", h |-> h, name |-> "N"])
    \/ \E h \in DOMAIN eds \cap {"f"} : SetK(h, "5") /\ Log([op |-> "SetK", h |-> h, k |-> "5"])
    \/ \E h \in DOMAIN eds \cap {"b"} : FillEv(h, "a", 2, "4") /\ Log([op |-> "FillEv", h |-> h, d |-> "a", i |-> 2, w |-> "4"])
    \/ SetNames("a", <<"y","x">>) /\ Log([op |-> "SetNames", d |-> "a", names |-> <<"y","x">>])
MEds == [b |-> [kind |-> "B", name |-> "B", axes |-> Ax(<<AxX, AxY>>), c |-> BC, obs |-> <<"x","y">>],
         e |-> [kind |-> "A", name |-> "E", k |-> "2", co |-> <<"3","1">>, obs |-> <<"y","x">>],
         f |-> [kind |-> "A", name |-> "F", k |-> "2", co |-> <<"3">>, obs |-> <<"y">>],
         m |-> [kind |-> "M", parts |-> <<>>, norms |-> <<>>, pn |-> <<>>]]
DoM == On("M") /\
    \/ /\ eds = << >> /\ eds' = MEds /\ ret' = Done /\ UNCHANGED <<ds, cuts, logs, sys, mans, exps>>
       /\ log' = log \o << [op |-> "NewB", h |-> "b", name |-> "B", axes |-> <<AxX, AxY>>, c |-> BC, obs |-> <<"x","y">>],
                           [op |-> "NewA", h |-> "e", name |-> "E", k |-> "2", co |-> <<"3","1">>, obs |-> <<"y","x">>],
                           [op |-> "NewA", h |-> "f", name |-> "F", k |-> "2", co |-> <<"3">>, obs |-> <<"y">>],
                           [op |-> "NewM", h |-> "m"] >>
    \/ \E h \in DOMAIN eds \cap {"m"} :
        \/ \E p \in {"b","e","f"} : (\A k \in 1..Len(eds[h].parts) : eds[h].parts[k].name # eds[p].name)
                /\ AddM(h, p) /\ Log([op |-> "AddM", h |-> h, p |-> p])
        \/ \E n \in {<<"2">>, <<"2","1/2">>} : NormsM(h, n) /\ Log([op |-> "NormsM", h |-> h, norms |-> n])
        \/ \E n \in {"B","E","w"} : ParM(h, n, "3") /\ Log([op |-> "ParM", h |-> h, name |-> n, x |-> "3"])
        \/ \E n \in {"w","E"} : RenM(h, "B", n) /\ Log([op |-> "RenM", h |-> h, from |-> "B", to |-> n])
        \/ \E d \in {[B |-> "5", E |-> "7"], [w |-> "5", E |-> "7"]} : ParsM(h, d)
              /\ Log([op |-> "ParsM", h |-> h, vals |-> LET q == SetToSeq(DOMAIN d) IN [k \in 1..Len(q) |-> <<q[k], d[q[k]]>>]])
        \/ \E i \in {0, 1} : ProbEd(h, "a", i) /\ Log([op |-> "ProbEd", h |-> h, d |-> "a", i |-> i])
    \/ "b" \in DOMAIN eds /\ NormEd("b") /\ Log([op |-> "NormEd", h |-> "b"])

(* filling and counting: every subset and order of cuts and systematics up to the depth *)
Cut1 == { [kind |-> "line", name |-> "lx", obs |-> "x", a |-> "1", side |-> "lower"],
          [kind |-> "box", name |-> "bx", obs |-> "x", a |-> "1", b |-> "6"],
          [kind |-> "line", name |-> "uy", obs |-> "y", a |-> "2", side |-> "upper"] }
SysOps == << [op |-> "NewSys", s |-> "sh", kind |-> "shift"], [op |-> "SysOut", s |-> "sh", names |-> <<"x">>],
             [op |-> "SysVal", s |-> "sh", x |-> "1"],
             [op |-> "NewSys", s |-> "sc", kind |-> "scale"], [op |-> "SysOut", s |-> "sc", names |-> <<"x">>],
             [op |-> "SysVal", s |-> "sc", x |-> "2"] >>
DoFill == On("Fill") /\
    \/ /\ sys = << >> /\ sys' = [s \in {"sh","sc"} |-> SysSetUp[s]] /\ mans' = [m |-> <<>>] /\ cuts' = [c |-> <<>>]
       /\ eds' = [b |-> MEds.b] /\ ret' = Done /\ UNCHANGED <<ds, logs, exps>>
       /\ log' = log \o SysOps \o << [op |-> "NewMan", m |-> "m"], [op |-> "NewCuts", c |-> "c"],
                           [op |-> "NewB", h |-> "b", name |-> "B", axes |-> <<AxX, AxY>>, c |-> BC, obs |-> <<"x","y">>] >>
    \/ sys # << >> /\
        \/ \E k \in Cut1 : AddCut("c", k) /\ Log([op |-> "AddCut", c |-> "c", cut |-> k])
        \/ \E s \in DOMAIN sys : ManAdd("m", s) /\ Log([op |-> "ManAdd", m |-> "m", s |-> s])
        \/ Fresh("g", logs) /\ NewLog("g", CutNames(cuts["c"])) /\ Log([op |-> "NewLogOf", g |-> "g", c |-> "c"])
        \/ \E n \in {-1, 2} : \/ FillDist("b", "a", "c", "", "m", n) /\ Log([op |-> "FillDist", h |-> "b", d |-> "a", c |-> "c", m |-> "m", n |-> n])
                              \/ "g" \in DOMAIN logs /\ FillDist("b", "a", "c", "g", "m", n)
                                 /\ Log([op |-> "FillDist", h |-> "b", d |-> "a", c |-> "c", g |-> "g", m |-> "m", n |-> n])
        \/ FillDist("b", "a", "c", "", "", -1) /\ Log([op |-> "FillDist", h |-> "b", d |-> "a", c |-> "c", n |-> -1])
DoExp == On("Exp") /\
    \/ /\ sys = << >> /\ sys' = [s \in {"sh","sc"} |-> SysSetUp[s]] /\ UNCHANGED <<mans, cuts, eds, logs>>
       /\ exps' = [x |-> [cuts |-> <<>>, sys |-> <<>>, bgs |-> <<>>, sig |-> <<>>, res |-> NoRes]]
       /\ ds' = [d \in {"a","t"} |-> IF d = "a" THEN ds["a"] ELSE [names |-> <<"y","x">>, n |-> 2, rows |-> << <<"0","2">>, <<"2","9">> >>]]
       /\ ret' = Done
       /\ log' = log \o SysOps \o << [op |-> "NewDs", d |-> "t"], [op |-> "SetNames", d |-> "t", names |-> <<"y","x">>],
                           [op |-> "AddEntry", d |-> "t", row |-> <<"0","2">>], [op |-> "AddEntry", d |-> "t", row |-> <<"2","9">>],
                           [op |-> "NewExp", x |-> "x"] >>
    \/ exps # << >> /\
        \/ \E k \in Cut1 : ExpCut("x", k) /\ Log([op |-> "ExpCut", x |-> "x", cut |-> k])
        \/ \E s \in DOMAIN sys : ExpSys("x", s) /\ Log([op |-> "ExpSys", x |-> "x", s |-> s])
        \/ \E d \in {"a","t"} : (\A k \in 1..Len(exps["x"].bgs) : exps["x"].bgs[k].name # d)
               /\ ExpBg("x", d, "6", d) /\ Log([op |-> "ExpBg", x |-> "x", d |-> d, rate |-> "6", name |-> d])
        \/ ExpSig("x", "t", "s") /\ Log([op |-> "ExpSig", x |-> "x", d |-> "t", name |-> "s"])
        \/ CountData("x", "a") /\ Log([op |-> "CountData", x |-> "x", d |-> "a"])
        \/ exps["x"].sig # <<>> /\ CountSig("x") /\ Log([op |-> "CountSig", x |-> "x"])
        \/ CountBg("x") /\ Log([op |-> "CountBg", x |-> "x"])
        \/ ExpResult("x") /\ Log([op |-> "ExpResult", x |-> "x"])

DoOwn == On("Own") /\
    \/ DOMAIN cuts = {} /\ NewCuts("c") /\ Log([op |-> "NewCuts", c |-> "c"])
    \/ Fresh("k", cuts) /\ "c" \in DOMAIN cuts /\ \E k \in {x \in CutSet : x.name \in {"lx","bx","bad"}} :
         NewK("k", k) /\ Log([op |-> "NewK", k |-> "k", cut |-> k])
    \/ \E k \in (DOMAIN cuts) \ {"c"} :
        \/ \E t \in IF cuts[k][1].kind = "line" THEN {<<"a","4">>, <<"side","upper">>, <<"side","sideways">>} ELSE {<<"a","2">>, <<"b","2">>} :
             KSet(k, t[1], t[2]) /\ Log([op |-> "KSet", k |-> k, f |-> t[1], x |-> t[2]])
        \/ KGet(k) /\ Log([op |-> "KGet", k |-> k])
        \/ Len(cuts["c"]) < 2 /\ KAdd("c", k) /\ Log([op |-> "KAdd", c |-> "c", k |-> k])
        \/ Fresh("j", cuts) /\ CopyCuts(k, "j") /\ Log([op |-> "KCopy", k |-> k, to |-> "j"])
        \/ \E i \in 0..2 : \/ Pass(k, "a", i) /\ Log([op |-> "KPass", k |-> k, d |-> "a", i |-> i])
                           \/ Pass("c", "a", i) /\ Log([op |-> "Pass", c |-> "c", d |-> "a", i |-> i])

MCNext == DoOwn \/ DoDs \/ DoCut \/ DoSys \/ DoMan \/ DoEd \/ DoM \/ DoFill \/ DoExp
MCSpec == MCInit /\ [][MCNext]_mcvars
View == state
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
Evs == {Entry(d, i - 1) : <<d, i>> \in {<<d, i>> \in (DOMAIN ds) \X (1..3) : i <= Len(ds[d].rows)}}
(* what a distribution reads from an event depends on names, not on where they are *)
Perm(e) == [names |-> Reverse(e.names), data |-> Reverse(e.data)]
LayoutFree == \A h \in DOMAIN eds : \A e \in Evs : Len(e.names) = Len(e.data) =>
    /\ DistCan(eds[h], e) = DistCan(eds[h], Perm(e))
    /\ DistCan(eds[h], e) => RSame(DistProb(eds[h], e), DistProb(eds[h], Perm(e)))
(* a systematic moves its named observable and no other *)
OnlyNamed == \A s \in DOMAIN sys : \A e \in Evs : SysCan(sys[s], e, Draws) =>
    LET t == SysDo(sys[s], e, Draws) IN t.names = e.names /\ \A k \in 1..Len(e.data) : k = NameAt(e.names, sys[s].out[1]) \/ t.data[k] = e.data[k]
(* normalising a binned distribution makes its probabilities sum to one *)
NormalisedSums == \A h \in DOMAIN eds : eds[h].kind = "B" => REq(RSum(DistNorm(eds[h]).c), "1")
(* the cuts decide together: all pass, or a first one fails *)
CutsConjoin == \A c \in DOMAIN cuts : \A e \in Evs : LET v == Verdict(cuts[c], e) IN
    v >= 0 => /\ (v = 0) = (\A k \in 1..Len(cuts[c]) : CutPass(cuts[c][k], Get(e, cuts[c][k].obs)))
              /\ \A k \in 1..(v - 1) : CutPass(cuts[c][k], Get(e, cuts[c][k].obs))
(* filling adds one per kept event, and the log accounts for all of them *)
FillLaw == [][(log' # log /\ Last(log').op = "FillDist" /\ ret'.ok) =>
    LET o == Last(log')  added == RSub(RSum(eds'[o.h].c), RSum(eds[o.h].c)) IN
    /\ RLe(added, Len(Rows(o.d, o.n)))
    /\ "g" \in DOMAIN o =>
         /\ logs'[o.g].n = logs[o.g].n + Len(Rows(o.d, o.n))
         /\ REq(RSub(Len(Rows(o.d, o.n)), added), SumTo(logs'[o.g].counts, Len(logs'[o.g].counts)) - SumTo(logs[o.g].counts, Len(logs[o.g].counts)))]_mcvars
CountIdem == \A x \in DOMAIN exps : \A b \in DOMAIN exps[x].res.bg : Len(exps[x].res.bg) <= Len(exps[x].bgs)
MCRefusedIsNoop == [][ret' = Refused => UNCHANGED <<ds, cuts, sys, mans>> /\ Known(exps') = Known(exps)]_mcvars
MCRowsAppendOnly == [][\A d \in DOMAIN ds :
    \/ IsPrefix(ds[d].rows, ds'[d].rows)
    \/ (d \in {"b","c"} /\ Last(log').op \in {"CopyDs","Concat"})]_mcvars
=============================================================================
