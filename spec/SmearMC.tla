------------------------------- MODULE SmearMC -------------------------------
(* Exhaustive instances of SmearSys to a bounded depth; prints tests. *)
EXTENDS SmearSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<vars, log>>
Exact(c) == {c}
Log(o) == log' = Append(log, o)
Logs(q) == log' = log \o q
On(o) == o \in Ops
Fresh(h, f) == h \notin DOMAIN f
MCInit == Init /\ log = <<>>

(* matrices *)
DoMat == On("Mat") /\
    \/ \E h \in {"a", "b"}, k \in {"S", "D"}, s \in {<<2,2>>, <<2,3>>, <<3,2>>} :
          /\ Fresh(h, mats) /\ (h = "b" => "a" \in DOMAIN mats /\ mats["a"].kind = k)
          /\ mats' = Put(mats, h, [kind |-> k, r |-> s[1], c |-> s[2], m |-> [i \in 1..s[1] |-> [j \in 1..s[2] |-> IF i = 1 /\ j = s[2] THEN "5" ELSE IF i = 2 /\ j = 1 THEN "7" ELSE "0"]]])
          /\ ret' = Done /\ UNCHANGED <<sys, ds, sms>>
          /\ Logs(<<[op |-> "NewMat", h |-> h, kind |-> k, r |-> s[1], c |-> s[2]],
                    [op |-> "MatSet", h |-> h, i |-> 0, j |-> s[2] - 1, x |-> "5"], [op |-> "MatSet", h |-> h, i |-> 1, j |-> 0, x |-> "7"]>>)
    \/ \E h \in DOMAIN mats :
        \/ \E i, j \in {0, 2} : MatSet(h, i, j, "3") /\ Log([op |-> "MatSet", h |-> h, i |-> i, j |-> j, x |-> "3"])
        \/ \E i, j \in {0, 1, 2} : MatGet(h, i, j) /\ Log([op |-> "MatGet", h |-> h, i |-> i, j |-> j])
        \/ mats[h].kind = "S" /\ \E t \in {<<>>, << <<0, 1, "2">> >>, << <<1, 1, "2">>, <<0, 0, "1/2">> >>, << <<0, 0, "1">>, <<1, 2, "4">> >>} :
              MatSets(h, t) /\ Log([op |-> "MatSets", h |-> h, ts |-> t])
        \/ \E v \in {<<"1","2">>, <<"1","2","3">>} : MatVec(h, v) /\ Log([op |-> "MatVec", h |-> h, v |-> v])
        \/ MatZero(h) /\ Log([op |-> "MatZero", h |-> h])
        \/ MatId(h) /\ Log([op |-> "MatId", h |-> h])
        \/ mats[h].kind = "S" /\ MatScale(h, "2") /\ Log([op |-> "MatScale", h |-> h, k |-> "2"])
        \/ mats[h].kind = "D" /\ \E v \in {<<"1","2","3">>, <<"1","2">>} : MatSym(h, v) /\ Log([op |-> "MatSym", h |-> h, v |-> v])
        \/ h = "a" /\ "b" \in DOMAIN mats /\ \E to \in {"a", "c"} :
              /\ MatMul("a", "b", to) /\ Log([op |-> "MatMul", h |-> "a", g |-> "b", to |-> to])
        \/ MatCopy(h, "d") /\ Log([op |-> "MatCopy", h |-> h, to |-> "d"])

(* systematics over one, two and three axes *)
AX == [x |-> Axis("x", "", <<"0","1","2">>, <<"1","2","3">>),
       y |-> Axis("y", "", <<"0","1/2">>, <<"1/2","2">>),
       z |-> Axis("z", "", <<"1","2">>, <<"2","4">>)]
Build(s) == [k \in 1..Len(s) |-> AX[s[k]]]
AxJ(s) == [k \in 1..Len(s) |-> [name |-> s[k], lo |-> AX[s[k]].lo, hi |-> AX[s[k]].hi]]
OtherAx == <<Axis("x", "", <<"0","2">>, <<"2","3">>)>>
OtherJ == <<[name |-> "x", lo |-> <<"0","2">>, hi |-> <<"2","3">>]>>
Shapes == {<<"x">>, <<"y","x">>, <<"x","y">>, <<"z","x","y">>}
TSets == {<<"x">>, <<"y">>, <<"y","x">>, <<"w">>, <<>>}
Fns(kind) == CASE kind = "scalefn" -> {<<"1/4","1","1/8">>} [] kind = "shape" -> {<<"1","1","1/2">>, <<"2","-1","0">>}
               [] kind = "conv" -> {<<"1/2","1">>, <<"0","1/2","1/2","1">>, <<"1">>} [] OTHER -> {<<>>}
KindOps == {"shift","scale","scalefn","shape","renorm","conv"} \cap Ops
SetupLog(h, kind, s, t, f) ==
    <<[op |-> "NewSys", h |-> h, kind |-> kind, name |-> h]>>
    \o (IF f = <<>> THEN <<>> ELSE <<[op |-> "SysFn", h |-> h, p |-> f]>>)
    \o <<[op |-> "SysAxes", h |-> h, axes |-> AxJ(s)], [op |-> "SysD", h |-> h, o |-> s], [op |-> "SysT", h |-> h, o |-> t]>>
Made(kind, name, s, t, f) == [kind |-> kind, name |-> name, p |-> IF f = <<>> THEN FreshP(kind) ELSE f, fn |-> TRUE, axes |-> Build(s), tobs |-> t, dobs |-> s,
                        resp |-> LET n == NBins(Build(s)) IN [r |-> n, c |-> n, m |-> ZeroM(n, n)]]
(* every new width used is positive where it is needed *)
Fine(s) == CanConstruct(s) => Defined(s)
Primes == <<"2","3","5","7","11","13","17","19","23","29","31","37">>
DoSys == KindOps # {} /\
    \/ \E kind \in KindOps, s \in Shapes, t \in TSets : \E f \in Fns(kind) :
          /\ sys = << >> /\ Fine(Made(kind, "s", s, t, f))
          /\ sys' = ("s" :> Made(kind, "s", s, t, f))
          /\ ds' = ("d" :> [name |-> "d", axes |-> Build(s), c |-> [b \in 1..NBins(Build(s)) |-> Primes[b]]])
          /\ ret' = Done /\ UNCHANGED <<mats, sms>>
          /\ Logs(SetupLog("s", kind, s, t, f) \o <<[op |-> "NewD", d |-> "d", name |-> "d", axes |-> AxJ(s), c |-> [b \in 1..NBins(Build(s)) |-> Primes[b]]]>>)
    \/ \E h \in DOMAIN sys :
        \/ Fine(sys[h]) /\ Construct(h) /\ Log([op |-> "SysBuild", h |-> h])
        \/ \E x \in {"1", "-1/2", "2", "0"} : /\ Len(sys[h].p) > 0 /\ sys[h].kind # "conv" /\ SetPar(h, 1, x) /\ Log([op |-> "SysPar", h |-> h, k |-> 1, x |-> x])
        \/ \E k \in {1, 2} : /\ sys[h].kind = "conv" /\ k <= Len(sys[h].p) /\ SetPar(h, k, "3/2") /\ Log([op |-> "SysPar", h |-> h, k |-> k, x |-> "3/2"])
        \/ Len(sys[h].axes) = 1 /\ SetAxes(h, OtherAx) /\ Log([op |-> "SysAxes", h |-> h, axes |-> OtherJ])
        \/ \E t \in {<<"x">>, <<"y">>} : SetTObs(h, t) /\ Log([op |-> "SysT", h |-> h, o |-> t])
        \/ h = "s" /\ Fresh("t", sys) /\ CopySys(h, "t") /\ Log([op |-> "SysCopy", h |-> h, to |-> "t"])
        \/ \E w \in BOOLEAN : Len(sys[h].resp.m) = Len(ds["d"].c) /\ RLt("0", RSum(ApplyM(sys[h].resp.m, ds["d"].c)))
              /\ Smear(h, "d", "e", w) /\ Log([op |-> "Smear", h |-> h, d |-> "d", to |-> "e", norm |-> w])

(* a manager of three systematics on one axis, two of one name *)
Parts == << <<"a", "shift", "A", <<"1/2">> >>, <<"b", "shape", "B", <<"1","1">> >>, <<"c", "scale", "A", <<"2">> >> >>
MgrLog == FoldLeft(LAMBDA acc, k : LET p == Parts[k] IN acc \o
            <<[op |-> "NewSys", h |-> p[1], kind |-> p[2], name |-> p[3]]>>
            \o (IF p[2] = "shape" THEN <<[op |-> "SysFn", h |-> p[1], p |-> p[4]]>> ELSE <<[op |-> "SysPar", h |-> p[1], k |-> 1, x |-> p[4][1]]>>)
            \o <<[op |-> "SysAxes", h |-> p[1], axes |-> AxJ(<<"x">>)], [op |-> "SysD", h |-> p[1], o |-> <<"x">>], [op |-> "SysT", h |-> p[1], o |-> <<"x">>]>>,
            <<>>, <<1, 2, 3>>)
         \o <<[op |-> "NewD", d |-> "d", name |-> "D", axes |-> AxJ(<<"x">>), c |-> <<"2","3","5">>],
              [op |-> "NewD", d |-> "e", name |-> "E", axes |-> AxJ(<<"x">>), c |-> <<"7","1","4">>],
              [op |-> "NewD", d |-> "w", name |-> "W", axes |-> AxJ(<<"x">>), c |-> <<"1","0","6">>],
              [op |-> "NewD", d |-> "v", name |-> "V", axes |-> AxJ(<<"x">>), c |-> <<"0","0","9">>],
              [op |-> "NewSm", m |-> "m"]>>
D1(n, c) == [name |-> n, axes |-> Build(<<"x">>), c |-> c]
DoMgr == On("Mgr") /\
    \/ /\ sms = << >>
       /\ sys' = [h \in {"a","b","c"} |-> LET p == Parts[CHOOSE k \in 1..3 : Parts[k][1] = h] IN Made(p[2], p[3], <<"x">>, <<"x">>, p[4])]
       /\ ds' = [d |-> D1("D", <<"2","3","5">>), e |-> D1("E", <<"7","1","4">>), w |-> D1("W", <<"1","0","6">>), v |-> D1("V", <<"0","0","9">>)]
       /\ sms' = ("m" :> [groups |-> ("" :> <<>>), tot |-> << >>, reg |-> << >>]) /\ ret' = Done /\ UNCHANGED mats
       /\ Logs(MgrLog)
    \/ \E m \in DOMAIN sms :
        \/ \E h \in {"a","b","c"}, g \in {"", "g", "h"} : SmCount(m) < 3 /\ SmAdd(m, h, g) /\ Log([op |-> "SmAdd", m |-> m, h |-> h, g |-> g])
        \/ \E d \in {"d"}, gs \in {<<>>, <<"">>, <<"g">>, <<"h","g">>, <<"g","">>, <<"g","g">>} : SmReg(m, ds[d].name, gs) /\ Log([op |-> "SmReg", m |-> m, d |-> d, gs |-> gs])
        \/ SmConstruct(m) /\ Log([op |-> "SmConstruct", m |-> m])
        \/ SmCount(m) > 0 /\ SetPar("a", 1, "-1") /\ sys["a"].p[1] # "-1" /\ Log([op |-> "SysPar", h |-> "a", k |-> 1, x |-> "-1"])
        \/ \E w \in BOOLEAN : ds["w"].name = "W" /\ Distort(m, <<"d","e">>, <<"w","v">>) /\ Log([op |-> "SmDistort", m |-> m, orig |-> <<"d","e">>, work |-> <<"w","v">>, norms |-> w])
        \/ \E g \in {"", "g", "k"} : \/ SmTotal(m, g) /\ Log([op |-> "SmTotal", m |-> m, g |-> g])
                                     \/ SmGroup(m, g) /\ Log([op |-> "SmGroup", m |-> m, g |-> g])
MCNext == DoMat \/ DoSys \/ DoMgr
MCSpec == MCInit /\ [][MCNext]_mcvars
View == state
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
Live == {h \in DOMAIN sys : CanConstruct(sys[h]) /\ Fine(sys[h])}
RespOf(h) == TLCEval(Response(sys[h]))
(* no content appears; none is lost where the moved bin stays inside the axis *)
Conserves == \A h \in Live : sys[h].kind \in OneDim \cup {"conv"} =>
    LET s == sys[h]  m == RespOf(h) IN
    \A j \in 1..Len(m) :
        LET t == RSum(Col(m, j)) IN
        /\ \A i \in 1..Len(m) : RLe("0", m[i][j])
        /\ RLe(t, "1.000000001")
        /\ s.kind \in OneDim =>
             LET d == PosIn(s.dobs, s.tobs[1])  a == s.axes[d]  i == UnflatD(s.axes, j - 1, d) + 1 IN
             (RLe(a.lo[1], Moved(s, a.lo[i])) /\ RLe(Moved(s, a.hi[i]), a.hi[NBinsOf(a)])) => REq(t, "1")
(* what is not transformed stays: smearing and then projecting on the transformed observables *)
(* is projecting and then smearing there                                                      *)
Alone(s) == [s EXCEPT !.axes = TAxes(s), !.dobs = s.tobs]
Projects == \A h \in Live : (sys[h].kind # "renorm" /\ "d" \in DOMAIN ds /\ Len(sys[h].axes) = Len(ds["d"].axes) /\ sys[h].axes = ds["d"].axes) =>
    LET s == sys[h]  n == s.tobs  d == ds["d"]
        a == TLCEval(Marg(Hist(d.axes, ApplyM(RespOf(h), d.c)), n).c)
        b == TLCEval(ApplyM(Response(Alone(s)), Marg(Hist(d.axes, d.c), n).c))
    IN RVClose(a, b)
NoEffect == \A h \in Live : LET s == sys[h] IN
    ((s.kind = "shift" /\ REq(s.p[1], "0")) \/ (s.kind = "scale" /\ REq(s.p[1], "1"))) => RespOf(h) = IdM(NBins(s.axes))
(* the total response of a group is its systematics one after the other *)
InTurn == \A m \in DOMAIN sms : \A g \in DOMAIN sms[m].tot \cap Used(sms[m]) :
    LET hs == sms[m].groups[g] IN
    (\A k \in 1..Len(hs) : sys[hs[k]].resp = Built(sys[hs[k]]).resp) => Chain(sys, hs).m = MulM(Chain(sys, hs).m, IdM(3), 3)
Linear == \A m \in DOMAIN sms : \A g \in DOMAIN sms[m].tot :
    LET t == sms[m].tot[g] IN REq(RSum(ApplyM(t.m, <<"1","1","1">>)), RSum([j \in 1..3 |-> RSum(Col(t.m, j))]))
(* one after the other, by hand *)
RECURSIVE OneByOne(_, _)
OneByOne(hs, c) == IF hs = <<>> THEN c ELSE OneByOne(Tail(hs), TLCEval(ApplyM(sys[hs[1]].resp.m, c)))
TotalIsTurns == [][\A m \in DOMAIN sms : (sms' # sms /\ ret'.ok /\ sys' # sys) =>
    \A g \in Used(sms[m]) : ApplyM(sms'[m].tot[g].m, <<"2","3","5">>) = OneByOne(sms[m].groups[g], <<"2","3","5">>)']_mcvars
(* constructing twice is constructing once *)
Stable == [][\A h \in DOMAIN sys \cap DOMAIN sys' : (CanConstruct(sys[h]) /\ Fine(sys[h]) /\ sys'[h] # sys[h] /\ sys'[h] = Built(sys[h])) => Response(sys'[h]) = sys'[h].resp.m]_mcvars
MCRefusedIsNoop == [][ret' = Refused => UNCHANGED <<mats, ds>>]_mcvars
=============================================================================
