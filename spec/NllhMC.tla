-------------------------------- MODULE NllhMC --------------------------------
(* Exhaustive instances of NllhSys to a bounded depth; prints tests. *)
EXTENDS NllhSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<nvars, log>>
Exact(c) == {c}
Log(o) == log' = Append(log, o)
On(o) == o \in Ops
MCInit == NInit /\ log = <<>>
(* a fixed beginning: done in one step *)
First == log = <<>>
Setup(q, m, s, t, g, b) == First /\ sys' = s /\ st' = t /\ sms' = g /\ bms' = b /\ pn' = m /\ ret' = Done /\ UNCHANGED <<mats, ds>> /\ log' = q

AX == [x |-> Axis("x", "", <<"0","1","2">>, <<"1","2","3">>), y |-> Axis("y", "", <<"1","2">>, <<"2","4">>)]
Build(s) == [k \in 1..Len(s) |-> AX[s[k]]]
AxJ(s) == [k \in 1..Len(s) |-> [name |-> s[k], lo |-> AX[s[k]].lo, hi |-> AX[s[k]].hi]]
Pdf(n, s, c, mode, gen) == [name |-> n, axes |-> Build(s), c |-> c, mode |-> mode, gen |-> gen]
PdfJ(n, s, c, mode, gen) == [name |-> n, axes |-> AxJ(s), c |-> c, mode |-> mode, gen |-> gen]
Nothing == [groups |-> ("" :> <<>>), tot |-> << >>, reg |-> << >>]
A3 == <<"1/2","1/4","1/4">>
B3 == <<"2","0","6">>
C6 == <<"1/8","1/8","0","1/4","1/4","1/4">>

(***************************************************************************)
(* Managers of distributions                                                *)
(***************************************************************************)
DoBm == On("Bm") /\
    \/ First /\ NewBm("a") /\ Log([op |-> "BmNew", m |-> "a"])
    \/ \E m \in DOMAIN bms : LET b == bms[m]  n == Len(b.pdfs) IN
        \/ /\ n < 3 /\ \E mode \in {"D", "I", "F"} : LET nm == <<"p", "q", "r">>[n + 1]  c == <<A3, B3, <<"0","1","3">> >>[n + 1] IN
              BmAdd(m, Pdf(nm, <<"x">>, c, mode, -1)) /\ Log([op |-> "BmAdd", m |-> m, pdf |-> PdfJ(nm, <<"x">>, c, mode, -1)])
        \/ \E v \in {<<"5">>, <<"7","11">>, <<"2","3","4">>} : BmSetNorms(m, v) /\ Log([op |-> "BmSetNorms", m |-> m, v |-> v])
        \/ \E nm \in {"q", "z"} : BmSet(m, nm, "13") /\ Log([op |-> "BmSet", m |-> m, name |-> nm, x |-> "13"])
        \/ \E d \in {<< <<"p", "1/2">> >>, << <<"p", "6">>, <<"q", "9">>, <<"r", "1">>, <<"w", "2">> >>} : BmSets(m, d) /\ Log([op |-> "BmSets", m |-> m, dict |-> d])
        \/ \E f \in {"p", "q"}, t \in {"z", "q"} : BmRename(m, f, t) /\ Log([op |-> "BmRename", m |-> m, from |-> f, to |-> t])
        \/ n > 0 /\ \E nm \in {"p", "z"} : BmGet(m, nm) /\ Log([op |-> "BmGet", m |-> m, name |-> nm])
        \/ n > 0 /\ \E i \in {0, 2} : BmBin(m, i) /\ Log([op |-> "BmBin", m |-> m, i |-> i])
        \/ n > 0 /\ \E e \in {<< <<"w", "2">>, <<"x", "5/2">> >>, << <<"w", "2">> >>} : BmProb(m, e) /\ Log([op |-> "BmProb", m |-> m, e |-> e])
        \/ m = "a" /\ n > 0 /\ "b" \notin DOMAIN bms /\ BmCopy("a", "b") /\ Log([op |-> "BmCopy", m |-> "a", to |-> "b"])

(***************************************************************************)
(* Likelihoods of up to two distributions over x or y, x                     *)
(***************************************************************************)
NewLog == <<[op |-> "StNew", h |-> "l"]>>
Dists(s) == IF s = <<"x">> THEN {<<"2","5","1">>, <<"0","1","3">>} ELSE {<<"1","0","2","0","0","4">>}
Contents(s, k) == IF s = <<"x">> THEN <<A3, B3>>[k] ELSE <<C6, <<"0","1","2","3","0","1">> >>[k]
DoNorm == On("Norm") /\
    \/ Setup(NewLog, << >>, << >>, ("l" :> NewStat), ("l" :> Nothing), << >>)
    \/ /\ ~First /\ \E h \in DOMAIN st : LET t == st[h]  n == Len(t.bm.pdfs)  reg == t.comps # {} IN
        \/ /\ n < 2 /\ t.src = "none" /\ ~reg
           /\ \E mode \in {"D", "I", "F"}, s \in {<<"x">>, <<"y","x">>}, gen \in (IF t.bb THEN {4, -1} ELSE {-1}) : LET nm == <<"p", "q">>[n + 1] IN
              /\ n = 1 => s = Names(t.bm.pdfs[1].axes)
              /\ (mode = "D") = (n = 0) \/ mode = "I"
              /\ StAdd(h, Pdf(nm, s, Contents(s, n + 1), mode, gen), <<"">>)
              /\ Log([op |-> "StAdd", h |-> h, pdf |-> PdfJ(nm, s, Contents(s, n + 1), mode, gen), gs |-> <<"">>])
        \/ n = 0 /\ ~t.bb /\ StBB(h, TRUE) /\ Log([op |-> "StBB", h |-> h, on |-> TRUE])
        \/ /\ n > 0 /\ t.src = "none" /\ ~reg
           /\ \E s \in {<<"x">>, Names(t.bm.pdfs[1].axes)} : \E c \in Dists(s) :
                StDist(h, Build(s), c) /\ Log([op |-> "StDist", h |-> h, d |-> [name |-> "d", axes |-> AxJ(s), c |-> c]])
        \/ /\ n > 0 /\ t.src = "none" /\ ~reg /\ LET r == << <<"1/2", "0", "7">>, <<"2", "1", "7">>, <<"3", "5/2", "7">>, <<"3", "1/4", "7">> >> IN
                StRows(h, <<"y", "x", "w">>, r) /\ Log([op |-> "StRows", h |-> h, names |-> <<"y", "x", "w">>, rows |-> r])
        \/ /\ t.src = "rows" /\ ~reg /\ Len(t.cuts) < 1 /\ \E side \in {"lower", "upper"} :
                StCut(h, [obs |-> "x", side |-> side, a |-> "1"]) /\ Log([op |-> "StCut", h |-> h, obs |-> "x", side |-> side, a |-> "1"])
        \/ /\ t.src # "none" /\ ~reg /\ t.buf = << >> /\ \E b \in {<<1, 0>>, <<0, 1>>, <<2, 1>>} :
                StBuf(h, "x", b[1], b[2]) /\ Log([op |-> "StBuf", h |-> h, name |-> "x", lo |-> b[1], hi |-> b[2]])
        \/ t.buf # << >> /\ ~t.ov /\ ~reg /\ StOv(h, TRUE) /\ Log([op |-> "StOv", h |-> h, on |-> TRUE])
        \/ t.src # "none" /\ ~reg /\ t.cons = NoCons /\ StInd(h, "q", "3", "1/2", "2") /\ Log([op |-> "StInd", h |-> h, name |-> "q", m |-> "3", lo |-> "1/2", hi |-> "2"])
        \/ t.src # "none" /\ ~reg /\ StReg(h) /\ Log([op |-> "StReg", h |-> h])
        \/ reg /\ \E d \in {<< <<"p", "8">>, <<"q", "5">> >>, << <<"p", "2">>, <<"q", "1/2">> >>} : StSets(h, d) /\ Log([op |-> "StSets", h |-> h, dict |-> d])
        \/ reg /\ StEval(h) /\ Log([op |-> "StEval", h |-> h])
        \/ reg /\ t.fresh /\ StNorms(h) /\ Log([op |-> "StNorms", h |-> h])

(***************************************************************************)
(* The same with systematics: a shift A, a shape B, in groups               *)
(***************************************************************************)
SyJ(h, kind, p, names) == [op |-> "SyNew", h |-> h, kind |-> kind, name |-> h, p |-> p, names |-> names, axes |-> AxJ(<<"x">>), tobs |-> <<"x">>]
Sy(h, kind, p) == [kind |-> kind, name |-> h, p |-> p, fn |-> TRUE, axes |-> Build(<<"x">>), tobs |-> <<"x">>, dobs |-> <<"x">>, resp |-> NoMat]
SysLog == <<SyJ("s", "shift", <<"1/2">>, <<"s0">>), SyJ("t", "shape", <<"1","1">>, <<"t0", "t1">>)>>
Two == [s |-> Sy("s", "shift", <<"1/2">>), t |-> Sy("t", "shape", <<"1","1">>)]
TwoN == [s |-> <<"s0">>, t |-> <<"t0", "t1">>]
DoSys == On("Sys") /\
    \/ Setup(SysLog \o NewLog, TwoN, Two, ("l" :> NewStat), ("l" :> Nothing), << >>)
    \/ /\ ~First /\ \E h \in DOMAIN st : LET t == st[h]  n == Len(t.bm.pdfs) IN
        \/ /\ n = 0 /\ \E x \in {"s", "t"} \ Members(h), g \in {"", "g"} : StSys(h, x, g) /\ Log([op |-> "StSys", h |-> h, s |-> x, g |-> g])
        \/ /\ n < 2 /\ t.src = "none"
           /\ \E mode \in {"D", "I"}, gs \in {<<"">>, <<"g">>, <<"g", "">>} : LET nm == <<"p", "q">>[n + 1] IN
              /\ n = 1 => mode = "I" /\ gs = <<"">>
              /\ StAdd(h, Pdf(nm, <<"x">>, Contents(<<"x">>, n + 1), mode, -1), gs)
              /\ Log([op |-> "StAdd", h |-> h, pdf |-> PdfJ(nm, <<"x">>, Contents(<<"x">>, n + 1), mode, -1), gs |-> gs])
        \/ /\ n > 0 /\ t.src = "none" /\ LET c == <<"2","5","1">> IN
                \E b \in BOOLEAN, r \in {TRUE} :     \* with or without a buffer, registered
                  /\ st' = [st EXCEPT ![h].src = "dist", ![h].data = [axes |-> Build(<<"x">>), c |-> c], ![h].comps = {"norms"} \cup Members(h),
                                      ![h].buf = IF b THEN ("x" :> <<0, 1>>) ELSE @]
                  /\ ret' = Done /\ UNCHANGED <<mats, sys, ds, sms, pn, bms>>
                  /\ log' = log \o (IF b THEN <<[op |-> "StBuf", h |-> h, name |-> "x", lo |-> 0, hi |-> 1]>> ELSE <<>>)
                             \o <<[op |-> "StDist", h |-> h, d |-> [name |-> "d", axes |-> AxJ(<<"x">>), c |-> c]], [op |-> "StReg", h |-> h]>>
        \/ /\ t.comps # {}
           /\ \/ \E d \in {<< <<"p", "8">>, <<"q", "5">>, <<"s0", "1/4">>, <<"t0", "2">>, <<"t1", "1/2">> >>, << <<"p", "2">>, <<"q", "3">>, <<"s0", "-1/2">> >>} :
                    StSets(h, d) /\ Log([op |-> "StSets", h |-> h, dict |-> d])
              \/ StEval(h) /\ Log([op |-> "StEval", h |-> h])
              \/ t.fresh /\ StNorms(h) /\ Log([op |-> "StNorms", h |-> h])

(***************************************************************************)
(* Histories of one likelihood: evaluations in between changes               *)
(***************************************************************************)
Hist0(b, sy) == [NewStat EXCEPT !.bm = WithPdf(WithPdf(NoBm, Pdf("p", <<"y","x">>, C6, "D", -1)), Pdf("q", <<"y","x">>, <<"0","1","2","3","0","1">>, "I", -1)),
                             !.src = "dist", !.data = [axes |-> Build(<<"x">>), c |-> <<"2","5","1">>], !.buf = IF b THEN ("x" :> <<1, 0>>) ELSE << >>,
                             !.comps = {"norms"} \cup sy]
HistSy == [s |-> [Sy("s", "shift", <<"1/2">>) EXCEPT !.axes = Build(<<"y","x">>), !.dobs = <<"y","x">>]]
DistX(c) == [op |-> "StDist", h |-> "l", d |-> [name |-> "d", axes |-> AxJ(<<"x">>), c |-> c]]
HistLog(b, sy) ==
    (IF sy = {} THEN <<>> ELSE <<[SyJ("s", "shift", <<"1/2">>, <<"s0">>) EXCEPT !.axes = AxJ(<<"y","x">>)]>>)
    \o NewLog \o (IF sy = {} THEN <<>> ELSE <<[op |-> "StSys", h |-> "l", s |-> "s", g |-> ""]>>)
    \o <<[op |-> "StAdd", h |-> "l", pdf |-> PdfJ("p", <<"y","x">>, C6, "D", -1), gs |-> <<"">>],
         [op |-> "StAdd", h |-> "l", pdf |-> PdfJ("q", <<"y","x">>, <<"0","1","2","3","0","1">>, "I", -1), gs |-> <<"">>]>>
    \o (IF b THEN <<[op |-> "StBuf", h |-> "l", name |-> "x", lo |-> 1, hi |-> 0]>> ELSE <<>>)
    \o <<DistX(<<"2","5","1">>), [op |-> "StReg", h |-> "l"]>>
DoHist == On("Hist") /\
    \/ \E b \in BOOLEAN, sy \in {{}, {"s"}} :
          Setup(HistLog(b, sy), IF sy = {} THEN << >> ELSE [s |-> <<"s0">>], IF sy = {} THEN << >> ELSE HistSy, ("l" :> Hist0(b, sy)),
                ("l" :> [groups |-> ("" :> IF sy = {} THEN <<>> ELSE <<"s">>), tot |-> << >>, reg |-> ("p" :> <<"">> @@ "q" :> <<"">>)]), << >>)
    \/ /\ ~First
       /\ \/ \E d \in {<< <<"p", "8">>, <<"q", "5">>, <<"s0", "1/4">> >>, << <<"p", "2">>, <<"q", "3">>, <<"s0", "-1/2">> >>, << <<"q", "1">> >>} :
                StSets("l", d) /\ Log([op |-> "StSets", h |-> "l", dict |-> d])
          \/ \E c \in {<<"0","1","3">>} : StDist("l", Build(<<"x">>), c) /\ Log(DistX(c))
          \/ /\ st["l"].buf = << >>       \* buffers come with new data
             /\ st' = [st EXCEPT !["l"].buf = ("x" :> <<0, 1>>), !["l"].data.c = <<"4","2","6">>, !["l"].fresh = FALSE] /\ ret' = Done
             /\ UNCHANGED <<mats, sys, ds, sms, pn, bms>>
             /\ log' = log \o <<[op |-> "StBuf", h |-> "l", name |-> "x", lo |-> 0, hi |-> 1], DistX(<<"4","2","6">>)>>
          \/ st["l"].cons = NoCons /\ StInd("l", "q", "3", "1/2", "2") /\ Log([op |-> "StInd", h |-> "l", name |-> "q", m |-> "3", lo |-> "1/2", hi |-> "2"])
          \/ StEval("l") /\ Log([op |-> "StEval", h |-> "l"])
          \/ st["l"].fresh /\ StNorms("l") /\ Log([op |-> "StNorms", h |-> "l"])

(***************************************************************************)
(* Sums of two likelihoods which share the norm p                           *)
(***************************************************************************)
APart(n, c, d) == [NewStat EXCEPT !.bm = WithPdf(WithPdf(NoBm, Pdf("p", <<"x">>, A3, "D", -1)), Pdf(n, <<"x">>, c, "I", -1)), !.src = "dist", !.data = [axes |-> Build(<<"x">>), c |-> d]]
PartLog(h, n, c, d) == <<[op |-> "StNew", h |-> h], [op |-> "StAdd", h |-> h, pdf |-> PdfJ("p", <<"x">>, A3, "D", -1), gs |-> <<"">>],
                        [op |-> "StAdd", h |-> h, pdf |-> PdfJ(n, <<"x">>, c, "I", -1), gs |-> <<"">>],
                        [op |-> "StDist", h |-> h, d |-> [name |-> "d", axes |-> AxJ(<<"x">>), c |-> d]]>>
DoSum == On("Sum") /\
    \/ Setup(PartLog("k", "q", <<"1","1","2">>, <<"2","5","1">>) \o PartLog("l", "r", <<"1","0","3">>, <<"1","1","3">>), << >>, << >>,
             [k |-> APart("q", <<"1","1","2">>, <<"2","5","1">>), l |-> APart("r", <<"1","0","3">>, <<"1","1","3">>)],
             LET g == [Nothing EXCEPT !.reg = ("p" :> <<"">>)] IN [k |-> g, l |-> g], << >>)
    \/ /\ ~First
       /\ \/ "u" \notin DOMAIN st /\ \E p \in {<<"k", "l">>, <<"l", "k">>, <<"k">>} : SumNew("u", p) /\ Log([op |-> "SumNew", h |-> "u", parts |-> p])
          \/ /\ "u" \in DOMAIN st
             /\ \/ Len(st["u"].parts) = 1 /\ SumAdd("u", "l") /\ Log([op |-> "SumAdd", h |-> "u", p |-> "l"])
                \/ \E h \in {"u", "k"} : StReg(h) /\ Log([op |-> "StReg", h |-> h])
                \/ \E h \in {"u", "l"} : st[h].cons = NoCons /\ StInd(h, "p", "3", "1/2", "2") /\ Log([op |-> "StInd", h |-> h, name |-> "p", m |-> "3", lo |-> "1/2", hi |-> "2"])
                \/ st["u"].comps = {} /\ \E h \in {"u", "k"}, d \in {<< <<"p", "8">>, <<"q", "5">>, <<"r", "2">> >>, << <<"p", "2">>, <<"q", "3">> >>} :
                      StSets(h, d) /\ Log([op |-> "StSets", h |-> h, dict |-> d])
                \/ \E h \in {"u", "l"} : StEval(h) /\ Log([op |-> "StEval", h |-> h])
                \/ "v" \notin DOMAIN st /\ \E p \in {<<"u", "l">>, <<"k", "k">>} : SumNew("v", p) /\ Log([op |-> "SumNew", h |-> "v", parts |-> p])
                \/ "v" \in DOMAIN st /\ st["v"].cons = NoCons /\ StInd("v", "q", "4", "1", "3") /\ Log([op |-> "StInd", h |-> "v", name |-> "q", m |-> "4", lo |-> "1", hi |-> "3"])
                \/ "v" \in DOMAIN st /\ StReg("v") /\ Log([op |-> "StReg", h |-> "v"])
                \/ "v" \in DOMAIN st /\ StEval("v") /\ Log([op |-> "StEval", h |-> "v"])
(***************************************************************************)
(* A manager whose distributions are distorted, cut and projected           *)
(***************************************************************************)
YX == <<"y","x">>
Q6 == <<"0","1","2","3","0","1">>
BdSy == [s |-> Sy("s", "shift", <<"1/2">>)]
BdBm == WithPdf(WithPdf(WithPdf(NoBm, Pdf("p", YX, C6, "D", -1)), Pdf("f", YX, <<"1","1","1","0","0","1/2">>, "F", -1)), Pdf("q", YX, Q6, "I", -1))
BdAdd(n, c, mode) == [op |-> "BmAdd", m |-> "a", pdf |-> PdfJ(n, YX, c, mode, -1)]
BdLog(reg) == <<[SyJ("s", "shift", <<"1/2">>, <<"s0">>) EXCEPT !.axes = AxJ(YX)], [op |-> "BmNew", m |-> "a"],
    BdAdd("p", C6, "D"), BdAdd("f", <<"1","1","1","0","0","1/2">>, "F"), BdAdd("q", Q6, "I"),
    [op |-> "SgNew", s |-> "g"], [op |-> "SgNew", s |-> "e"], [op |-> "SgAdd", s |-> "g", h |-> "s", g |-> ""]>>
    \o [k \in 1..Len(reg) |-> [op |-> "SgReg", s |-> "g", name |-> reg[k], gs |-> <<"">>]]
DoBd == On("Bd") /\
    \/ \E reg \in {<<"p">>, <<"f", "q">>, <<"q", "p", "f">>} :
          Setup(BdLog(reg), [s |-> <<"s0">>], HistSy, << >>,
                ("g" :> [groups |-> ("" :> <<"s">>), tot |-> << >>, reg |-> [x \in {reg[k] : k \in 1..Len(reg)} |-> <<"">>]] @@ "e" :> Nothing), ("a" :> BdBm))
    \/ /\ ~First /\ \E m \in DOMAIN bms : LET b == bms[m] IN
        \/ \E h \in {"g", "e"} : BmApply(m, h) /\ Log([op |-> "BmApply", m |-> m, s |-> h])
        \/ \E q \in {<<1, 0>>, <<0, 1>>}, ov \in BOOLEAN : BmShrink(m, ("x" :> q), ov) /\ Log([op |-> "BmShrink", m |-> m, buf |-> << <<"x", q[1], q[2]>> >>, ov |-> ov])
        \/ ~b.cut /\ \E n \in {<<"x">>, <<"y">>} : BmAlong(m, n) /\ Log([op |-> "BmAlong", m |-> m, names |-> n])
        \/ \E v \in {<<"2","3","4">>} : BmSetNorms(m, v) /\ Log([op |-> "BmSetNorms", m |-> m, v |-> v])
        \/ BmSet(m, "q", "13") /\ Log([op |-> "BmSet", m |-> m, name |-> "q", x |-> "13"])
        \/ \E x \in {"1", "1/2"} : sys["s"].p[1] # x /\ SyPar("s", 1, x) /\ Log([op |-> "SyPar", h |-> "s", k |-> 1, x |-> x])
        \/ m = "a" /\ "b" \notin DOMAIN bms /\ BmCopy("a", "b") /\ Log([op |-> "BmCopy", m |-> "a", to |-> "b"])
        \/ BmProb(m, << <<"w", "2">>, <<"x", "5/2">>, <<"y", "3/2">> >>) /\ Log([op |-> "BmProb", m |-> m, e |-> << <<"w", "2">>, <<"x", "5/2">>, <<"y", "3/2">> >>])
(***************************************************************************)
(* A likelihood and copies of it, each going its own way                     *)
(***************************************************************************)
DoCopy == On("Copy") /\
    \/ Setup(HistLog(TRUE, {"s"}), [s |-> <<"s0">>], HistSy, ("l" :> Hist0(TRUE, {"s"})),
             ("l" :> [groups |-> ("" :> <<"s">>), tot |-> << >>, reg |-> ("p" :> <<"">> @@ "q" :> <<"">>)]), << >>)
    \/ /\ ~First /\ \E h \in DOMAIN st :
        \/ \E to \in {"l", "m"} : (to # h \/ to = "l") /\ StCopy(h, to) /\ Log([op |-> "StCopy", h |-> h, to |-> to])
        \/ \E d \in {<< <<"p", "8">>, <<"q", "5">>, <<"s0", "1/4">> >>, << <<"p", "2">>, <<"q", "3">>, <<"s0", "-1/2">> >>} : StSets(h, d) /\ Log([op |-> "StSets", h |-> h, dict |-> d])
        \/ \E c \in {<<"0","1","3">>} : StDist(h, Build(<<"x">>), c) /\ Log([DistX(c) EXCEPT !.h = h])
        \/ st[h].buf["x"] = <<1, 0>> /\ StBuf(h, "x", 0, 1) /\ Log([op |-> "StBuf", h |-> h, name |-> "x", lo |-> 0, hi |-> 1])
        \/ st[h].cons = NoCons /\ StInd(h, "q", "3", "1/2", "2") /\ Log([op |-> "StInd", h |-> h, name |-> "q", m |-> "3", lo |-> "1/2", hi |-> "2"])
        \/ st[h].cons = NoCons /\ \E f \in DOMAIN st \ {h} : st[f].cons # NoCons /\ StSetCons(h, f) /\ Log([op |-> "StSetCons", h |-> h, from |-> f])
        \/ st[h].cons.shape = << >> /\ StShape(h, << <<"p", "1">> >>, << <<"p", "1">>, <<"q", "-2">> >>, "1", "4")
              /\ Log([op |-> "StShape", h |-> h, dict |-> << <<"p", "1">> >>, co |-> << <<"p", "1">>, <<"q", "-2">> >>, m |-> "1", s |-> "4"])
        \/ StEval(h) /\ Log([op |-> "StEval", h |-> h])
        \/ st[h].fresh /\ StData(h) /\ Log([op |-> "StData", h |-> h])
        \/ st[h].fresh /\ StNorms(h) /\ Log([op |-> "StNorms", h |-> h])
(* what is done to one is not done to another *)
Apart == [][(Ops = {"Copy"} /\ Len(log) > 0) => LET o == log'[Len(log')] IN
    \A h \in DOMAIN st : h # (IF o.op = "StCopy" THEN o.to ELSE o.h) => st'[h] = st[h] /\ sms'[h] = sms[h]]_mcvars
MCNext == DoCopy \/ DoBd \/ DoBm \/ DoNorm \/ DoSys \/ DoHist \/ DoSum
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<nstate, First>>
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
Stats == {h \in DOMAIN st : st[h].kind = "nllh" /\ HasData(st[h])}
Valued == {h \in Stats : Ready(h) /\ HasGens(st[h]) /\ ~Value(h).empty}
Events(h) == Shrunk(st[h], DataOf(st[h])).c
(* no expectation does better than the data themselves *)
Gibbs == \A h \in Valued : LET v == Value(h)  n == Events(h) IN
    ~st[h].bb => RLe(RSum([b \in 1..Len(n) |-> BinTerm(n[b], n[b])]), RAdd(v.lh, "0.000001"))
(* without uncertainty the expectation is where it is; with it the value is no larger *)
Uncertain == \A h \in Valued : st[h].bb =>
    LET w == Worked(h)  n == Events(h)
        mu == [b \in 1..Len(n) |-> RSum([k \in 1..Len(w) |-> RMul(w[k].w, w[k].c[b])])]
        plain == RSum([b \in 1..Len(n) |-> BinTerm(mu[b], n[b])])
    IN RLe(Value(h).lh, RAdd(plain, "0.000001"))
(* contents, and with them the expectation, are there or not: nothing is negative *)
Positive == \A h \in Stats : Ready(h) => \A k \in 1..Len(st[h].bm.pdfs) : LET w == Worked(h)[k] IN
    /\ \A b \in 1..Len(w.c) : RLe("0", w.c[b])
    /\ st[h].bm.pdfs[k].mode = "D" /\ REq(RSum(st[h].bm.pdfs[k].c), "1") /\ (st[h].buf # << >> \/ Members(h) = {}) => RClose(RSum(w.c), "1")
    /\ st[h].bm.pdfs[k].mode = "I" /\ Members(h) = {} /\ st[h].buf = << >> => w.n = w.w
(* what is evaluated changes nothing that is evaluated *)
Same(t) == [t EXCEPT !.fresh = FALSE, !.norms = <<>>]
Again == [][(Len(log') > Len(log) /\ log'[Len(log')].op = "StEval") =>
    UNCHANGED <<sys, sms, pn, bms>> /\ DOMAIN st' = DOMAIN st /\ \A h \in DOMAIN st : Same(st'[h]) = Same(st[h])]_mcvars
(* parameters of the sum are those of its parts, each once *)
SumPars == \A h \in DOMAIN st : st[h].kind = "sum" =>
    /\ NamesOfPars(Pars(h)) = UNION {NamesOfPars(Pars(p)) : p \in Parts(h)}
    /\ Len(Pars(h)) = Cardinality(NamesOfPars(Pars(h)))
(* of a manager: every weight is its own *)
Weighted == \A m \in DOMAIN bms : LET b == bms[m] IN
    \A k \in 1..Len(b.pdfs) : b.pdfs[k].mode = "F" \/ (DHas(NormPars(b), b.names[k]) /\ DGet(NormPars(b), b.names[k]) = b.par[k])
SetIsRead == [][\A m \in DOMAIN bms : (bms'[m] # bms[m] /\ Len(log') > Len(log) /\ log'[Len(log')].op = "BmSet" /\ log'[Len(log')].name = "q") => DGet(NormPars(bms'[m]), "q") = "13"]_mcvars
(* what was done to the distributions is undone by starting from the originals; one applied twice is applied once *)
FromOriginals == [][\A m \in DOMAIN bms : (Len(log') > Len(log) /\ log'[Len(log')].op = "BmApply" /\ log'[Len(log')].m = m /\ ret' # Refused) =>
    /\ \A k \in 1..Len(bms[m].pdfs) : Names(Work(bms'[m], k).axes) = Names(bms[m].pdfs[k].axes)
    /\ log'[Len(log')].s = "e" => \A k \in 1..Len(bms[m].pdfs) : Work(bms'[m], k).c = bms[m].pdfs[k].c
    /\ (Len(log) > 0 /\ log[Len(log)] = log'[Len(log')]) => bms'[m] = bms[m]]_mcvars
(* cut or not, what is multiplied directly keeps one as its integral; a projection keeps integrals *)
CutIsOne == \A m \in DOMAIN bms : \A k \in 1..Len(bms[m].pdfs) : bms[m].cut /\ bms[m].pdfs[k].mode = "D" => RClose(RSum(Work(bms[m], k).c), "1")
AlongKeeps == [][\A m \in DOMAIN bms : (Len(log') > Len(log) /\ log'[Len(log')].op = "BmAlong" /\ log'[Len(log')].m = m) =>
    \A k \in 1..Len(bms[m].pdfs) : RClose(RSum(Work(bms'[m], k).c), RSum(Work(bms[m], k).c))]_mcvars
MCRefusedIsNoop == [][ret' = Refused => UNCHANGED <<mats, ds, sms, pn, bms>>]_mcvars
=============================================================================
