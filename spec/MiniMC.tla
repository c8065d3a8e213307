------------------------------- MODULE MiniMC -------------------------------
(* Exhaustive instance of MiniSys; prints one test per transition. *)
EXTENDS MiniSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<mnvars, log>>
In(p) == p \in Ops
Log(o) == log' = Append(log, o)
Q == <<"b", "a">>
Terms == <<[k |-> "1", x |-> <<"a", "a">>], [k |-> "-4", x |-> <<"a">>], [k |-> "3", x |-> <<"b">>], [k |-> "1/2", x |-> <<"b", "b">>], [k |-> "1", x |-> <<>>]>>
D(x, y) == <<<<"a", x>>, <<"b", y>>>>
Pre == << [op |-> "StNew", h |-> "s", names |-> <<"a", "b">>, terms |-> Terms], [op |-> "MnNew", m |-> "m"], [op |-> "MnVals", m |-> "m", d |-> D("1", "2")], [op |-> "MnErrs", m |-> "m", d |-> D("1/4", "1/2")] >>
MCInit == MnInit /\ log = <<>>
DoStart == mins = << >> /\ stats' = ("s" :> [names |-> {"a", "b"}, terms |-> Terms]) /\ ret' = Done
    /\ mins' = ("m" :> [Fresh EXCEPT !.vals = DFn(D("1", "2")), !.errs = DFn(D("1/4", "1/2"))]) /\ log' = Pre
Pts == { <<>>, << <<"2", "-3">> >>, << <<"5", "7">>, <<"-3", "2">>, <<"-6", "-6">> >> }
Run == \E p \in Pts, v \in BOOLEAN, hc \in BOOLEAN : (In("Set") => v /\ hc) /\
    LET c == <<"1", "2", "3">> IN MnRun("m", "s", Q, p, v, hc, c) /\ Log([op |-> "MnRun", m |-> "m", s |-> "s", pts |-> p, valid |-> v, hascov |-> hc, cov |-> c])
Get == MnGet("m") /\ Log([op |-> "MnGet", m |-> "m"])
(* settings that change between fits *)
DoSet == In("Set") /\ mins # << >> /\
    \/ Run \/ Get
    \/ \E d \in {D("1", "3"), <<<<"a", "0">>>>} : \/ MnVals("m", d) /\ Log([op |-> "MnVals", m |-> "m", d |-> d])
                                                  \/ MnErrs("m", d) /\ Log([op |-> "MnErrs", m |-> "m", d |-> d])
    \/ \E n \in {"a", "c"} : \/ MnFix("m", n) /\ Log([op |-> "MnFix", m |-> "m", n |-> n])
                             \/ MnRelease("m", n) /\ Log([op |-> "MnRelease", m |-> "m", n |-> n])
    \/ \E d \in {<<<<"b", "-2">>>>, D("0", "5")} : MnMin("m", d) /\ Log([op |-> "MnMin", m |-> "m", d |-> d])
    \/ \E d \in {<<<<"b", "4">>>>, D("3/2", "5")} : MnMax("m", d) /\ Log([op |-> "MnMax", m |-> "m", d |-> d])
    \/ \E b \in BOOLEAN : MnMx("m", b) /\ Log([op |-> "MnMx", m |-> "m", x |-> b])
(* two optimisers, one a copy of the other *)
DoTwo == In("Two") /\ mins # << >> /\ \E m \in DOMAIN mins :
    \/ \E to \in {"m", "n"} \ {m} : MnCopy(m, to) /\ Log([op |-> IF to \in DOMAIN mins THEN "MnAssign" ELSE "MnCopy", m |-> m, to |-> to])
    \/ \E p \in {<< <<"2", "-3">> >>} : LET c == <<"1", "2", "3">> IN MnRun(m, "s", Q, p, TRUE, TRUE, c) /\ Log([op |-> "MnRun", m |-> m, s |-> "s", pts |-> p, valid |-> TRUE, hascov |-> TRUE, cov |-> c])
    \/ MnGet(m) /\ Log([op |-> "MnGet", m |-> m])
    \/ MnFix(m, "a") /\ Log([op |-> "MnFix", m |-> m, n |-> "a"])
    \/ MnMx(m, TRUE) /\ Log([op |-> "MnMx", m |-> m, x |-> TRUE])
    \/ \E d \in {D("1", "3")} : MnVals(m, d) /\ Log([op |-> "MnVals", m |-> m, d |-> d])
DoKnob == In("Knob") /\ mins # << >> /\
    \/ Run \/ Get
    \/ \E x \in {"Migrad", "Simplex", "Minimize", "", "migrad"} : MnMethod("m", x) /\ Log([op |-> "MnMethod", m |-> "m", x |-> x])
    \/ \E x \in {0, 1} : MnStrategy("m", x) /\ Log([op |-> "MnStrategy", m |-> "m", x |-> x])
    \/ MnCalls("m", 500) /\ Log([op |-> "MnCalls", m |-> "m", x |-> 500])
    \/ MnTol("m", "1/4") /\ Log([op |-> "MnTol", m |-> "m", x |-> "1/4"])
    \/ MnUp("m", "2") /\ Log([op |-> "MnUp", m |-> "m", x |-> "2"])
    \/ MnMx("m", TRUE) /\ Log([op |-> "MnMx", m |-> "m", x |-> TRUE])
MCNext == DoStart \/ DoSet \/ DoKnob \/ DoTwo
MCSpec == MCInit /\ [][MCNext]_mcvars
View == mnstate
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(* no point tried is better than the one given; the numbering does not matter to the statistic's side *)
NoneBetter == [][(IF log' = <<>> THEN FALSE ELSE log'[Len(log')].op = "MnRun" /\ ret'.ok) => LET r == ret'.v t == mins'[log'[Len(log')].m] IN
    /\ \A k \in DOMAIN r.at : RLe(Flip(t, t.res.ext), Flip(t, PolyAt(Terms, r.at[k])))
    /\ \A k \in DOMAIN r.at : \A n \in t.fixed : r.at[k][n] = t.vals[n]
    /\ \A k \in DOMAIN r.at : \A n \in DOMAIN t.min \ t.fixed : RLe(t.min[n], r.at[k][n]) /\ RLe(r.at[k][n], t.max[n])
    /\ \A i, j \in DOMAIN t.res.cov : t.res.cov[i][j] = t.res.cov[j][i]]_mcvars
MCRefused == [][~ret'.ok => UNCHANGED mnstate]_mcvars
=============================================================================
