------------------------------- MODULE ChainMC -------------------------------
(* Exhaustive chains of a few steps over ChainSys; prints tests. *)
EXTENDS ChainSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLES walk,  \* the chain so far: [c, us: numbers for the start, st, steps], or << >>
          log
mcvars == <<cvars, walk, log>>
On(o) == o \in Ops
MCInit == CInit /\ walk = << >> /\ log = <<>>
T(k, x) == [k |-> k, x |-> x]
Stat == [names |-> {"x","y-1"}, terms |-> <<T("1", <<"x","x">>), T("-1/2", <<"x","y-1">>), T("1/2", <<"y-1">>), T("3/2", <<>>)>>]
StatJ == [op |-> "StNew", h |-> "s", names |-> <<"x","y-1">>, terms |-> Stat.terms]
P(a, b) == ("x" :> a) @@ ("y-1" :> b)
Lo == P("-1", "0")
Hi == P("1", "1")
AxX == Axis("x", "", <<"-1","-1/4">>, <<"-1/4","1">>)
AxY == Axis("y-1", "", <<"0","1/2","3/4">>, <<"1/2","3/4","1">>)
Conf(start, flip, logged, burn, thin, full, save, axes) ==
    [min |-> Lo, max |-> Hi, start |-> start, flip |-> flip, logged |-> logged, iter |-> 0, burn |-> burn, thin |-> thin, full |-> full, save |-> save, axes |-> axes]
S0 == P("1/2", "1/4")
Confs == {Conf(S0, FALSE, TRUE, 0, 1, FALSE, FALSE, <<>>), Conf(S0, TRUE, TRUE, 0, 2, FALSE, TRUE, <<AxY, AxX>>), Conf(S0, FALSE, FALSE, 1, 1, TRUE, FALSE, <<AxX, AxY>>),
          Conf(<<>>, TRUE, TRUE, 0, 1, TRUE, TRUE, <<AxY, AxX>>), Conf(<<>>, FALSE, FALSE, 1, 2, FALSE, TRUE, <<>>), Conf(P("1", "0"), TRUE, FALSE, 0, 1, TRUE, FALSE, <<>>)}
Props == {P("1/2", "1"), P("-1", "3/4"), P("1/4", "0"), P("5/4", "1/2"), P("0", "-1/8")}
DJ(f) == [k \in 1..Cardinality(DOMAIN f) |-> LET n == SetToSeq(DOMAIN f)[k] IN <<n, f[n]>>]
AJ(as) == [d \in 1..Len(as) |-> [name |-> as[d].name, lo |-> as[d].lo, hi |-> as[d].hi]]
ConfJ(c, n) == [op |-> "ChNew", c |-> "c", min |-> DJ(c.min), max |-> DJ(c.max), start |-> DJ(c.start), flip |-> c.flip, logged |-> c.logged, iter |-> n, burn |-> c.burn,
                thin |-> c.thin, full |-> c.full, save |-> c.save, axes |-> AJ(c.axes)]
RunJ(us, steps) == [op |-> "ChRun", c |-> "c", s |-> "s", sm |-> [kind |-> "script"], su |-> us, names |-> << <<"x","x">>, <<"y-1","y_1">> >>,
                    steps |-> [k \in 1..Len(steps) |-> [p |-> DJ(steps[k].p), corr |-> steps[k].corr, g |-> <<>>, u |-> <<steps[k].u>>]]]
Script(c, us, steps) == <<StatJ, ConfJ(c, Len(steps)), RunJ(us, steps)>>

DoStart == On("Walk") /\ walk = << >> /\
    \E c \in Confs : \E us \in IF c.start = << >> THEN {<<"1/4", "1/2">>} ELSE {<<>>} :
       /\ stats' = ("s" :> Stat) /\ chains' = ("c" :> c) /\ ret' = Done /\ UNCHANGED <<grids, fits, acs, orbs>>
       (* the first number is for x: any order would do *)
       /\ walk' = [c |-> c, us |-> us, steps |-> <<>>,
                   st |-> Started(c, "s", IF c.start # << >> THEN c.start
                                          ELSE [n \in {"x","y-1"} |-> RAdd(c.min[n], RMul(us[IF n = "x" THEN 1 ELSE 2], RSub(c.max[n], c.min[n])))])']
       /\ log' = Script(c, us, <<>>)
DoStep == On("Walk") /\ walk # << >> /\ UNCHANGED cvars /\
    \E p \in Props, corr \in {"0", "1/2"} : LET c == walk.c IN
       /\ (~c.logged => corr = "0") /\ (corr # "0" => p["x"] = "1/4")
       /\ \E u \in IF Decides(c, "s", walk.st, p, corr) THEN {"1/4", "7/8"} ELSE {"1/2"} :
             LET t == Taken(c, "s", walk.st, p, <<u>>, corr)  steps == Append(walk.steps, [p |-> p, corr |-> corr, u |-> u]) IN
             walk' = [walk EXCEPT !.st = Stepped(c, "s", @, p, t), !.steps = steps] /\ log' = Script(c, walk.us, steps)

(* what is refused, and what is not *)
Dicts == {<<>>, P("0", "1"), ("x" :> "0"), ("x" :> "0") @@ ("z" :> "1"), P("0", "1") @@ ("z" :> "2")}
DoRefuse == On("Refuse") /\ walk = << >> /\
    \E mn, mx, st \in Dicts, ax \in {<<>>, <<AxX>>, <<AxY, AxX>>, <<AxX, Axis("z", "", <<"0">>, <<"1">>)>>} :
       LET c == [Conf(st, FALSE, TRUE, 0, 1, FALSE, FALSE, ax) EXCEPT !.min = mn, !.max = mx] IN
       /\ stats' = ("s" :> Stat) /\ chains' = ("c" :> c) /\ UNCHANGED <<grids, fits, acs, orbs>>
       /\ ret' = (IF Runs([c EXCEPT !.iter = 1], "s")' THEN Done ELSE Refused)
       /\ walk' = [c |-> c] /\ log' = Script(c, <<"1/4", "1/2">>, <<[p |-> P("1/8", "1/4"), corr |-> "0", u |-> "1/2"]>>)
SamJ(h, c) == [op |-> "SmNew", h |-> h, min |-> DJ(c.min), max |-> DJ(c.max), start |-> <<>>, flip |-> FALSE, logged |-> TRUE, iter |-> 9,
               burn |-> c.burn, thin |-> c.thin, full |-> c.full, save |-> c.save, axes |-> AJ(c.axes)]
DoSam == On("Sam") /\ UNCHANGED walk /\
    LET Add(o) == log' = Append(log, o) IN
    \/ chains = << >> /\ \E c \in Confs : c.start # <<>> /\ c.axes # <<>> /\ SmNew("m", [c EXCEPT !.start = <<>>]) /\ Add(SamJ("m", c))
    \/ chains # << >> /\
        \/ \E p \in {S0, P("3/4", "7/8")}, acc \in BOOLEAN : chains["m"].z.n < 4 /\ SmFill("m", p, p["x"], acc) /\ Add([op |-> "SmFill", h |-> "m", at |-> DJ(p), v |-> p["x"], acc |-> acc])
        \/ chains["m"].z.n > 0 /\ SmClear("m") /\ Add([op |-> "SmClear", h |-> "m"])
        \/ SmGet("m") /\ Add([op |-> "SmGet", h |-> "m", names |-> << <<"x","x">>, <<"y-1","y_1">> >>, told |-> chains["m"].z.n > 0])
(* an account counts every step once, and keeps what it has counted *)
SamLaw == \A h \in DOMAIN chains : "z" \in DOMAIN chains[h] => LET z == chains[h].z IN
    /\ z.acc <= z.n /\ Len(z.rows) = z.n /\ Len(z.pts) = Len(z.vals) /\ Len(z.pts) <= z.n
    /\ z.acc = Cardinality({k \in 1..Len(z.rows) : z.rows[k].acc})
MCNext == DoStart \/ DoStep \/ DoRefuse \/ DoSam \/ DoStep \/ DoRefuse
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<walk, IF On("Sam") THEN chains ELSE << >> >>
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
Walking == On("Walk") /\ walk # << >>
RMaxOf(s) == FoldLeft(LAMBDA a, x : IF RLt(a, x) THEN x ELSE a, s[1], s)
WalkLaw == Walking =>
    LET st == walk.st  c == walk.c IN
    (* a chain that starts in range stays there *)
    /\ InRange(c, st.cur)
    /\ st.val = ValueAt(c, "s", st.cur)
    /\ st.n = Len(walk.steps) /\ Len(st.rows) = st.n
    /\ st.acc = Cardinality({k \in 1..st.n : st.rows[k].acc})
    (* it is where it proposed to go, or where it was *)
    /\ \A k \in 1..st.n : IF st.rows[k].acc THEN st.rows[k].at = walk.steps[k].p ELSE k > 1 => st.rows[k].at = st.rows[k - 1].at /\ st.rows[k].v = st.rows[k - 1].v
    (* the best is the best of all places it has been *)
    /\ \A k \in 1..st.n : RLe(st.rows[k].v, st.bestv)
    /\ \A p \in st.best : ValueAt(c, "s", p) = st.bestv
    /\ Len(st.pts) = Cardinality({k \in 0..st.n - 1 : Counted(c, k)})
(* between any two places, as often there as back: in proportion to what is sampled *)
Density(c, v) == IF c.logged THEN RExp(v) ELSE v
BalanceLaw == Walking /\ walk.steps = <<>> =>
    \A p, q \in {x \in Props : InRange(walk.c, x)} : LET c == walk.c  v == ValueAt(c, "s", p)  w == ValueAt(c, "s", q) IN
       RLt("0", v) \/ c.logged => RClose(RMul(Density(c, v), Chance(c, v, w, "0")), RMul(Density(c, w), Chance(c, w, v, "0")))
=============================================================================
