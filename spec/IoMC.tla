-------------------------------- MODULE IoMC --------------------------------
(* Exhaustive instance of IoSys; prints one test per transition. *)
EXTENDS IoSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<iovars, log>>
In(p) == p \in Ops
Log(o) == log' = Append(log, o)
MCInit == IoInit /\ log = <<>>
Rec(h, names, rows) == [op |-> "IoDs", h |-> h, names |-> names, rows |-> rows]

A == <<"a", "h5">>   B == <<"b", "h5">>   C == <<"c", "root">>
Third == "1/3"
N2 == <<<<"x">>, <<"y z">>>>
Sets == { <<N2, << <<"1", "2">>, <<"-0.5", Third>> >> >>, <<N2, << <<"7", "1e300">> >> >>, <<N2, <<>> >>, <<<<>>, <<>> >>,
          <<<<<<"x">>>>, << <<"1", "2">> >> >>, << <<<<"x">>, <<"y", "z">>>>, << <<"1", "2">> >> >>, << <<<<"">>>>, << <<"inf">>, <<"nan">>, <<"3">> >> >> }

(* data sets through files of all kinds *)
DoData == In("Data") /\
    \/ dsets = << >> /\ \E s \in Sets : IoDs("p", s[1], s[2]) /\ Log(Rec("p", s[1], s[2]))
    \/ \E h \in DOMAIN dsets :
        \/ \E f \in {A, <<"a.x", "h5">>, C, <<"a">>, <<"a", "txt">>} : (f = C => <<"">> \notin {dsets[h].names[k] : k \in DOMAIN dsets[h].names}) /\ IoSave("ds", h, f, "t") /\ Log([op |-> "IoSave", from |-> "ds", h |-> h, f |-> f, tree |-> "t"])
        \/ IoGet("ds", h) /\ Log([op |-> "IoGet", from |-> "ds", h |-> h])
        \/ IoRows("ds", h) /\ Log([op |-> "IoRows", from |-> "ds", h |-> h])
        \/ \E i \in 0..2 : dsets[h].n <= 2 /\ IoEntry("ds", h, i) /\ Log([op |-> "IoEntry", from |-> "ds", h |-> h, i |-> i])
    \/ \E f \in {A, <<"a.x", "h5">>, C} : IoLoad(f, "q") /\ Log([op |-> "IoLoad", f |-> f, h |-> "q"])
    \/ \E f \in {A} : \/ IoRm(f) /\ Log([op |-> "IoRm", f |-> f])
                      \/ IoJunk(f) /\ Log([op |-> "IoJunk", f |-> f])
    \/ \E t \in {"t", "u"}, k \in {"tree", "ntuple"} : dsets # << >> /\ rds = << >> /\ RtOpen("r", C, t, k) /\ Log([op |-> "RtOpen", r |-> "r", f |-> C, tree |-> t, kind |-> k])
    \/ \E r \in DOMAIN rds : \/ IoRows("root", r) /\ Log([op |-> "IoRows", from |-> "root", h |-> r])
                             \/ IoGet("root", r) /\ Log([op |-> "IoGet", from |-> "root", h |-> r])
                             \/ IoSave("root", r, A, "t") /\ Log([op |-> "IoSave", from |-> "root", h |-> r, f |-> A, tree |-> "t"])

(* two files that change under three lazy data sets *)
L1 == <<N2, << <<"1", "2">> >> >>   L2 == <<N2, << <<"3", "4">>, <<"5", "6">> >> >>
Pre == << Rec("p", L1[1], L1[2]), Rec("q", L2[1], L2[2]), [op |-> "LzNew", l |-> "k", f |-> A], [op |-> "LzNew", l |-> "m", f |-> B],
          [op |-> "IoSave", from |-> "ds", h |-> "p", f |-> A, tree |-> ""] >>
DoLazyStart == In("Lazy") /\ dsets = << >> /\ dsets' = ("p" :> SetOf(L1[1], L1[2]) @@ "q" :> SetOf(L2[1], L2[2]))
    /\ lazy' = ("k" :> [file |-> A, mem |-> <<>>] @@ "m" :> [file |-> B, mem |-> <<>>]) /\ disk' = (A :> [kind |-> "ds", set |-> SetOf(L1[1], L1[2])])
    /\ ret' = Done /\ UNCHANGED <<hists, rds>> /\ log' = Pre
DoLazy == In("Lazy") /\ dsets # << >> /\
    \/ \E h \in {"p", "q"}, f \in {A, B} : IoSave("ds", h, f, "") /\ Log([op |-> "IoSave", from |-> "ds", h |-> h, f |-> f, tree |-> ""])
    \/ IoRm(A) /\ Log([op |-> "IoRm", f |-> A])
    \/ \E l \in DOMAIN lazy :
        \/ IoRows("lazy", l) /\ Log([op |-> "IoRows", from |-> "lazy", h |-> l])
        \/ IoGet("lazy", l) /\ Log([op |-> "IoGet", from |-> "lazy", h |-> l])
        \/ \E i \in 0..1 : IoEntry("lazy", l, i) /\ Log([op |-> "IoEntry", from |-> "lazy", h |-> l, i |-> i])
        \/ LzLoad(l) /\ Log([op |-> "LzLoad", l |-> l])
        \/ LzClose(l) /\ Log([op |-> "LzClose", l |-> l])
        \/ "n" \notin DOMAIN lazy /\ LzCopy(l, "n") /\ Log([op |-> "LzCopy", l |-> l, to |-> "n"])
        \/ \E t \in DOMAIN lazy : LzAssign(l, t) /\ Log([op |-> "LzAssign", l |-> l, to |-> t])
        \/ l # "k" /\ LzDel(l) /\ Log([op |-> "LzDel", l |-> l])
        \/ \E f \in {A, B} : IoSave("lazy", l, f, "") /\ Log([op |-> "IoSave", from |-> "lazy", h |-> l, f |-> f, tree |-> ""])

(* histograms of one to three dimensions *)
X == [name |-> <<"x">>, latex |-> <<"x">>, lo |-> <<"0", "1">>, hi |-> <<"1", "3">>]
Y == [name |-> <<"y">>, latex |-> <<"Y_{e}">>, lo |-> <<"-1", Third, "2">>, hi |-> <<Third, "2", "4">>]
Z == [name |-> <<"z", "z">>, latex |-> <<"z", "z">>, lo |-> <<"0">>, hi |-> <<"1">>]
Count(n) == [b \in 1..n |-> IF b = 2 THEN Third ELSE RMul(b, "-3/2")]
HSets == { <<X>>, <<Y>>, <<X, Y>>, <<Y, X>>, <<X, Y, [X EXCEPT !.name = <<"w">>]>>, <<Z>>, <<[X EXCEPT !.latex = <<"x", "[m]">>]>> }
DoHist == In("Hist") /\
    \/ "h" \notin DOMAIN hists /\ \E axes \in HSets : LET c == Count(NBins(axes)) IN IoHist("h", axes, c) /\ Log([op |-> "IoHist", h |-> "h", axes |-> axes, c |-> c])
    \/ \E h \in DOMAIN hists :
        \/ \E f \in {A, C, <<"a">>, <<"a", "txt">>} : IoSaveHist(h, f, "n") /\ Log([op |-> "IoSaveHist", h |-> h, f |-> f, name |-> "n"])
        \/ IoHistGet(h) /\ Log([op |-> "IoHistGet", h |-> h])
        \/ \E dim \in 1..3, w \in BOOLEAN : (w => dim = 1) /\ DtTo(h, dim, w) /\ \E e \in BOOLEAN : Log([op |-> "DtTo", h |-> h, dim |-> dim, width |-> w, ed |-> e])
    \/ \E f \in {A, B, C} : IoLoadHist(f, "g") /\ Log([op |-> "IoLoadHist", f |-> f, h |-> "g"])
    \/ DOMAIN hists # {} /\ IoJunk(A) /\ Log([op |-> "IoJunk", f |-> A])
    \/ DOMAIN hists # {} /\ IoLoad(A, "q") /\ Log([op |-> "IoLoad", f |-> A, h |-> "q"])
    \/ DOMAIN disk # {} /\ \E n \in {"n", "m"} : IoSeeTh(C, n) /\ Log([op |-> "IoSeeTh", f |-> C, name |-> n])
    \/ \E axes \in { <<[title |-> <<"x">>, edges |-> <<"0", "1", "4">>]>>, <<[title |-> <<"x">>, edges |-> <<"0", "1", "4">>], [title |-> <<"y">>, edges |-> <<"0", "1/4", "1", "5">>]>>,
                     <<[title |-> <<"x">>, edges |-> <<"0", "1", "4">>], [title |-> <<"y">>, edges |-> <<"0", "1/4", "1", "5">>], [title |-> <<"z">>, edges |-> <<"-4", "0", "1">>]>> } :
        LET n == FoldLeft(LAMBDA a, x : a * (Len(x.edges) - 1), 1, axes) IN
        "g" \notin DOMAIN hists /\ DtFrom("g", axes, Count(n)) /\ Log([op |-> "DtFrom", to |-> "g", axes |-> axes, c |-> Count(n)])

(* trees of floats and others, read as either *)
DoRoot == In("Root") /\
    \/ \E t \in {"t", "u"}, nt \in BOOLEAN : LET names == <<"b", "a">> types == IF nt THEN <<"F", "F">> ELSE <<"D", "F">> rows == IF t = "t" THEN << <<Third, "1/10">>, <<"2", "3">> >> ELSE <<>> IN
        RtTree(C, t, names, types, rows, nt) /\ Log([op |-> "RtTree", f |-> C, tree |-> t, names |-> names, types |-> types, rows |-> rows, nt |-> nt])
    \/ \E t \in {"t", "u"}, k \in {"tree", "ntuple"} : RtOpen("r", C, t, k) /\ Log([op |-> "RtOpen", r |-> "r", f |-> C, tree |-> t, kind |-> k])
    \/ IoJunk(C) /\ Log([op |-> "IoJunk", f |-> C])
    \/ \E r \in DOMAIN rds :
        \/ IoRows("root", r) /\ Log([op |-> "IoRows", from |-> "root", h |-> r])
        \/ IoGet("root", r) /\ Log([op |-> "IoGet", from |-> "root", h |-> r])
        \/ \E i \in 0..2 : IoEntry("root", r, i) /\ Log([op |-> "IoEntry", from |-> "root", h |-> r, i |-> i])
        \/ RtBaskets(r) /\ Log([op |-> "RtBaskets", r |-> r])
        \/ RtDel(r) /\ Log([op |-> "RtDel", r |-> r])
        \/ \E f \in {A, C} : IoSave("root", r, f, "u") /\ Log([op |-> "IoSave", from |-> "root", h |-> r, f |-> f, tree |-> "u"])
    \/ IoLoad(A, "q") /\ Log([op |-> "IoLoad", f |-> A, h |-> "q"])
    \/ \E h \in DOMAIN dsets : IoRows("ds", h) /\ Log([op |-> "IoRows", from |-> "ds", h |-> h])

MCNext == DoData \/ DoLazyStart \/ DoLazy \/ DoHist \/ DoRoot
MCSpec == MCInit /\ [][MCNext]_mcvars
View == iostate
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
(* what can be saved comes back: exactly from .h5, as floats from .root, and a second time the same *)
RoundTrip == \A h \in DOMAIN dsets : LET d == dsets[h] IN
    /\ Savable(A, d) => Written(A, "t", d)[A].set = d
    /\ Savable(C, d) /\ d.names # <<>> => LET e == Written(C, "t", d)[C].trees["t"].d IN
            e.n = d.n /\ e.names = d.names /\ Floats(e.rows) = e.rows
            /\ \A i \in 1..Len(d.rows), j \in 1..d.nobs : RIsFinite(d.rows[i][j]) /\ RLt(RAbs(d.rows[i][j]), "1e30") => RTol(e.rows[i][j], d.rows[i][j], "6e-8", "1e-37")
(* converting to ROOT and back keeps edges and contents *)
ThereAndBack == \A h \in DOMAIN hists : \A d \in DOMAIN hists[h].axes :
    LET t == Th(hists[h], FALSE).axes[d] a == hists[h].axes[d] IN
    \A k \in DOMAIN a.lo : t.edges[k] = a.lo[k] /\ t.edges[k + 1] = a.hi[k]
MCRefused == [][~ret'.ok => UNCHANGED <<dsets, hists, disk, rds>>]_mcvars
(* asking a lazy data set twice gives the same unless it was closed in between *)
Stable == [][\A l \in DOMAIN lazy : l \in DOMAIN lazy' => (lazy[l].mem # <<>> /\ lazy'[l].mem # <<>> /\ lazy'[l].mem # lazy[l].mem => log'[Len(log')].op = "LzLoad")]_mcvars
=============================================================================
