------------------------------- MODULE AxesMC -------------------------------
(* Exhaustive instance of AxesSys; prints one test per transition. *)
EXTENDS AxesSys, Json

CONSTANTS MaxDim, DoEmit
VARIABLE log

mcvars == <<vars, log>>
Edges == { <<<<"0","1">>, <<"1","3">>>>,                     \* uneven
           <<<<"-1","-1/2","2">>, <<"-1/2","2","4">>>>,
           <<<<"0">>, <<"1/4">>>> }
BadEdges == { <<<<"1","0">>, <<"2","1">>>>, <<<<"1">>, <<"0">>>>, <<<<"0","1">>, <<"1">>>>, <<<<>>, <<>>>> }
Eq == { <<"0","2",1>>, <<"-1","1",2>>, <<"0","3",3>> }
BadEq == { <<"1","1",2>>, <<"2","1",2>>, <<"0","1",0>> }
Vals == {"-5","-1","-3/4","-1/2","0","1/2","1","3/2","2","5/2","3","4","9"}
Hs == {"p","q"}
Nm == {"x","y","z"}

Log(o) == log' = Append(log, o)

MCInit == Init /\ log = <<>>

DoNewEq == \E h \in Hs, n \in Nm, e \in Eq \cup BadEq :
    /\ h \notin DOMAIN axs
    /\ LET lo == EqLo(e[1], e[2], e[3]) hi == EqHi(e[1], e[2], e[3])
       IN NewEqAxis(h, n, "", e[1], e[2], e[3], IF EqValid(e[1],e[2],e[3]) THEN lo ELSE <<>>, IF EqValid(e[1],e[2],e[3]) THEN hi ELSE <<>>)
    /\ Log([op |-> "NewEq", h |-> h, name |-> n, latex |-> "", min |-> e[1], max |-> e[2], n |-> e[3]])
DoNewEdge == \E h \in Hs, n \in Nm, e \in Edges \cup BadEdges :
    /\ h \notin DOMAIN axs
    /\ NewEdgeAxis(h, n, "L", e[1], e[2])
    /\ Log([op |-> "NewEdge", h |-> h, name |-> n, latex |-> "L", lo |-> e[1], hi |-> e[2]])
DoAxisFind == \E h \in DOMAIN axs, v \in Vals : AxisFind(h, v) /\ Log([op |-> "AxisFind", h |-> h, v |-> v])
DoAxisBin == \E h \in DOMAIN axs, i \in 0..4 : AxisBin(h, i) /\ Log([op |-> "AxisBin", h |-> h, i |-> i])
DoAxisEq == \E h, g \in DOMAIN axs : AxisEq(h, g) /\ Log([op |-> "AxisEq", h |-> h, g |-> g])
DoNewCol == "c" \notin DOMAIN cols /\ NewCol("c") /\ Log([op |-> "NewCol", c |-> "c"])
DoAddAxis == \E c \in DOMAIN cols, h \in DOMAIN axs :
    /\ Len(cols[c]) < MaxDim \/ HasName(cols[c], axs[h].name)
    /\ AddAxis(c, h) /\ Log([op |-> "AddAxis", c |-> c, h |-> h])
DoAddAxes == \E c \in DOMAIN cols, h, g \in DOMAIN axs : LET hs == <<h, g>> k == Fits(cols[c], hs) IN
    /\ Len(cols[c]) + 2 <= MaxDim \/ k < 2
    /\ \E j \in (IF k = 2 THEN {2} ELSE 0..k) : AddAxes(c, hs, j) /\ Log([op |-> "AddAxes", c |-> c, hs |-> hs])
DoColFind == \E c \in DOMAIN cols : \E v1, v2 \in {"-5","-1/2","1","5/2","9"} :
    /\ Len(cols[c]) > 0
    /\ LET vs == IF Len(cols[c]) = 1 THEN <<v1>> ELSE [d \in 1..Len(cols[c]) |-> IF d = 1 THEN v1 ELSE v2]
       IN ColFind(c, vs) /\ Log([op |-> "ColFind", c |-> c, vals |-> vs])
DoFlatten == \E c \in DOMAIN cols : \E t \in Tuples(cols[c]) :
    /\ Len(cols[c]) > 0 /\ Flatten(c, t) /\ Log([op |-> "Flatten", c |-> c, idx |-> t])
DoUnpack == \E c \in DOMAIN cols : \E b \in 0..NBins(cols[c]) :
    Len(cols[c]) > 0 /\ Unpack(c, b) /\ Log([op |-> "Unpack", c |-> c, bin |-> b])
DoColBin == \E c \in DOMAIN cols : \E b \in 0..NBins(cols[c]), d \in 0..Len(cols[c]) :
    Len(cols[c]) > 0 /\ ColBin(c, b, d) /\ Log([op |-> "ColBin", c |-> c, bin |-> b, dim |-> d])
DoColBinAll == \E c \in DOMAIN cols : \E b \in 0..NBins(cols[c]), short \in {0, 1} :
    /\ Len(cols[c]) > 0 /\ (short = 1 => b = 0)
    /\ ColBinAll(c, b, Len(cols[c]) - short)
    /\ Log([op |-> "ColBinAll", c |-> c, bin |-> b, room |-> Len(cols[c]) - short])
DoColAxis == \E c \in DOMAIN cols, n \in Nm : ColAxis(c, n) /\ Log([op |-> "ColAxis", c |-> c, name |-> n])
DoColAxisAt == \E c \in DOMAIN cols, i \in 0..MaxDim : ColAxisAt(c, i) /\ Log([op |-> "ColAxisAt", c |-> c, i |-> i])

MCNext == DoNewEq \/ DoNewEdge \/ DoAxisFind \/ DoAxisBin \/ DoAxisEq \/ DoNewCol \/ DoAddAxis \/ DoAddAxes
          \/ DoColFind \/ DoFlatten \/ DoUnpack \/ DoColBin \/ DoColBinAll \/ DoColAxis \/ DoColAxisAt

MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<axs, cols>>
Emit == DoEmit => PrintT("@@" \o ToJson(log'))
PartitionInv == Partition(Vals)
MCRefusedIsNoop == [][ret' = Refused => /\ UNCHANGED axs
                                        /\ (UNCHANGED cols \/ log'[Len(log')].op = "AddAxes")]_mcvars
MCAppendOnly == [][\A c \in DOMAIN cols :
                    /\ Len(cols'[c]) >= Len(cols[c])
                    /\ SubSeq(cols'[c], 1, Len(cols[c])) = cols[c]]_mcvars
(* collections are kept in a canonical build order to limit permutations *)
=============================================================================
