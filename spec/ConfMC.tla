------------------------------- MODULE ConfMC -------------------------------
(* Exhaustive instance of ConfSys; prints one test per transition. *)
EXTENDS ConfSys, Json

CONSTANTS MaxLevel, DoEmit, Ops
VARIABLE log
mcvars == <<vars, log>>
On(p) == p \in Ops
Log(o) == log' = Append(log, o)

(* what a line may be *)
Grammar == { <<"[","a","]">>, <<"[","b","]"," ">>, <<"[","[","a","]","]">>, <<" ","k"," ","="," ","1"," ">>, <<"k","=","x","=","y">>,
             <<"m","=","1",","," ","2",",",",","3">>, <<"#","k","=","2">>, <<" ",";","k">>, <<" ","\t">>, <<>>, <<"=","5","\r">> }
Values == { <<>>, <<"5">>, <<"-","5">>, <<"+","0","7">>, <<".","5">>, <<"2",".">>, <<"1","e","2">>, <<"-","1",".","5","E","-","1">>,
            <<"x">>, <<"-">>, <<".">>, <<"e","5">>, <<"2","1","4","7","4","8","3","6","4","7">>, <<"2","1","4","7","4","8","3","6","4","8">>,
            <<"-","2","1","4","7","4","8","3","6","4","9">>, <<"1",","," ","2",","," ","-","3">>, <<",",",">>, <<"a",","," ","b">>, <<"4",",","x">>, <<"0">> }
MCInit == Init /\ log = <<>>

DoWrite == On("Parse") /\ conf = <<>> /\ \E line \in Grammar : AddLine("f", line) /\ Log([op |-> "AddLine", f |-> "f", line |-> line])
DoOpen == On("Parse") /\ conf = <<>> /\ Open("f") /\ Log([op |-> "Open", f |-> "f"])
DoAsk == On("Parse") /\ conf # <<>> /\
    \/ Sections /\ Log([op |-> "Sections"])
    \/ \E s \in {"a", "b"}, k \in {"k", "m", ""} :
        \/ LoadStr(s, k) /\ Log([op |-> "LoadStr", s |-> s, k |-> k])
        \/ s = "a" /\ k = "m" /\ LoadStrs(s, k, <<"0">>) /\ Log([op |-> "LoadStrs", s |-> s, k |-> k, pre |-> <<"0">>, kind |-> "vector"])

(* one file of one section and one field; then a second, and openings that fail *)
DoVal == On("Value") /\ conf = <<>> /\ files = << >> /\ \E v \in Values :
    /\ files' = [x \in {"f"} |-> <<<<"[","s","]">>, <<"v","=">> \o v>>] /\ conf' = <<[secs |-> {<<"s">>}, vals |-> (<<<<"s">>, "v">> :> v)]>>
    /\ ret' = Ok(<<>>)
    /\ log' = log \o <<[op |-> "AddLine", f |-> "f", line |-> <<"[","s","]">>], [op |-> "AddLine", f |-> "f", line |-> <<"v","=">> \o v], [op |-> "Open", f |-> "f"]>>
DoLoad == On("Value") /\ conf # <<>> /\ \E s \in {"s", "t"}, k \in {"v", "w"} :
    \/ LoadStr(s, k) /\ Log([op |-> "LoadStr", s |-> s, k |-> k])
    \/ \E t \in {"int", "double"} :
        \/ LoadNum(s, k, t) /\ Log([op |-> "LoadNum", s |-> s, k |-> k, type |-> t])
        \/ \E kind \in {"vector", "list", "set"}, pre \in {<<>>, <<"9">>} :
            LoadNums(s, k, t, pre) /\ Log([op |-> "LoadNums", s |-> s, k |-> k, type |-> t, pre |-> pre, kind |-> kind])
    \/ \E kind \in {"vector", "list", "set"}, pre \in {<<>>, <<"b", "9">>} :
        LoadStrs(s, k, pre) /\ Log([op |-> "LoadStrs", s |-> s, k |-> k, pre |-> pre, kind |-> kind])

(* histories: two files that change, open, closed, opened again *)
Hist == { <<"[","s","]">>, <<"v","=","1">>, <<"w","=","2">>, <<"!">> }
DoHist == On("History") /\
    \/ \E f \in {"f", "g"}, line \in Hist : (IF f \in DOMAIN files THEN Len(files[f]) < 2 ELSE TRUE) /\ AddLine(f, line) /\ Log([op |-> "AddLine", f |-> f, line |-> line])
    \/ \E f \in {"f", "g"} : f \in DOMAIN files /\ Drop(f) /\ Log([op |-> "Remove", f |-> f])
    \/ \E f \in {"f", "g"} : Open(f) /\ Log([op |-> "Open", f |-> f])
    \/ Close /\ Log([op |-> "Close"])
    \/ Sections /\ Log([op |-> "Sections"])
    \/ \E k \in {"v", "w"} : LoadStr("s", k) /\ Log([op |-> "LoadStr", s |-> "s", k |-> k])
    \/ LoadNum("s", "v", "int") /\ Log([op |-> "LoadNum", s |-> "s", k |-> "v", type |-> "int"])

MCNext == DoWrite \/ DoOpen \/ DoAsk \/ DoVal \/ DoLoad \/ DoHist
MCSpec == MCInit /\ [][MCNext]_mcvars
View == cstate
Depth == TLCGet("level") < MaxLevel
Emit == DoEmit => PrintT("@@" \o ToJson(log'))

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
Readable(f) == f \in DOMAIN files /\ ~Read(files[f]).bad
(* every value belongs to a section that was announced (or to none); every section but the outermost lies in one *)
TreeLaw == \A f \in DOMAIN files : LET r == Read(files[f]) IN
    /\ \A x \in DOMAIN r.vals : x[1] = <<>> \/ x[1] \in r.secs
    /\ \A p \in r.secs : Len(p) > 1 => Front(p) \in r.secs
    /\ \A x \in DOMAIN r.vals : Trim(r.vals[x]) = r.vals[x]
(* a comment or an empty line anywhere changes nothing *)
IdleLaw == \A f \in DOMAIN files : \A i \in 1..Len(files[f]) + 1 : \A line \in {<<"#", "[", "q">>, <<" ", " ">>, <<>>} :
    Read(SubSeq(files[f], 1, i - 1) \o <<line>> \o SubSeq(files[f], i, Len(files[f]))) = Read(files[f])
(* a prefix of a readable file is readable and means no more *)
PrefixLaw == \A f \in DOMAIN files : Readable(f) => \A i \in 0..Len(files[f]) :
    LET p == Read(SubSeq(files[f], 1, i)) r == Read(files[f]) IN
    ~p.bad /\ p.secs \subseteq r.secs /\ DOMAIN p.vals \subseteq DOMAIN r.vals /\ \A x \in DOMAIN p.vals : p.vals[x] = r.vals[x]
MCRefusedIsNoop == [][~ret'.ok => UNCHANGED cstate]_mcvars
(* what is open changes only by opening and closing *)
Snapshot == [][conf' # conf => Len(log') > Len(log) /\ log'[Len(log')].op \in {"Open", "Close"}]_mcvars
=============================================================================
