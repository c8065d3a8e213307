------------------------------- MODULE ConfSys -------------------------------
(***************************************************************************)
(* C25: configuration files.  A file is a sequence of lines, a line a       *)
(* sequence of one-character strings; what a file means is spelt out here,  *)
(* character by character.  What is open is what the file meant when it was *)
(* opened, whatever becomes of the file afterwards.                         *)
(***************************************************************************)
EXTENDS Real, Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES files,   \* name -> sequence of lines
          conf,    \* what is open: <<>> or <<[secs: set of paths, vals: <<path, key>> -> value]>>
          ret

cstate == <<files, conf>>
vars == <<files, conf, ret>>

Ok(v) == [ok |-> TRUE, v |-> v]
Refused(why) == [ok |-> FALSE, why |-> why]

Init == files = << >> /\ conf = <<>> /\ ret = Refused("")

(***************************************************************************)
(* The meaning of a file                                                    *)
(***************************************************************************)
Blank == {" ", "\t", "\r", "\n"}
Trim(s) == LET I == {i \in DOMAIN s : s[i] \notin Blank} IN IF I = {} THEN <<>> ELSE SubSeq(s, Min(I), Max(I))
Str(s) == FoldLeft(LAMBDA a, c : a \o c, "", s)
(* how many "[" a heading starts with *)
DepthOf(s) == LET I == {i \in DOMAIN s : s[i] # "["} IN IF I = {} THEN Len(s) ELSE Min(I) - 1
(* a heading is closed by as many "]" as it was opened by "[" *)
Closed(s) == LET d == DepthOf(s) IN 2 * d <= Len(s) /\ \A i \in Len(s) - d + 1 .. Len(s) : s[i] = "]"

NoFile == [bad |-> FALSE, path |-> <<>>, secs |-> {}, vals |-> << >>]
ReadLine(st, line) ==
    LET t == Trim(line) IN
    IF st.bad \/ (line # <<>> /\ line[1] \in {"#", ";"}) \/ t = <<>> THEN st
    ELSE IF t[1] = "["
    THEN LET d == DepthOf(t)
             p == SubSeq(st.path, 1, d - 1) \o <<Str(SubSeq(t, d + 1, Len(t) - d))>>
         IN IF d > Len(st.path) + 1 \/ p \in st.secs THEN [st EXCEPT !.bad = TRUE]
            ELSE [st EXCEPT !.path = p, !.secs = @ \cup {p}]
    ELSE LET I == {i \in DOMAIN t : t[i] = "="}
             n == Min(I)
             k == <<st.path, Str(Trim(SubSeq(t, 1, n - 1)))>>
         IN IF I = {} \/ k \in DOMAIN st.vals THEN [st EXCEPT !.bad = TRUE]
            ELSE [st EXCEPT !.vals = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN Trim(SubSeq(t, n + 1, Len(t))) ELSE @[x]]]
Read(lines) == FoldLeft(ReadLine, NoFile, lines)

(***************************************************************************)
(* The meaning of a value                                                   *)
(***************************************************************************)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
(* the pieces between the commas; an empty piece is no piece *)
Pieces(s) == LET f == FoldLeft(LAMBDA a, c : IF c = "," THEN [done |-> Append(a.done, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, c)],
                               [done |-> <<>>, cur |-> <<>>], s)
             IN SelectSeq(Append(f.done, f.cur), LAMBDA p : p # <<>>)
(* numbers: a sign, digits; for a real also a point and an exponent.  Blanks may come first. *)
Lead(s) == LET I == {i \in DOMAIN s : s[i] \notin Blank} IN IF I = {} THEN <<>> ELSE SubSeq(s, Min(I), Len(s))
Unsign(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in Digits
IsInt(s) == AllDigits(Unsign(s))
Cut(s, cs) == LET I == {i \in DOMAIN s : s[i] \in cs} IN IF I = {} THEN Len(s) + 1 ELSE Min(I)
IsMant(s) == LET n == Cut(s, {"."}) IN
    /\ n # 1 \/ Len(s) > 1
    /\ (n = 1 \/ AllDigits(SubSeq(s, 1, n - 1))) /\ (n >= Len(s) \/ AllDigits(SubSeq(s, n + 1, Len(s))))
IsReal(t) == LET s == Unsign(t)  e == Cut(s, {"e", "E"}) IN
    s # <<>> /\ IsMant(SubSeq(s, 1, e - 1)) /\ (e > Len(s) \/ IsInt(SubSeq(s, e + 1, Len(s))))
(* nothing of it can be read as the start of a number *)
NoNumber(s, real) == LET u == Unsign(s) IN u = <<>> \/ (u[1] \notin Digits /\ ~(real /\ u[1] = "." /\ Len(u) > 1 /\ u[2] \in Digits))
Fits(s) == RLe("-2147483648", Str(s)) /\ RLe(Str(s), "2147483647")
(* what a value is as a number of the given type: <<it>>, or <<>> if it is none *)
AsNum(v, type) == LET s == Lead(v) IN
    CASE type = "int" -> IF IsInt(s) /\ Fits(s) THEN <<R(Str(s))>> ELSE <<>>
      [] OTHER -> IF IsReal(s) THEN <<R(Str(s))>> ELSE <<>>
(* what follows a number, as in "5 m", is nothing this specification speaks of; nor is a fraction read as an integer *)
Sure(v, type) == LET s == Lead(v) IN AsNum(v, type) # <<>> \/ NoNumber(s, type # "int") \/ (type = "int" /\ IsInt(s))

(***************************************************************************)
(* Calls                                                                    *)
(***************************************************************************)
AddLine(f, line) ==
    /\ files' = [x \in DOMAIN files \cup {f} |-> IF x = f THEN Append(IF f \in DOMAIN files THEN files[f] ELSE <<>>, line) ELSE files[x]]
    /\ ret' = Ok(<<>>) /\ UNCHANGED conf
Drop(f) == files' = [x \in DOMAIN files \ {f} |-> files[x]] /\ ret' = Ok(<<>>) /\ UNCHANGED conf
(* a file that is not there or makes no sense leaves what was open open *)
Open(f) ==
    /\ UNCHANGED files
    /\ IF f \in DOMAIN files /\ ~Read(files[f]).bad
       THEN LET r == Read(files[f]) IN conf' = <<[secs |-> r.secs, vals |-> r.vals]>> /\ ret' = Ok(<<>>)
       ELSE conf' = conf /\ ret' = Refused("")
Close == conf' = <<>> /\ ret' = Ok(<<>>) /\ UNCHANGED files
(* the sections of the first level *)
Sections == ret' = Ok(IF conf = <<>> THEN {} ELSE {p[1] : p \in {q \in conf[1].secs : Len(q) = 1}}) /\ UNCHANGED cstate

Why(s, k) == IF conf = <<>> THEN "closed" ELSE IF <<s>> \notin conf[1].secs THEN "section" ELSE IF <<<<s>>, k>> \notin DOMAIN conf[1].vals THEN "field" ELSE ""
ValOf(s, k) == conf[1].vals[<<<<s>>, k>>]
LoadStr(s, k) == ret' = (IF Why(s, k) # "" THEN Refused(Why(s, k)) ELSE Ok(Str(ValOf(s, k)))) /\ UNCHANGED cstate
SureLoad(s, k, type) == Why(s, k) = "" => Sure(ValOf(s, k), type)
SureLoads(s, k, type) == Why(s, k) = "" => \A p \in ToSet(Pieces(ValOf(s, k))) : Sure(p, type)
LoadNum(s, k, type) ==
    /\ ret' = (IF Why(s, k) # "" THEN Refused(Why(s, k))
               ELSE LET n == AsNum(ValOf(s, k), type) IN IF n = <<>> THEN Refused("value") ELSE Ok(n[1]))
    /\ UNCHANGED cstate
(* what a container held before stays in front *)
LoadStrs(s, k, pre) ==
    /\ ret' = (IF Why(s, k) # "" THEN Refused(Why(s, k))
               ELSE LET p == Pieces(ValOf(s, k)) IN Ok(pre \o [i \in DOMAIN p |-> Str(p[i])]))
    /\ UNCHANGED cstate
LoadNums(s, k, type, pre) ==
    /\ ret' = (IF Why(s, k) # "" THEN Refused(Why(s, k))
               ELSE LET p == Pieces(ValOf(s, k)) IN
                    IF \E i \in DOMAIN p : AsNum(p[i], type) = <<>> THEN Refused("value")
                    ELSE Ok(pre \o [i \in DOMAIN p |-> AsNum(p[i], type)[1]]))
    /\ UNCHANGED cstate
=============================================================================
