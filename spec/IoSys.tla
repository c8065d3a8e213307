------------------------------- MODULE IoSys -------------------------------
(***************************************************************************)
(* C24: what is written to a file and read from one.                        *)
(*                                                                          *)
(* A file has a name f == <<stem, extension>> (or <<stem>> if it has none)   *)
(* and holds one data set, one histogram, trees, or something else.  What is *)
(* loaded is what was saved: exactly for .h5, rounded to single precision    *)
(* for the ntuples of .root.  A lazy data set reads its file when it is      *)
(* first asked and forgets it when another one is asked; a ROOT reader shows *)
(* the tree as it was when opened.                                          *)
(*                                                                          *)
(* Names of observables and axes are sequences of strings: <<"a", "b">> is   *)
(* the name a:b.  A data set is [names, n, nobs, rows, dig]: rows holds all  *)
(* its entries if it is small; dig stands for the contents of a big one.     *)
(***************************************************************************)
EXTENDS Hists

VARIABLES dsets, \* handle -> data set in memory
          hists, \* handle -> [axes, c]
          disk,  \* file -> [kind, ...]
          lazy,  \* handle -> [file, mem]: mem is <<>> or <<data set>>
          rds,   \* handle -> data set seen through a ROOT reader
          ret
iostate == <<dsets, hists, disk, lazy, rds>>
iovars == <<iostate, ret>>
Done == [ok |-> TRUE, v |-> ""]
Ok(v) == [ok |-> TRUE, v |-> v]
Refused == [ok |-> FALSE, v |-> ""]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
IoInit == dsets = << >> /\ hists = << >> /\ disk = << >> /\ lazy = << >> /\ rds = << >> /\ ret = Done
IoRefuse == ret' = Refused /\ UNCHANGED iostate
IoQuery(v) == ret' = Ok(v) /\ UNCHANGED iostate
Ext(f) == IF Len(f) = 1 THEN "" ELSE f[Len(f)]
Is1(names) == \A k \in DOMAIN names : Len(names[k]) = 1     \* no name holds the separator
On(f, kind) == f \in DOMAIN disk /\ disk[f].kind = kind

(***************************************************************************)
(* Data sets                                                                *)
(***************************************************************************)
NoSet == [names |-> <<>>, n |-> 0, nobs |-> 0, rows |-> <<>>, dig |-> ""]
Doubles(rows) == [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> RDouble(rows[i][j])]]
Floats(rows) == [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> RFloat(rows[i][j])]]
SetOf(names, rows) == [NoSet EXCEPT !.names = names, !.n = Len(rows), !.nobs = IF rows = <<>> THEN 0 ELSE Len(rows[1]), !.rows = Doubles(rows)]
IoDs(h, names, rows) == dsets' = Put(dsets, h, SetOf(names, rows)) /\ ret' = Done /\ UNCHANGED <<hists, disk, lazy, rds>>
(* n entries too many to be listed; dig is what the harness makes of all their values *)
IoBig(h, names, n, dig) ==
    dsets' = Put(dsets, h, [NoSet EXCEPT !.names = names, !.n = n, !.nobs = Len(names), !.dig = dig]) /\ ret' = Ok(dig) /\ UNCHANGED <<hists, disk, lazy, rds>>

(* A lazy data set that is asked anything reads its file if it does not have it; the others forget theirs *)
Readable(l) == lazy[l].mem # <<>> \/ On(lazy[l].file, "ds")
Asked(l) == IF lazy[l].mem # <<>> THEN lazy[l].mem[1] ELSE disk[lazy[l].file].set
AfterAsk(l) == IF lazy[l].mem # <<>> THEN lazy
               ELSE [x \in DOMAIN lazy |-> [lazy[x] EXCEPT !.mem = IF x = l /\ On(lazy[l].file, "ds") THEN <<disk[lazy[l].file].set>> ELSE <<>>]]

(* from: "ds", "lazy" or "root" *)
CanSee(from, h) == from # "lazy" \/ Readable(h)
Seen(from, h) == CASE from = "ds" -> dsets[h] [] from = "lazy" -> Asked(h) [] from = "root" -> rds[h]
Touch(from, h) == lazy' = IF from = "lazy" THEN AfterAsk(h) ELSE lazy
See(from, h, v) == Touch(from, h) /\ ret' = (IF CanSee(from, h) THEN Ok(v) ELSE Refused) /\ UNCHANGED <<dsets, hists, disk, rds>>
Summary(d) == [names |-> d.names, n |-> d.n, nobs |-> d.nobs]
IoGet(from, h) == See(from, h, IF CanSee(from, h) THEN Summary(Seen(from, h)) ELSE "")
IoRows(from, h) == See(from, h, IF CanSee(from, h) THEN [rows |-> Seen(from, h).rows, dig |-> Seen(from, h).dig] ELSE "")
(* the i-th entry, from 0; none beyond the last *)
IoEntry(from, h, i) ==
    /\ Touch(from, h)
    /\ ret' = IF CanSee(from, h) THEN (IF i < Seen(from, h).n THEN Ok(Seen(from, h).rows[i + 1]) ELSE Refused) ELSE Refused
    /\ UNCHANGED <<dsets, hists, disk, rds>>

IoRm(f) == disk' = Drop(disk, f) /\ ret' = Done /\ UNCHANGED <<dsets, hists, lazy, rds>>
IoJunk(f) == disk' = Put(disk, f, [kind |-> "junk"]) /\ ret' = Done /\ UNCHANGED <<dsets, hists, lazy, rds>>

(* .h5: one name for each observable, at least one entry; .root: an ntuple of that name.  Nothing else is known. *)
Savable(f, d) == CASE Ext(f) = "h5" -> Len(d.names) = d.nobs /\ d.n > 0 /\ Is1(d.names)
                   [] Ext(f) = "root" -> d.names = <<>> \/ ((d.n > 0 => Len(d.names) = d.nobs) /\ Is1(d.names))
                   [] OTHER -> FALSE
Written(f, tree, d) ==
    IF Ext(f) = "h5" THEN Put(disk, f, [kind |-> "ds", set |-> d])
    ELSE IF d.names = <<>> THEN disk
    ELSE Put(disk, f, [kind |-> "trees", trees |-> (tree :> [d |-> [d EXCEPT !.rows = Floats(d.rows), !.nobs = Len(d.names)], nt |-> TRUE])])
IoSave(from, h, f, tree) ==
    IF Ext(f) \notin {"h5", "root"} THEN IoRefuse
    ELSE /\ Touch(from, h) /\ UNCHANGED <<dsets, hists, rds>>
         /\ IF IF CanSee(from, h) THEN Savable(f, Seen(from, h)) ELSE FALSE
            THEN disk' = Written(f, tree, Seen(from, h)) /\ ret' = Done
            ELSE disk' = disk /\ ret' = Refused
IoLoad(f, h) == IF ~On(f, "ds") THEN IoRefuse ELSE dsets' = Put(dsets, h, disk[f].set) /\ ret' = Done /\ UNCHANGED <<hists, disk, lazy, rds>>

LzNew(l, f) == lazy' = Put(lazy, l, [file |-> f, mem |-> <<>>]) /\ ret' = Done /\ UNCHANGED <<dsets, hists, disk, rds>>
LzLoad(l) ==    \* again, even if it has it
    /\ lazy' = [x \in DOMAIN lazy |-> [lazy[x] EXCEPT !.mem = IF x = l /\ On(lazy[l].file, "ds") THEN <<disk[lazy[l].file].set>> ELSE <<>>]]
    /\ ret' = (IF On(lazy[l].file, "ds") THEN Done ELSE Refused) /\ UNCHANGED <<dsets, hists, disk, rds>>
LzClose(l) == lazy' = [lazy EXCEPT ![l].mem = <<>>] /\ ret' = Done /\ UNCHANGED <<dsets, hists, disk, rds>>
LzCopy(l, to) == LzNew(to, lazy[l].file)     \* a copy, or what is assigned to, knows the file and nothing more
LzAssign(l, to) == LzNew(to, lazy[l].file)
LzDel(l) == lazy' = Drop(lazy, l) /\ ret' = Done /\ UNCHANGED <<dsets, hists, disk, rds>>

(***************************************************************************)
(* ROOT trees.  A reader names and orders its observables as the branches    *)
(* are; an ntuple holds floats, and is all that ROOTNtuple takes.            *)
(***************************************************************************)
Typed(types, row) == [j \in DOMAIN row |-> IF types[j] = "F" THEN RFloat(row[j]) ELSE RDouble(row[j])]
RtTree(f, tree, names, types, rows, nt) ==
    LET d == [names |-> [j \in DOMAIN names |-> <<names[j]>>], n |-> Len(rows), nobs |-> Len(names), rows |-> [i \in DOMAIN rows |-> Typed(types, rows[i])], dig |-> ""]
        old == IF On(f, "trees") THEN disk[f].trees ELSE << >>
    IN disk' = Put(disk, f, [kind |-> "trees", trees |-> Put(old, tree, [d |-> d, nt |-> nt])]) /\ ret' = Done /\ UNCHANGED <<dsets, hists, lazy, rds>>
RtOpen(r, f, tree, kind) ==
    IF IF On(f, "trees") THEN (IF tree \in DOMAIN disk[f].trees THEN kind = "tree" \/ disk[f].trees[tree].nt ELSE FALSE) ELSE FALSE
    THEN rds' = Put(rds, r, disk[f].trees[tree].d) /\ ret' = Done /\ UNCHANGED <<dsets, hists, disk, lazy>>
    ELSE IoRefuse
RtBaskets(r) == IoQuery("")     \* read ahead, or not: nothing changes
RtDel(r) == rds' = Drop(rds, r) /\ ret' = Done /\ UNCHANGED <<dsets, hists, disk, lazy>>

(***************************************************************************)
(* Histograms.  .h5 holds the axes with both names and all edges, and the    *)
(* contents; .root a TH1D or TH2D.                                          *)
(***************************************************************************)
IoAxis(a) == [name |-> a.name, latex |-> a.latex, lo |-> [k \in DOMAIN a.lo |-> RDouble(a.lo[k])], hi |-> [k \in DOMAIN a.hi |-> RDouble(a.hi[k])]]
IoHistOf(axes, c) == Hist([d \in DOMAIN axes |-> IoAxis(axes[d])], [b \in DOMAIN c |-> RDouble(c[b])])
IoHist(h, axes, c) == hists' = Put(hists, h, IoHistOf(axes, c)) /\ ret' = Done /\ UNCHANGED <<dsets, disk, lazy, rds>>
IoHistGet(h) == IoQuery(hists[h])
Plain(h) == \A d \in DOMAIN h.axes : Len(h.axes[d].name) = 1 /\ Len(h.axes[d].latex) = 1
(* what a TH1D, TH2D or TH3D shows: for each axis its title and its n + 1 edges, and the contents *)
ThAxis(a) == [title |-> a.latex, edges |-> Append(a.lo, a.hi[Len(a.hi)])]
Th(h, width) == [axes |-> [d \in DOMAIN h.axes |-> ThAxis(h.axes[d])],
                 c |-> IF width THEN [b \in DOMAIN h.c |-> RDiv(h.c[b], Width(h.axes[1], b - 1))] ELSE h.c]
IoSaveHist(h, f, name) ==
    CASE Ext(f) = "h5" -> IF Plain(hists[h]) THEN disk' = Put(disk, f, [kind |-> "hist", h |-> hists[h]]) /\ ret' = Done /\ UNCHANGED <<dsets, hists, lazy, rds>> ELSE IoRefuse
      [] Ext(f) = "root" -> IF Len(hists[h].axes) <= 2
                            THEN disk' = Put(disk, f, [kind |-> "th", name |-> name, th |-> Th(hists[h], FALSE)]) /\ ret' = Done /\ UNCHANGED <<dsets, hists, lazy, rds>> ELSE IoRefuse
      [] OTHER -> IoRefuse
IoLoadHist(f, h) == IF On(f, "hist") THEN hists' = Put(hists, h, disk[f].h) /\ ret' = Done /\ UNCHANGED <<dsets, disk, lazy, rds>> ELSE IoRefuse
(* the histogram of that name in a ROOT file, if there is one *)
IoSeeTh(f, name) == IoQuery(IF On(f, "th") THEN (IF disk[f].name = name THEN <<disk[f].th>> ELSE <<>>) ELSE <<>>)
DtTo(h, dim, width) == IF Len(hists[h].axes) # dim THEN IoRefuse ELSE IoQuery(Th(hists[h], width))
(* and back: an axis is called by its title; what lies outside the axes is not taken *)
DtFrom(to, axes, c) ==
    hists' = Put(hists, to, [axes |-> [d \in DOMAIN axes |-> LET e == axes[d].edges IN
                                         [name |-> axes[d].title, latex |-> axes[d].title, lo |-> [k \in 1..Len(e) - 1 |-> RDouble(e[k])], hi |-> [k \in 1..Len(e) - 1 |-> RDouble(e[k + 1])]]],
                             c |-> [b \in DOMAIN c |-> RDouble(c[b])]])
    /\ ret' = Done /\ UNCHANGED <<dsets, disk, lazy, rds>>
(* a density over bins: the probability of each *)
DtPdf(axes, means, sigmas) ==
    IF Len(means) # Len(axes) THEN IoRefuse
    ELSE IoQuery([b \in 1..NBins(axes) |-> FoldLeft(LAMBDA a, d : LET i == UnflatD(axes, b - 1, d) IN
            RMul(a, RSub(RGaussCdf(axes[d].hi[i + 1], means[d], sigmas[d]), RGaussCdf(axes[d].lo[i + 1], means[d], sigmas[d]))), "1", [d \in DOMAIN axes |-> d])])

IoTypeOk ==
    /\ \A h \in DOMAIN hists : WellFormed(hists[h])
    /\ \A h \in DOMAIN dsets : dsets[h].rows # <<>> => Len(dsets[h].rows) = dsets[h].n /\ \A i \in 1..dsets[h].n : Len(dsets[h].rows[i]) = dsets[h].nobs
    /\ Cardinality({l \in DOMAIN lazy : lazy[l].mem # <<>>}) <= 1
    /\ \A f \in DOMAIN disk : disk[f].kind \in {"ds", "hist"} => Ext(f) = "h5"
=============================================================================
