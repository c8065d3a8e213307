-------------------------------- MODULE Poly --------------------------------
(* Sets of named reals, as functions, and polynomials over them: sums of      *)
(* terms [k |-> factor, x |-> <<names>>].                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Real, SequencesExt

RProd(s) == FoldLeft(LAMBDA a, x : RMul(a, x), "1", s)
PolyAt(terms, p) == RSum([j \in 1..Len(terms) |-> RMul(terms[j].k, RProd([i \in 1..Len(terms[j].x) |-> p[terms[j].x[i]]]))])
(* a sequence of <<name, value>> as a function, and its names *)
PNames(d) == {d[k][1] : k \in 1..Len(d)}
PGet(d, n) == d[CHOOSE k \in 1..Len(d) : d[k][1] = n][2]
Fn(d) == [n \in PNames(d) |-> R(PGet(d, n))]
SameFn(f, d) == Len(d) = Cardinality(DOMAIN f) /\ PNames(d) = DOMAIN f /\ \A n \in DOMAIN f : RSame(f[n], PGet(d, n))
NearFn(f, d, tol) == Len(d) = Cardinality(DOMAIN f) /\ PNames(d) = DOMAIN f /\ \A n \in DOMAIN f : RTol(f[n], PGet(d, n), tol, tol)
(* a point of f's names moved by x in n *)
Moved(f, n, x) == [f EXCEPT ![n] = RAdd(@, x)]
(* the slope in every direction, from two points e away on either side *)
Slope(terms, p, e) == [n \in DOMAIN p |-> RDiv(RSub(PolyAt(terms, Moved(p, n, e)), PolyAt(terms, Moved(p, n, RNeg(e)))), RMul("2", e))]
=============================================================================
