-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Exact real arithmetic for the OXSX specification.                        *)
(*                                                                          *)
(* A real is written as a string: an integer "3", a rational "1/4", a       *)
(* decimal "0.25", a C99 hexadecimal float "0x1p-2" (what the conformance   *)
(* driver logs, lossless for IEEE doubles), "inf", "-inf" or "nan".         *)
(* Results are canonical ("n" or "n/d" in lowest terms), so two results     *)
(* are the same number iff they are the same TLA+ value.  TLA+ integers are *)
(* accepted wherever a real is expected.                                    *)
(*                                                                          *)
(* The operators are evaluated by spec/Real.java (unbounded rationals:      *)
(* + - * / and comparisons are exact; RLn, RExp, RSqrt, RPow, RErf are       *)
(* accurate to about 1 ulp of a double).  The definitions below only give   *)
(* arities; evaluating one without the override is an error.                *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL Err(x) == Assert(FALSE, "Real.class is not on TLC's class path")

R(x)            == Err(x)          \* canonical form
RAdd(a, b)      == Err(a)
RSub(a, b)      == Err(a)
RMul(a, b)      == Err(a)
RDiv(a, b)      == Err(a)          \* IEEE rules for a zero divisor
RNeg(a)         == Err(a)
RAbs(a)         == Err(a)
RMin(a, b)      == Err(a)
RMax(a, b)      == Err(a)
RLt(a, b)       == Err(a)          \* FALSE if either is nan
RLe(a, b)       == Err(a)
REq(a, b)       == Err(a)          \* numeric equality (nan # nan)
RSame(a, b)     == Err(a)          \* numeric equality, nan same as nan
RIsFinite(a)    == Err(a)
RFloor(a)       == Err(a)          \* a TLA+ integer
RLn(a)          == Err(a)
RExp(a)         == Err(a)
RSqrt(a)        == Err(a)
RPow(a, b)      == Err(a)
RErf(a)         == Err(a)
RSum(s)         == Err(s)          \* sum of a sequence of reals
RDot(s, t)      == Err(s)          \* sum of products
RTol(a, b, rel, abs) == Err(a)     \* |a-b| <= abs + rel*max(|a|,|b|)
RClose(a, b)    == Err(a)          \* RTol(a, b, 1e-9, 1e-9)
RVClose(s, t)   == Err(s)          \* same length and pairwise RClose
RVSame(s, t)    == Err(s)          \* same length and pairwise RSame
RScaleSeq(s, k) == Err(s)          \* [i |-> s[i]*k]
RAddSeq(s, t)   == Err(s)          \* pairwise sum
RMulSeq(s, t)   == Err(s)          \* pairwise product
RDivSeq(s, t)   == Err(s)          \* pairwise quotient
RDouble(a)      == Err(a)          \* nearest IEEE double
RFloat(a)       == Err(a)          \* the double, rounded to single precision
RGauss(x, m, s) == Err(x)          \* normal density
RGaussCdf(x, m, s) == Err(x)       \* normal distribution function
=============================================================================
