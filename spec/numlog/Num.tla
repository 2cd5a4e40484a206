-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Weights.  This module is an interface with two realisations:            *)
(*   numlog/  log-space IEEE doubles (operators overridden by Num.java),   *)
(*            used to judge recorded executions of the real code;          *)
(*   numrat/  exact rationals in plain TLA+, used by the exhaustive models.*)
(* The tolerance argument k of NNear/NLeq is in units of 1e-10 (log space);*)
(* a relative rounding allowance of 1e-9 is always included.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Java == CHOOSE x \in {} : TRUE   \* never evaluated: overridden

NLog(s)       == Java   \* number whose natural logarithm is printed in s
NDec(s)       == Java   \* number printed in s
NIsNan(a)     == Java
NAdd(a, b)    == Java
NMul(a, b)    == Java
NDiv(a, b)    == Java
NOfInt(n)     == Java
NNear(a,b,k)  == Java
NLeq(a,b,k)   == Java
NLess(a, b)   == Java   \* strict, no tolerance
NEq(a, b)     == Java   \* bitwise
NStr(a)       == Java
NZero         == NLog("-inf")
NOne          == NLog("0")

\* plain decimals
DVal(s)     == Java
DOfInt(n)   == Java
DAdd(a, b)  == Java
DSub(a, b)  == Java
DMul(a, b)  == Java
DDiv(a, b)  == Java
DLn(a)      == Java
DExp(a)     == Java
DSqrt(a)    == Java
DAbs(a)     == Java
DLess(a, b) == Java
DNear(a, b, k) == Java

\* unbounded naturals as decimal strings
BAdd(a, b) == Java
BMul(a, b) == Java
BOfInt(n)  == Java

\* tokens
TIsInt(s) == Java
TInt(s)   == Java
TIsNum(s) == Java
TChars(s) == Java
============================================================================
