-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Weights as exact non-negative rationals <<n, d>> in lowest terms: the   *)
(* realisation used by the exhaustive models (see numlog/Num.tla).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET g == Gcd(n, d) IN <<n \div g, d \div g>>

NZero == <<0, 1>>
NOne  == <<1, 1>>
NFrac(n, d) == Norm(n, d)
NIsNan(a) == a[2] = 0
NAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
NMul(a, b) == LET x == Norm(a[1], b[2]) y == Norm(b[1], a[2]) IN
              IF a[1] = 0 \/ b[1] = 0 THEN NZero ELSE <<x[1] * y[1], x[2] * y[2]>>
NDiv(a, b) == IF b[1] = 0 THEN <<1, 0>> ELSE NMul(a, <<b[2], b[1]>>)
NOfInt(n) == <<n, 1>>
NNear(a, b, k) == a = b
NLeq(a, b, k) == a[1] * b[2] <= b[1] * a[2]
NLess(a, b) == a[1] * b[2] < b[1] * a[2]
NEq(a, b) == a = b
NStr(a) == ToString(a)

BAdd(a, b) == a + b
BMul(a, b) == a * b
BOfInt(n)  == n

\* tokens of the small files the models read
TIsInt(s) == \E i \in -99..99 : ToString(i) = s
TInt(s)   == CHOOSE i \in -99..99 : ToString(i) = s
NDec(s)   == CASE s = "0" -> NZero [] s = "0.0" -> NZero [] s = "1" -> NOne [] s = "1.0" -> NOne [] s = "1e0" -> NOne
               [] s = "0.5" -> <<1, 2>> [] s = ".5" -> <<1, 2>> [] s = "5e-1" -> <<1, 2>> [] s = "2" -> <<2, 1>> [] s = "0.25" -> <<1, 4>>
               [] s = "3" -> <<3, 1>> [] s = "4" -> <<4, 1>> [] s = "5" -> <<5, 1>> [] s = "7" -> <<7, 1>>
NLog(s)   == Assert(FALSE, "the models' files carry no logarithms")
TIsNum(s) == TRUE
\* plain decimals are not used by the models
DVal(s) == NZero  DOfInt(n) == NZero  DAdd(a, b) == NZero  DSub(a, b) == NZero  DMul(a, b) == NZero  DDiv(a, b) == NZero
DLn(a) == NZero  DExp(a) == NZero  DSqrt(a) == NZero  DAbs(a) == NZero  DLess(a, b) == FALSE  DNear(a, b, k) == FALSE
============================================================================
