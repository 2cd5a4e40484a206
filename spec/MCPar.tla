------------------------------- MODULE MCPar -------------------------------
(***************************************************************************)
(* Numbers of src/psdd_parameter.cpp: registers, every operator in its     *)
(* binary and in its in-place form, and the comparisons, which look at a   *)
(* logarithm cut off towards zero (unit: 1e-7 in the code; here the unit   *)
(* is a factor of two, so that the cut and its irregularity at one can be  *)
(* explored with small fractions).  A number is kept as the rational whose *)
(* logarithm the code keeps; an operator's branches are transcribed.       *)
(***************************************************************************)
EXTENDS Num, Naturals, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)
Vals == {<<C.vals[i][1], C.vals[i][2]>> : i \in 1..Len(C.vals)}
Regs == 1..C.regs

VARIABLES R, T, n, bad, hist
vars == <<R, T, n, bad, hist>>

\* ------------------------------------------------ the code, on its logarithms
\* exp of the difference of two logarithms is the quotient, log1p(x) the factor 1 + x
Plus(a, b) == IF a = NZero THEN b
              ELSE IF b = NZero THEN a
              ELSE IF NLess(b, a) THEN NMul(a, NAdd(NOne, NDiv(b, a)))
              ELSE NMul(b, NAdd(NOne, NDiv(a, b)))
Times(a, b) == NMul(a, b)
Over(a, b) == NDiv(a, b)
Op(o, a, b) == CASE o = "add" -> Plus(a, b) [] o = "mul" -> Times(a, b) [] o = "div" -> Over(a, b)
\* trunc(log2 a): zero has a bucket of its own
Log2(p, q) == CHOOSE k \in 0..30 : 2^k * q <= p /\ p < 2^(k + 1) * q
Bucket(a) == IF a[1] = 0 THEN -100 ELSE IF a[1] >= a[2] THEN Log2(a[1], a[2]) ELSE -Log2(a[2], a[1])
CEq(a, b) == Bucket(a) = Bucket(b)
CLt(a, b) == IF CEq(a, b) THEN FALSE ELSE NLess(a, b)
CGt(a, b) == IF CEq(a, b) THEN FALSE ELSE NLess(b, a)

\* ------------------------------------------------ what is promised
Want(o, a, b) == CASE o = "add" -> NAdd(a, b) [] o = "mul" -> NMul(a, b) [] o = "div" -> NDiv(a, b)
Sum3(a, b, c) == (IF a THEN 1 ELSE 0) + (IF b THEN 1 ELSE 0) + (IF c THEN 1 ELSE 0)
Apart(a, b) == (a = NZero) # (b = NZero) \/ (a # NZero /\ b # NZero /\ (NLeq(NMul(a, <<4, 1>>), b, 0) \/ NLeq(NMul(b, <<4, 1>>), a, 0)))
Pair(a, b) ==
  /\ Sum3(CEq(a, b), CLt(a, b), CGt(a, b)) = 1
  /\ CEq(a, b) = CEq(b, a) /\ CLt(a, b) = CGt(b, a)
  /\ a = b => CEq(a, b)
  /\ Apart(a, b) => ~CEq(a, b)
  /\ CLt(a, b) => NLess(a, b)
Triple(a, b, c) == (CEq(a, b) /\ CEq(b, c) => CEq(a, c)) /\ (CLt(a, b) /\ CLt(b, c) => CLt(a, c))
                   /\ (CEq(a, b) /\ CLt(b, c) => CLt(a, c))
Promises(t, r) ==
  (IF \A i \in Regs : t[i] = r[i] THEN {} ELSE {"wrong value"}) \cup
  (IF \A i, j \in Regs : Pair(r[i], r[j]) THEN {} ELSE {"comparison disagrees with the values"}) \cup
  (IF \A i, j, k \in Regs : Triple(r[i], r[j], r[k]) THEN {} ELSE {"the comparisons are no ordering"})

Small(a) == a[1] < 2000 /\ a[2] < 2000
Emit(h) == IF FoldLeft(LAMBDA a, x : (a * 31 + x[2] * 7 + x[3] * 3 + x[4] + (IF x[1] = "add" THEN 1 ELSE IF x[1] = "mul" THEN 2 ELSE 5)) % 100003, 11, h) % C.stride = C.rem % C.stride
           THEN PrintT("BEH|" \o ToString(<<T, h>>)) ELSE TRUE
Init == R \in [Regs -> Vals] /\ T = R /\ n = 0 /\ bad = Promises(R, R) /\ hist = <<>>
\* T: the registers at the start; the true values follow the operators' meaning
Next ==
  /\ n < C.depth /\ n' = n + 1
  /\ \E o \in {"add", "mul", "div"}, d \in Regs, a \in Regs, b \in Regs, inpl \in BOOLEAN :
       /\ o = "div" => R[b] # NZero
       /\ inpl => d = a
       /\ LET w == Want(o, R[a], R[b]) v == Op(o, R[a], R[b]) IN
          /\ Small(w)
          /\ R' = [R EXCEPT ![d] = v]
          /\ bad' = Promises([R EXCEPT ![d] = w], R')
          /\ hist' = Append(hist, <<o, d, a, b, inpl>>)
          /\ Emit(hist')
  /\ UNCHANGED T
Spec == Init /\ [][Next]_vars
Good == bad = {}
View == <<R, n, bad>>
============================================================================
