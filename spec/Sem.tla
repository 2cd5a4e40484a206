-------------------------------- MODULE Sem --------------------------------
(***************************************************************************)
(* Meaning of PSDD structures.                                             *)
(*                                                                         *)
(* A structure is a sequence nd of node records, children before parents:  *)
(*   i    identity          x    index given by the library (a string)     *)
(*   m    manager           v    vtree position                            *)
(*   f    flag              k    "L" literal, "T" top, "D" decision        *)
(*   l    literal/variable  p, s, w  primes, subs, weights                 *)
(*                               (T: w = <<true weight, false weight>>)    *)
(*   ok   well formed                                                      *)
(*   sup  indices of the probe assignments the node supports               *)
(*   den  weight of each supported probe assignment                        *)
(*   ln   every local distribution at or below the node sums to one        *)
(*                                                                         *)
(* Probe assignments are sets of true variables, P[1..n]; in an exhaustive *)
(* case they are all subsets of the case's variables, so sup and den ARE   *)
(* the support and the distribution.  The support is structural: it does   *)
(* not look at weights.                                                    *)
(***************************************************************************)
EXTENDS Num, Vtrees

Kids(n) == {n.p[j] : j \in 1..Len(n.p)} \cup {n.s[j] : j \in 1..Len(n.s)}

\* --- context of a case: probes -------------------------------------------
MkCx(vars, probes, exh) ==
  [ vars |-> vars, P |-> probes, exh |-> exh, all |-> 1..Len(probes),
    on  |-> TLCEval([x \in vars |-> {i \in 1..Len(probes) : x \in probes[i]}]) ]
OnSet(cx, x) == IF x \in cx.vars THEN cx.on[x] ELSE {}
LitSup(cx, l) == IF l > 0 THEN OnSet(cx, l) ELSE cx.all \ OnSet(cx, -l)

\* --- support and weight ----------------------------------------------------
SupOf(cx, nd, n) ==
  IF n.k = "L" THEN LitSup(cx, n.l)
  ELSE IF n.k = "T" THEN cx.all
  ELSE UNION {nd[n.p[j]].sup \cap nd[n.s[j]].sup : j \in 1..Len(n.p)}

DenOf(cx, nd, n, sup) ==
  IF n.k = "L" THEN [i \in sup |-> NOne]
  ELSE IF n.k = "T" THEN [i \in sup |-> IF i \in OnSet(cx, n.l) THEN n.w[1] ELSE n.w[2]]
  ELSE [i \in sup |->
         FoldLeft(LAMBDA acc, j :
             LET a == nd[n.p[j]] b == nd[n.s[j]] IN
             IF i \in a.sup /\ i \in b.sup
             THEN NAdd(acc, NMul(n.w[j], NMul(a.den[i], b.den[i]))) ELSE acc,
           NZero, [j \in 1..Len(n.p) |-> j])]
DenAt(n, i) == IF i \in n.sup THEN n.den[i] ELSE NZero

SumW(w) == FoldLeft(LAMBDA a, x : NAdd(a, x), NZero, w)
LocTol == 20000   \* 2e-6 in log space: interning may replace a weight by a live one 1e-7 away
LocalOne(n) == n.k = "L" \/ NNear(SumW(n.w), NOne, LocTol)

\* primes pairwise exclusive
Determ(nd, n) == n.k # "D" \/
  \A a \in 1..Len(n.p) : \A b \in 1..Len(n.p) : a < b =>
     /\ n.p[a] # n.p[b]
     /\ nd[n.p[a]].sup \cap nd[n.p[b]].sup = {}

\* structurally well formed in the manager's vtree vt
NodeWF(vt, nd, n) ==
  /\ n.v \in VPos(vt)
  /\ CASE n.k = "L" -> IsLeafAt(vt, n.v) /\ RVar(vt.tab, n.v) \in {n.l, -n.l}
       [] n.k = "T" -> IsLeafAt(vt, n.v) /\ RVar(vt.tab, n.v) = n.l /\ Len(n.w) = 2
                       /\ \A j \in 1..2 : ~NIsNan(n.w[j])
       [] n.k = "D" -> /\ ~IsLeafAt(vt, n.v)
                       /\ Len(n.p) >= 1 /\ Len(n.s) = Len(n.p) /\ Len(n.w) = Len(n.p)
                       /\ \A j \in 1..Len(n.w) : ~NIsNan(n.w[j])
                       /\ \A c \in Kids(n) : c \in 1..Len(nd) /\ nd[c].ok /\ nd[c].live /\ nd[c].m = n.m
                       /\ \A j \in 1..Len(n.p) : nd[n.p[j]].v = LeftOf(vt, n.v) /\ nd[n.s[j]].v = RightOf(vt, n.v)

\* --- reachability, sizes -----------------------------------------------------
\* ids are children first, so one downward sweep closes the set
Reach(nd, roots) ==
  LET R == roots \cap (1..Len(nd)) IN
  IF R = {} THEN {}
  ELSE LET mx == Max(R) IN
       FoldLeft(LAMBDA acc, d : LET i == mx + 1 - d IN
                  IF i \in acc THEN acc \cup Kids(nd[i]) ELSE acc,
                R, [d \in 1..mx |-> d])
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SizeOf(nd, R) == FoldLeft(LAMBDA a, i : a + (IF nd[i].k = "T" THEN 1 ELSE IF nd[i].k = "D" THEN Len(nd[i].p) - 1 ELSE 0),
                          0, Asc(R))

\* --- bottom-up passes, for structures too wide to enumerate -------------------
\* V: values of the nodes of R computed so far (function), in ascending order
BottomUp(nd, R, F(_, _)) ==
  FoldLeft(LAMBDA val, i : val @@ (i :> F(nd[i], val)), <<>>, Asc(R))
\* ev: function from variables to TRUE/FALSE (partial evidence)
PartialVal(nd, root, ev) ==
  LET F(n, val) ==
        IF n.k = "L" THEN IF (IF n.l > 0 THEN n.l ELSE -n.l) \in DOMAIN ev
                          THEN (IF ev[IF n.l > 0 THEN n.l ELSE -n.l] = (n.l > 0) THEN NOne ELSE NZero)
                          ELSE NOne
        ELSE IF n.k = "T" THEN IF n.l \in DOMAIN ev THEN (IF ev[n.l] THEN n.w[1] ELSE n.w[2])
                               ELSE NAdd(n.w[1], n.w[2])
        ELSE FoldLeft(LAMBDA acc, j : NAdd(acc, NMul(n.w[j], NMul(val[n.p[j]], val[n.s[j]]))),
                      NZero, [j \in 1..Len(n.p) |-> j])
  IN BottomUp(nd, Reach(nd, {root}), F)[root]
ConsistentVal(nd, root, ev) ==
  LET F(n, val) ==
        IF n.k = "L" THEN ~((IF n.l > 0 THEN n.l ELSE -n.l) \in DOMAIN ev)
                          \/ ev[IF n.l > 0 THEN n.l ELSE -n.l] = (n.l > 0)
        ELSE IF n.k = "T" THEN TRUE
        ELSE \E j \in 1..Len(n.p) : val[n.p[j]] /\ val[n.s[j]]
  IN BottomUp(nd, Reach(nd, {root}), F)[root]
CountVal(nd, root) ==
  LET F(n, val) ==
        IF n.k = "L" THEN BOfInt(1) ELSE IF n.k = "T" THEN BOfInt(2)
        ELSE FoldLeft(LAMBDA acc, j : BAdd(acc, BMul(val[n.p[j]], val[n.s[j]])),
                      BOfInt(0), [j \in 1..Len(n.p) |-> j])
  IN BottomUp(nd, Reach(nd, {root}), F)[root]
NMax(a, b) == IF NLess(a, b) THEN b ELSE a
MaxVal(nd, root) ==
  LET F(n, val) ==
        IF n.k = "L" THEN NOne ELSE IF n.k = "T" THEN NMax(n.w[1], n.w[2])
        ELSE FoldLeft(LAMBDA acc, j : NMax(acc, NMul(n.w[j], NMul(val[n.p[j]], val[n.s[j]]))),
                      NZero, [j \in 1..Len(n.p) |-> j])
  IN BottomUp(nd, Reach(nd, {root}), F)[root]
\* weight of one complete assignment, given as its set of true variables
ValAt(nd, root, T, vars) == PartialVal(nd, root, [x \in vars |-> x \in T])

\* --- by enumeration (exhaustive cases) ----------------------------------------
SumOver(n, S) == FoldLeft(LAMBDA a, i : NAdd(a, n.den[i]), NZero, Asc(S \cap n.sup))
\* representatives: probes whose variables outside X are all false
Repr(cx, X) == {i \in cx.all : cx.P[i] \subseteq X}
MatchEv(cx, ev) == {i \in cx.all : \A x \in DOMAIN ev : (x \in cx.P[i]) = ev[x]}
============================================================================
