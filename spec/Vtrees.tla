------------------------------ MODULE Vtrees -------------------------------
(***************************************************************************)
(* Vtrees: full binary trees whose leaves are variables.  A vtree is given *)
(* by its rows in left-to-right (in-order) sequence; row r of a vtree      *)
(* describes position r-1 as <<pos, var, left, right, parent, data>>       *)
(* (var = 0 for inner positions, -1 for "none").                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

RVar(t, p)  == t[p + 1][2]
RL(t, p)    == t[p + 1][3]
RR(t, p)    == t[p + 1][4]
RPar(t, p)  == t[p + 1][5]
RLeaf(t, p) == RVar(t, p) # 0
Poss(t)     == 0..(Len(t) - 1)
RootOf(t)   == CHOOSE p \in Poss(t) : RPar(t, p) = -1

\* lowest and highest position below p
RECURSIVE VLo(_, _), VHi(_, _)
VLo(t, p) == IF RLeaf(t, p) THEN p ELSE VLo(t, RL(t, p))
VHi(t, p) == IF RLeaf(t, p) THEN p ELSE VHi(t, RR(t, p))

\* rows describe one full binary tree, numbered in order
TabWF(t) ==
  /\ Len(t) >= 1
  /\ \A p \in Poss(t) : t[p + 1][1] = p
  /\ Cardinality({p \in Poss(t) : RPar(t, p) = -1}) = 1
  /\ \A p \in Poss(t) : RVar(t, p) >= 0
  /\ \A p \in Poss(t) :
       IF RLeaf(t, p) THEN RL(t, p) = -1 /\ RR(t, p) = -1
       ELSE /\ RL(t, p) \in Poss(t) /\ RR(t, p) \in Poss(t)
            /\ RL(t, p) < p /\ RR(t, p) > p
            /\ RPar(t, RL(t, p)) = p /\ RPar(t, RR(t, p)) = p
  /\ \A p \in Poss(t) : RPar(t, p) # -1 => p \in {RL(t, RPar(t, p)), RR(t, RPar(t, p))}
  /\ \A p \in Poss(t), q \in Poss(t) : p # q /\ RLeaf(t, p) => RVar(t, p) # RVar(t, q)

\* everything the contracts need to know about a vtree
MkVt(t) ==
  [ tab   |-> t,
    n     |-> Len(t),
    root  |-> RootOf(t),
    lo    |-> TLCEval([p \in Poss(t) |-> VLo(t, p)]),
    hi    |-> TLCEval([p \in Poss(t) |-> VHi(t, p)]),
    vars  |-> TLCEval([p \in Poss(t) |-> {RVar(t, q) : q \in VLo(t, p)..VHi(t, p)} \ {0}]) ]

VPos(vt)     == 0..(vt.n - 1)
IsLeafAt(vt, p) == RLeaf(vt.tab, p)
LeftOf(vt, p)   == RL(vt.tab, p)
RightOf(vt, p)  == RR(vt.tab, p)
ParentOf(vt, p) == RPar(vt.tab, p)
VarsAt(vt, p)   == vt.vars[p]
AllVars(vt)     == vt.vars[vt.root]
\* q is at or below p
Below(vt, q, p) == vt.lo[p] <= q /\ q <= vt.hi[p]
LeafOfVar(vt, x) == CHOOSE p \in VPos(vt) : RVar(vt.tab, p) = x
\* the lowest position having all of S below it
LCA(vt, S) ==
  LET C == {p \in VPos(vt) : \A q \in S : Below(vt, q, p)}
  IN CHOOSE p \in C : \A q \in C : Below(vt, p, q)
RECURSIVE DepthOf(_, _)
DepthOf(vt, p) == IF ParentOf(vt, p) = -1 THEN 0 ELSE 1 + DepthOf(vt, ParentOf(vt, p))

\* the shape with its variables, as a term:  <<x>>  or  <<left, right>>
RECURSIVE Shape(_, _)
Shape(t, p) == IF RLeaf(t, p) THEN <<RVar(t, p)>> ELSE <<Shape(t, RL(t, p)), Shape(t, RR(t, p))>>
RootShape(t) == Shape(t, RootOf(t))
RECURSIVE MapShape(_, _)
MapShape(s, f) == IF Len(s) = 1 THEN <<f[s[1]]>> ELSE <<MapShape(s[1], f), MapShape(s[2], f)>>
RECURSIVE ShapeVars(_)
ShapeVars(s) == IF Len(s) = 1 THEN {s[1]} ELSE ShapeVars(s[1]) \cup ShapeVars(s[2])
RECURSIVE ShapeSeq(_)
ShapeSeq(s) == IF Len(s) = 1 THEN s ELSE ShapeSeq(s[1]) \o ShapeSeq(s[2])
\* projection onto the variables of K (which must meet the shape)
RECURSIVE ProjShape(_, _)
ProjShape(s, K) ==
  IF Len(s) = 1 THEN s
  ELSE LET a == ShapeVars(s[1]) \cap K
           b == ShapeVars(s[2]) \cap K
       IN IF a = {} THEN ProjShape(s[2], K)
          ELSE IF b = {} THEN ProjShape(s[1], K)
          ELSE <<ProjShape(s[1], K), ProjShape(s[2], K)>>
\* the rows of a shape, positions starting at b, below position par
RECURSIVE RowsOf(_, _, _)
RowsOf(s, b, par) ==
  IF Len(s) = 1 THEN <<<<b, s[1], -1, -1, par, 0>>>>
  ELSE LET na == 2 * Cardinality(ShapeVars(s[1])) - 1
           rt(q, f) == f + (IF Len(q) = 1 THEN 0 ELSE 2 * Cardinality(ShapeVars(q[1])) - 1)
           me == b + na
       IN RowsOf(s[1], b, me) \o <<<<me, 0, rt(s[1], b), rt(s[2], me + 1), par, 0>>>> \o RowsOf(s[2], me + 1, me)
TabOf(s) == RowsOf(s, 0, -1)
\* all shapes whose leaves read left to right are q
RECURSIVE ShapesOn(_)
ShapesOn(q) ==
  IF Len(q) = 1 THEN {q}
  ELSE UNION {{<<a, b>> : a \in ShapesOn(SubSeq(q, 1, k)), b \in ShapesOn(SubSeq(q, k + 1, Len(q)))} : k \in 1..(Len(q) - 1)}
\* shape from a postfix listing (0 joins the two topmost)
ShapeOfRpn(r) ==
  FoldLeft(LAMBDA st, x : IF x = 0
             THEN Append(SubSeq(st, 1, Len(st) - 2), <<st[Len(st) - 1], st[Len(st)]>>)
             ELSE Append(st, <<x>>), <<>>, r)[1]
\* a mapping given as a1, b1, a2, b2 ...
PairMap(q) == [a \in {q[2 * i - 1] : i \in 1..(Len(q) \div 2)} |->
                 q[2 * (CHOOSE i \in 1..(Len(q) \div 2) : q[2 * i - 1] = a)]]
============================================================================
