------------------------------ MODULE MCVtree ------------------------------
(***************************************************************************)
(* The vtree utilities of src/psdd_node.cpp on a heap of vtree nodes with  *)
(* their data pointers: every shape of up to C.n leaves, every short       *)
(* history of copying, renaming, projecting, searching and listing on the  *)
(* original and on earlier results.                                        *)
(***************************************************************************)
EXTENDS Vtrees, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)

\* heap: sequence of [var, l, r, d]; 0 is the null pointer
Leaf(h, x) == [h |-> Append(h, [var |-> x, l |-> 0, r |-> 0, d |-> 0]), id |-> Len(h) + 1]
Inner(h, a, b) == [h |-> Append(h, [var |-> 0, l |-> a, r |-> b, d |-> 0]), id |-> Len(h) + 1]
IsLf(h, i) == h[i].var # 0
SetD(h, i, x) == [h EXCEPT ![i].d = x]

\* breadth first
RECURSIVE Bfs(_, _, _)
Bfs(h, q, k) == IF k > Len(q) THEN q
                ELSE Bfs(h, IF IsLf(h, q[k]) THEN q ELSE q \o <<h[q[k]].l, h[q[k]].r>>, k + 1)
SerialVt(h, r) == Bfs(h, <<r>>, 1)
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]

CopyMap(h0, root, f) ==
  LET step(h, i) ==
        IF IsLf(h, i) THEN LET x == Leaf(h, f[h[i].var]) IN SetD(x.h, i, x.id)
        ELSE LET x == Inner(h, h[h[i].l].d, h[h[i].r].d)
                 h2 == SetD(SetD(x.h, h[i].l, 0), h[i].r, 0)
             IN SetD(h2, i, x.id)
      h1 == FoldLeft(step, h0, Rev(SerialVt(h0, root)))
  IN [h |-> SetD(h1, root, 0), id |-> h1[root].d]
Project(h0, root, S) ==
  LET step(h, i) ==
        IF IsLf(h, i) THEN IF h[i].var \in S THEN LET x == Leaf(h, h[i].var) IN SetD(x.h, i, x.id) ELSE SetD(h, i, 0)
        ELSE LET a == h[h[i].l].d  b == h[h[i].r].d
                 h2 == SetD(SetD(h, h[i].l, 0), h[i].r, 0)
             IN IF a # 0 /\ b # 0 THEN LET x == Inner(h2, a, b) IN SetD(x.h, i, x.id)
                ELSE SetD(h2, i, IF a # 0 THEN a ELSE b)
      h1 == FoldLeft(step, h0, Rev(SerialVt(h0, root)))
  IN [h |-> SetD(h1, root, 0), id |-> h1[root].d]
RECURSIVE SubHelper(_, _, _), LeftRight(_, _), CountOf(_, _)
SubHelper(h, i, S) ==
  IF IsLf(h, i) THEN IF h[i].var \in S THEN i ELSE 0
  ELSE LET a == SubHelper(h, h[i].l, S) b == SubHelper(h, h[i].r, S)
       IN IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = h[i].l /\ b = h[i].r THEN i ELSE 0
CountOf(h, i) == IF IsLf(h, i) THEN 1 ELSE CountOf(h, h[i].l) + CountOf(h, h[i].r)
SubOf(h, i, S) == LET c == SubHelper(h, i, S) IN IF c = 0 \/ CountOf(h, c) # Cardinality(S) THEN 0 ELSE c
LeftRight(h, i) == IF IsLf(h, i) THEN <<h[i].var>> ELSE LeftRight(h, h[i].l) \o LeftRight(h, h[i].r)

\* ------------------------------------------------------------- meaning
RECURSIVE ShapeAt(_, _), Under(_, _), Alloc(_, _)
ShapeAt(h, i) == IF IsLf(h, i) THEN <<h[i].var>> ELSE <<ShapeAt(h, h[i].l), ShapeAt(h, h[i].r)>>
Under(h, i) == IF IsLf(h, i) THEN {i} ELSE {i} \cup Under(h, h[i].l) \cup Under(h, h[i].r)
Alloc(h, s) == IF Len(s) = 1 THEN Leaf(h, s[1]) ELSE LET a == Alloc(h, s[1]) b == Alloc(a.h, s[2]) IN Inner(b.h, a.id, b.id)
VarsOf(h, i) == {h[j].var : j \in Under(h, i)} \ {0}

\* the number of nodes left of i in in-order
RECURSIVE InOrder(_, _, _)
InOrder(g, r, i) ==
  IF r = i THEN IF IsLf(g, r) THEN 0 ELSE Cardinality(Under(g, g[r].l))
  ELSE IF i \in Under(g, g[r].l) THEN InOrder(g, g[r].l, i)
  ELSE Cardinality(Under(g, g[r].l)) + 1 + InOrder(g, g[r].r, i)

VARIABLES h, rs, hist, n, bad
vars == <<h, rs, hist, n, bad>>
Ck(b, msg) == IF b THEN {} ELSE {msg}
\* the earlier heap is untouched and no data pointer is left behind
Kept(g) == Ck(Len(g) >= Len(h) /\ \A i \in 1..Len(h) : g[i] = h[i], "an existing vtree was altered")
Orders == {[i \in 1..C.n |-> i], [i \in 1..C.n |-> ((2 * i) % (C.n + 1)) + (IF C.n % 2 = 1 /\ (2 * i) % (C.n + 1) = 0 THEN 9 ELSE 0)]}
Init == \E m \in 1..C.n : \E q \in {SubSeq(o, 1, m) : o \in Orders} : \E s \in (IF Cardinality({q[i] : i \in 1..m}) = m THEN ShapesOn(q) ELSE {}) :
          /\ h = Alloc(<<>>, s).h /\ rs = <<Len(h)>> /\ hist = <<<<"vtree", s>>>> /\ n = 0 /\ bad = {}
Maps(V) ==
  LET q == SetToSortSeq(V, LAMBDA a, b : a < b) k == Len(q) IN
  {[x \in V |-> CHOOSE y \in V : \E i \in 1..k : q[i] = x /\ y = q[(i % k) + 1]],
   [x \in V |-> x + 10],
   [x \in V |-> CHOOSE y \in V : \E i \in 1..k : q[i] = x /\ y = q[k + 1 - i]]}
Pairs(f) == SetToSeq({<<x, f[x]>> : x \in DOMAIN f})
Result(x, want, cmd) ==
  /\ h' = x.h /\ rs' = Append(rs, x.id)
  /\ bad' = Kept(x.h) \cup Ck(x.id # 0 /\ ShapeAt(x.h, x.id) = want, "wrong shape or variables") \cup
            Ck(x.id # 0 /\ Under(x.h, x.id) \cap (1..Len(h)) = {}, "the result shares nodes with the original")
  /\ hist' = Append(hist, cmd)
Answer(msgs, cmd) == UNCHANGED <<h, rs>> /\ bad' = msgs /\ hist' = Append(hist, cmd)
Next ==
  /\ n < C.depth /\ n' = n + 1
  /\ \E o \in 1..Len(rs) :
       LET r == rs[o] V == VarsOf(h, r) s == ShapeAt(h, r) IN
       \/ Result(CopyMap(h, r, [x \in V |-> x]), s, <<"vcopy", o>>)
       \/ \E f \in Maps(V) : Result(CopyMap(h, r, f), MapShape(s, f), <<"vmap", o, Pairs(f)>>)
       \/ \E S \in SUBSET V : S # {} /\ Result(Project(h, r, S), ProjShape(s, S), <<"vproj", o, SetToSeq(S)>>)
       \/ \E S \in (SUBSET V) \cup {V \cup {77}, {77}, {77} \cup {CHOOSE x \in V : TRUE}} :
            S # {} /\ LET want == {i \in Under(h, r) : VarsOf(h, i) = S} got == SubOf(h, r, S)
                      IN Answer(Ck(got = (IF want = {} THEN 0 ELSE CHOOSE i \in want : TRUE), "wrong sub-vtree"), <<"vsub", o, SetToSeq(S)>>)
       \/ \E i \in Under(h, r) :
            LET q == SerialVt(h, i) u == SelectSeq([j \in 1..Len(q) |-> h[q[j]].var], LAMBDA x : x # 0)
            IN Answer(Ck({q[j] : j \in 1..Len(q)} = Under(h, i) /\ Len(q) = Cardinality(Under(h, i)), "serialisation misses nodes") \cup
                      Ck({u[j] : j \in 1..Len(u)} = VarsOf(h, i) /\ Len(u) = Cardinality(VarsOf(h, i)), "variable listing is wrong") \cup
                      Ck(LeftRight(h, i) = ShapeSeq(ShapeAt(h, i)), "left-to-right listing is wrong"),
                      <<"vvars", o, InOrder(h, r, i)>>)
  /\ IF n' = C.depth THEN PrintT("BEH|" \o ToString(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Good == bad = {}
View == <<hist, bad>>
============================================================================
