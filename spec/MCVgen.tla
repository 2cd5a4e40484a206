------------------------------- MODULE MCVgen -------------------------------
(***************************************************************************)
(* The three vtree constructors on every small network, whatever the       *)
(* external tool answers.  The vtree under construction is a shape with    *)
(* holes; a hole carries the part of the network still to be arranged.     *)
(*   mode 4  the ordering is any permutation of the variables              *)
(*           (src/minfill_vtree.cpp), components are met in any order      *)
(*   mode 2  the tree decomposition is any rooted one of up to C.bags bags *)
(*           that is valid for the network, empty bags included, visited   *)
(*           in any order that takes children first (src/jointree_vtree)   *)
(*   mode 1  every bipartition is any one allowed by the imbalance         *)
(*           (src/hypergraph_decomposition_vtree.cpp), sets are listed in  *)
(*           either direction                                              *)
(* Invariants: at every moment leaves and holes together hold every        *)
(* variable exactly once; finished vtrees suit every factor.               *)
(*                                                                         *)
(* Configuration: mode, nv, nf (numbers of variables and factors), bags,   *)
(* mod/rem (slice of the networks), cnt (instead, as many drawn networks).    *)
(***************************************************************************)
EXTENDS Formats, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)

\* ------------------------------------------------------------- networks
\* a scope is a set of variables, given as a number in binary
Scope(k) == {x \in 1..6 : (k \div (2 ^ (x - 1))) % 2 = 1}
RECURSIVE Ascending(_, _, _)
Ascending(k, lo, hi) ==
  IF k = 0 THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Ascending(k - 1, x, hi)} : x \in lo..hi}
\* lists of scopes, without regard to their order: all up to C.nf of them, or a sample of C.cnt lists of length C.nf
Nets(n) == UNION {Ascending(k, 1, 2 ^ C.nv - 1) : k \in 1..n}
Hash(q) == FoldLeft(LAMBDA a, x : (a * 1103 + x * 7919 + 12345) % 1000003, 7, q)
Drawn == {SortSeq([i \in 1..C.nf |-> (Hash(<<t, i, C.rem, t>>) % (2 ^ C.nv - 1)) + 1], <) : t \in 1..C.cnt}
Slice == IF C.cnt > 0 THEN Drawn ELSE {q \in Nets(C.nf) : Hash(q) % C.mod = C.rem % C.mod}

\* ------------------------------------------------------------- shapes with holes
Hole(kind, data) == <<"H", kind, data>>
IsHole(s) == Len(s) = 3
Chain(q, base) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN <<x>> ELSE <<<<x>>, a>>, base, q)
RECURSIVE Holes(_), LeafBag(_), FillFirst(_, _)
Holes(s) == IF IsHole(s) THEN <<s>> ELSE IF Len(s) = 1 THEN <<>> ELSE Holes(s[1]) \o Holes(s[2])
\* replaces the leftmost hole
FillFirst(s, t) ==
  IF IsHole(s) THEN t
  ELSE IF Holes(s[1]) # <<>> THEN <<FillFirst(s[1], t), s[2]>>
  ELSE <<s[1], FillFirst(s[2], t)>>
UnionOf(fs) == UNION {fs[j] : j \in 1..Len(fs)}
\* all variables held, each as often as it is held
LeafBag(s) == IF IsHole(s) THEN SetToSeq(IF s[2] = "F" THEN UnionOf(s[3]) ELSE s[3]) ELSE IF Len(s) = 1 THEN s ELSE LeafBag(s[1]) \o LeafBag(s[2])
\* the orders in which a set may be listed: the code walks hash tables
Listings(S) == LET up == SetToSortSeq(S, <) IN IF Len(up) <= 3 /\ C.nf <= 4 THEN SetToSeqs(S) ELSE {up, Reverse(up)}

VARIABLES net, sh, env, aux, done
vars == <<net, sh, env, aux, done>>
N == 1..C.nv
Scopes == [j \in 1..Len(net) |-> Scope(net[j])]

\* ------------------------------------------------------------- minfill order
Adj(fs, x) == UNION {fs[j] : j \in {i \in 1..Len(fs) : x \in fs[i]}} \ {x}
RECURSIVE Flood(_, _, _)
Flood(fs, V, X) == LET Y == X \cup (UNION {Adj(fs, x) \cap V : x \in X}) IN IF Y = X THEN X ELSE Flood(fs, V, Y)
Earliest(order, V) == order[Min({i \in 1..Len(order) : order[i] \in V})]
MinfillStep ==
  LET V == Holes(sh)[1][3] IN
  IF Cardinality(V) = 1 THEN sh' = FillFirst(sh, <<CHOOSE x \in V : TRUE>>) /\ UNCHANGED env
  ELSE \E x0 \in V :
         LET comp == Flood(Scopes, V, {x0}) IN
         /\ UNCHANGED env
         /\ IF comp = V
            THEN LET x == Earliest(aux, V) IN sh' = FillFirst(sh, <<<<x>>, Hole("G", V \ {x})>>)
            ELSE sh' = FillFirst(sh, <<Hole("G", comp), Hole("G", V \ comp)>>)

\* ------------------------------------------------------------- join tree
\* a decomposition: [par, bag], the root is 1 (0 is its parent)
Trees == UNION {[1..m -> 0..(m - 1)] : m \in 1..C.bags}
Rooted == {p \in Trees : p[1] = 0 /\ \A i \in 2..Len(p) : p[i] \in 1..(i - 1)}
Valid(p, bag, fs) ==
  /\ \A x \in N : \E i \in 1..Len(p) : x \in bag[i]
  /\ \A j \in 1..Len(fs) : \E i \in 1..Len(p) : fs[j] \subseteq bag[i]
  \* the bags with x are connected: all but one of them have a parent with x
  /\ \A x \in N : Cardinality({i \in 1..Len(p) : x \in bag[i] /\ (p[i] = 0 \/ x \notin bag[p[i]])}) = 1
\* aux: [par, bag, cache, left]
JointreeStep ==
  \E v \in aux.left :
    /\ \A u \in aux.left : aux.par[u] # v
    /\ LET up == aux.par[v]
           new == aux.bag[v] \ (IF up = 0 THEN {} ELSE aux.bag[up])
           kids == aux.cache[v]
           rc0 == FoldLeft(LAMBDA a, s : IF a = <<>> THEN s ELSE <<s, a>>, <<>>, kids)
       IN \E q \in (IF new = {} THEN {<<>>} ELSE {SetToSortSeq(new, <)}) :
            LET rc == Chain(q, rc0)
                c2 == IF rc = <<>> THEN aux.cache ELSE [aux.cache EXCEPT ![up] = Append(@, rc)]
            IN /\ aux' = [aux EXCEPT !.cache = c2, !.left = @ \ {v}]
               /\ UNCHANGED env
               /\ sh' = IF aux.left = {v} THEN (IF Len(c2[0]) = 1 THEN c2[0][1] ELSE <<0>>) ELSE sh

\* ------------------------------------------------------------- bipartitions
BaseCases(fs) ==   \* the possible answers; {} stands for nullptr
  LET V == UnionOf(fs) IN
  IF Cardinality(V) = 1 THEN {<<CHOOSE x \in V : TRUE>>}
  ELSE IF Len(fs) <= 3 THEN {Chain(q, <<>>) : q \in Listings(V)} ELSE {}
\* side of each factor: at most limit on one side
Sides(n) == LET lim0 == (13 * ((n + 1) \div 2)) \div 10
                lim == IF lim0 >= n THEN n - 1 ELSE lim0
            IN {s \in [1..n -> {0, 1}] : \A b \in {0, 1} : Cardinality({i \in 1..n : s[i] = b}) <= lim}
Split(fs, side) ==
  LET VL == UNION {fs[i] : i \in {j \in 1..Len(fs) : side[j] = 0}}
      VR == UNION {fs[i] : i \in {j \in 1..Len(fs) : side[j] = 1}}
      cx == VL \cap VR
      rest == [i \in 1..Len(fs) |-> fs[i] \ cx]
      live == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : rest[i] # {})
      pick(P(_)) == LET q == SelectSeq(live, P) IN [j \in 1..Len(q) |-> rest[q[j]]]
      \* the code looks at the first variable left in the scope
      isl(i) == (CHOOSE x \in rest[i] : TRUE) \in VL
      isr(i) == ~isl(i)
  IN [cx |-> cx, l |-> pick(isl), r |-> pick(isr)]
Options(fs) == IF Len(fs) = 0 THEN {<<>>} ELSE LET b == BaseCases(fs) IN IF b = {} THEN {Hole("F", fs)} ELSE b
HyperStep ==
  LET fs == Holes(sh)[1][3] IN
  \E side \in Sides(Len(fs)) :
    LET p == TLCEval(Split(fs, side)) IN
    \E l \in Options(p.l), r \in Options(p.r) :
    \E q \in (IF p.cx = {} THEN {<<>>} ELSE Listings(p.cx)) :
      LET child == IF l = <<>> THEN r ELSE IF r = <<>> THEN l ELSE <<l, r>>
      IN /\ sh' = FillFirst(sh, Chain(q, child))
         /\ env' = env \o [i \in 1..Len(fs) |-> side[i]]

\* ------------------------------------------------------------- machine
Uncovered(q) == N \ UNION {Scope(q[j]) : j \in 1..Len(q)}
Init ==
  /\ done = FALSE
  /\ \E q \in Slice :
     /\ net = q
     /\ CASE C.mode = 4 -> \E o \in SetToSeqs(N) :
               \* the tool answers an elimination order; the last eliminated comes on top
               /\ env = o /\ aux = Reverse(o) /\ sh = Hole("G", N)
          [] C.mode = 2 -> \E p \in Rooted : \E bag \in [1..Len(p) -> SUBSET N] :
               /\ Valid(p, bag, [j \in 1..Len(q) |-> Scope(q[j])])
               /\ env = FoldLeft(LAMBDA a, i : a \o <<p[i], Cardinality(bag[i])>> \o SetToSortSeq(bag[i], <), <<>>, [i \in 1..Len(p) |-> i])
               /\ aux = [par |-> p, bag |-> bag, cache |-> [i \in 0..Len(p) |-> <<>>], left |-> 1..Len(p)]
               /\ sh = Hole("G", N)
          [] C.mode = 1 ->
               /\ env = <<>> /\ aux = 0
               /\ LET fs == [j \in 1..Len(q) |-> Scope(q[j])] \o [j \in 1..Cardinality(Uncovered(q)) |-> {SetToSortSeq(Uncovered(q), <)[j]}]
                  IN sh \in Options(fs)
Step == /\ Holes(sh) # <<>>
        /\ CASE C.mode = 4 -> MinfillStep /\ UNCHANGED aux
             [] C.mode = 2 -> JointreeStep
             [] C.mode = 1 -> HyperStep /\ UNCHANGED aux
        /\ UNCHANGED <<net, done>>
Finish == /\ Holes(sh) = <<>> /\ ~done
          /\ done' = TRUE /\ UNCHANGED <<net, sh, env, aux>>
          /\ PrintT("BEH|" \o ToString(<<C.mode, C.nv, net, env>>))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

OnceEach == LET q == LeafBag(sh) IN Len(q) = C.nv /\ {q[j] : j \in 1..Len(q)} = N
Fits == done => LET vt == MkVt(TabOf(sh)) IN \A j \in 1..Len(net) : Suitable(vt, Scope(net[j]))
=============================================================================
