------------------------------- MODULE MCOps --------------------------------
(***************************************************************************)
(* Every structure of a small vtree, every operation on it.                *)
(*                                                                         *)
(* Initial states: one per structure (per pair of structures for the       *)
(* product), built through the manager's requests.  Each step performs one *)
(* operation with the transcribed algorithm of Store.tla; the invariant    *)
(* asks that the operation's contract (Contract.tla, the same one that     *)
(* judges the real library) holds.  Weights are exact rationals, so the    *)
(* contracts hold with equality.  Every step is printed so that it can be  *)
(* repeated on the real code.                                              *)
(*                                                                         *)
(* Environment: VT the vtree as a postfix listing, OP the operation,       *)
(* MOD/REM the slice of structures, ONE a fixed structure for products.    *)
(***************************************************************************)
EXTENDS Terms, Json, IOUtils

\* configuration: vt postfix listing, op, slices mod/rem, tw/dw weight pairs, g/depth for draws
Shp == JsonDeserialize(IOEnv.CONF)
Wgt(q) == {<<<<q[i][1], q[i][2]>>, <<q[i][3], q[i][4]>>>> : i \in 1..Len(q)}

\* K: constants of the run, computed once
VARIABLES K, ta, tb, S, a, b, op, bad, beh
vars == <<K, ta, tb, S, a, b, op, bad, beh>>
VT == K.vt
XS == K.xs
CX == K.cx
W  == K.w
Evs == K.evs
MkK ==
  LET vt == MkVt(TabOf(ShapeOfRpn(Shp.vt)))
      xs == AllVars(vt)
      cx == MkCx(xs, SetToSeq(SUBSET xs), TRUE)
  IN [ vt |-> vt, xs |-> xs, cx |-> cx, w |-> [cx |-> cx, vt |-> <<vt, vt>>],
       \* the literals of all partial assignments
       evs |-> TLCEval({SetToSeq({IF s[x] = 1 THEN x ELSE -x : x \in {y \in xs : s[y] # 2}}) : s \in [xs -> 0..2]}) ]

Binary == Shp.op = "mul"
Init ==
  \E k \in {MkK} :
  \E q \in {SetToSeq(TermsAt(k.vt, k.vt.root, Wgt(Shp.tw), Wgt(Shp.dw)))} :
  /\ K = k
  /\ \E i \in {x \in 1..Len(q) : x % Shp.mod = Shp.rem % Shp.mod} : ta = q[i]
  /\ IF Binary THEN \E i \in {x \in 1..Len(q) : x % Shp.mod2 = Shp.rem2 % Shp.mod2} : tb = q[i] ELSE tb = <<>>
  /\ S = EmptyStore({1, 2}) /\ a = 0 /\ b = 0
  /\ op = "init" /\ bad = {} /\ beh = <<>>

\* the structures are built through the manager's requests
Make ==
  /\ op = "init"
  /\ LET x == Build(W, S, 1, ta, 0)
         y == IF Binary THEN Build(W, x.S, 1, tb, 0) ELSE [S |-> x.S, r |-> 0]
     IN /\ S' = y.S /\ a' = x.r /\ b' = y.r
        /\ bad' = Chk(y.S.nd[x.r].sup = {i \in CX.all : CX.P[i] \in TSup(ta, XS)}, "the structure differs from the term")
  /\ op' = "made" /\ beh' = <<>> /\ UNCHANGED <<K, ta, tb>>

nd == S.nd
\* the result of an operation: next store, broken promises, and what to repeat
Do(name, S2, msgs, what) == op' = name /\ S' = S2 /\ bad' = msgs /\ beh' = what /\ UNCHANGED <<K, ta, tb, a, b>>

EvalA ==
  LET bads == UNION {EvalPost(CX, VT, nd, a, q, Evaluate(W, nd, a, EvFun(q))) : q \in Evs}
  IN Do("eval", S, bads, <<"eval", SetToSeq(Evs)>>)
ConsA ==
  LET bads == UNION {Chk(Consistent(W, nd, a, EvFun(q)) = ConsVal(CX, VT, nd, a, q), "wrong consistency answer") : q \in Evs}
  IN Do("cons", S, bads, <<"cons", SetToSeq(Evs)>>)
MpeA ==
  LET x == Mpe(W, nd, a) IN Do("mpe", S, MpePost(CX, VT, nd, a, x.t, x.r), <<"mpe">>)
MarA == Do("mar", S, MarPost(CX, VT, nd, a, Marginals(W, nd, a)), <<"mar">>)
CountA == Do("count", S, Chk(Count(W, nd, a) = CountOf(CX, VT, nd, a), "wrong model count"), <<"count">>)
SizeA == Do("size", S, Chk(Size(W, nd, a) = SizeOf(nd, Reach(nd, {a})), "wrong size"), <<"size">>)
\* one or several roots: any two nodes of the structure
SerA ==
  LET R == Reach(nd, {a})
      rs == {<<a>>} \cup {<<i, j>> : i \in R, j \in R} \cup {<<i, a, j>> : i \in R, j \in R}
  IN Do("ser", S, UNION {SerPost(nd, q, Serial(W, nd, q)) : q \in rs}, <<"ser">>)
LoadA ==
  LET x == Load(W, S, 2, a, VT.root, 7)
      y == Load(W, x.S, 2, a, VT.root, 7)
      z == Load(W, y.S, 1, a, VT.root, 5)
      f == FileOf(W, nd, a)
      u == ReadFileInto(W, S, 1, f, 0)
      v == ReadFileInto(W, S, 2, f, 9)
  IN Do("load", S, LoadPost(CX, x.S.nd, a, x.r, VT.root, 7) \cup
          Chk(y.r = x.r /\ y.S = x.S, "copying twice gives another node") \cup
          LoadPost(CX, z.S.nd, a, z.r, VT.root, 5) \cup
          Chk(\A i \in 1..Len(x.S.nd) : i > Len(nd) => x.S.nd[i].m = 2, "copying changes the source manager") \cup
          Chk(u.r = a /\ u.S = S, "reading the file gives another node") \cup
          SameDen(CX, nd[a], v.S.nd[v.r], 0) \cup FlagPost(v.S.nd, v.r, {}, 9), <<"load">>)
GcA ==
  LET R == Reach(nd, {a})
      one(k) ==
        LET G == Gc(S, 1, k)
            B == Build(W, G, 1, ta, 0)
        IN Chk(\A i \in Reach(nd, k) : G.nd[i] = nd[i], "a retained node is altered") \cup
           Chk(\A i \in 1..Len(nd) : i \notin Reach(nd, k) => ~G.nd[i].live, "an unreachable node is kept") \cup
           Chk(B.S.nd[B.r].sup = nd[a].sup /\ B.S.nd[B.r].den = nd[a].den, "the rebuilt structure differs") \cup
           Chk(a \in k => B.r = a, "a retained node is not found") \cup
           Chk(a \notin k => B.r # a /\ \A i \in 1..Len(nd) : nd[i].x # B.S.nd[B.r].x, "a collected index is used again")
  IN Do("gc", S, UNION {one({i, j}) : i \in R, j \in R} \cup one({}), <<"gc">>)
LearnA ==
  LET N == 1..Len(CX.P)
      rowss == {<<>>} \cup {<<<<i, k>>>> : i \in N, k \in {1, 2}} \cup {<<<<i, 1>>, <<j, k>>>> : i \in N, j \in N, k \in {1, 3}}
      chk(rows, al) == LET x == Learn(W, S, 2, a, rows, al, 3) IN LearnPost(CX, x.S.nd, a, x.r, rows, al, 3)
  IN Do("learn", S, UNION {chk(rows, NOne) : rows \in {r \in rowss : Len(r) < 2 \/ r[1][1] # r[2][1]}} \cup
                    UNION {chk(rows, NFrac(1, 2)) : rows \in {r \in rowss : Len(r) < 2}},
        <<"learn">>)
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43>>
Draws == [j \in 1..Len(Primes) |-> NOfInt(Primes[j])]
SampA ==
  LET R == Reach(nd, {a})
      rs == {<<a>>} \cup {<<i, a>> : i \in R} \cup {<<a, i>> : i \in R}
      one(q) == LET x == Sample(W, S, 2, q, Draws, 4) IN SampPost(CX, x.S.nd, q, x.rs, Draws, x.used, 4)
  IN Do("samp", S, UNION {one(q) : q \in rs}, <<"samp">>)
\* all draw sequences with G values per draw
DrawA ==
  LET G == Shp.g
      D == Shp.depth
      seqs == [1..D -> 0..(G - 1)]
      outs == {[u |-> s, o |-> Draw(nd, a, [j \in 1..D |-> NFrac(s[j], G)], 0)] : s \in seqs}
      \* a draw sequence counts once for its used prefix
      kinds == {x.o : x \in outs}
      tally == {[t |-> k.t, d |-> k.d, c |-> Cardinality({[j \in 1..k.d |-> x.u[j]] : x \in {y \in outs : y.o = k}})] : k \in {q \in kinds : q.d <= D}}
  IN Do("draw", S, Chk(\A k \in kinds : k.d <= D, "too deep") \cup GridPost(CX, VT, nd, a, G, tally), <<"draw">>)
MulA ==
  LET x == Mul(W, S, 1, a, b, 6)
  IN Do("mul", x.S, MulPost(CX, x.S.nd, a, b, x.r, x.z, 6) \cup
        Chk(\A i \in 1..Len(nd) : x.S.nd[i] = nd[i], "an existing node was altered"), <<"mul">>)

Act ==
  /\ op = "made"
  /\ CASE Shp.op = "eval" -> EvalA [] Shp.op = "cons" -> ConsA [] Shp.op = "mpe" -> MpeA [] Shp.op = "mar" -> MarA
       [] Shp.op = "count" -> CountA [] Shp.op = "size" -> SizeA [] Shp.op = "ser" -> SerA [] Shp.op = "load" -> LoadA
       [] Shp.op = "gc" -> GcA [] Shp.op = "learn" -> LearnA [] Shp.op = "samp" -> SampA [] Shp.op = "draw" -> DrawA
       [] Shp.op = "mul" -> MulA
  /\ PrintT("BEH|" \o ToString(<<ta, tb, beh'>>))

Next == Make \/ Act
Spec == Init /\ [][Next]_vars
Good == bad = {}
View == <<ta, tb, op, bad>>
============================================================================
