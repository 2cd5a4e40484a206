------------------------------- MODULE MCComp -------------------------------
(***************************************************************************)
(* Compiling networks: every small network (in the slice) on a small       *)
(* vtree, factor by factor, then combined by each strategy with each       *)
(* collection period.  One step per factor, product or collection.         *)
(*   strategy 0  one running product, factors from right to left           *)
(*   strategy 1  the factors of one leaf first, then first-in first-out    *)
(*   strategy 2  first-in first-out over all factors                       *)
(* Invariants: each compiled factor is its table (Contract!RatioPost);     *)
(* at every moment the pending nodes together with the constant are the    *)
(* product of the factors taken so far; what is pending is live.           *)
(*                                                                         *)
(* Configuration: vt, scopes (lists of variables), vals (numerators of     *)
(* table entries, denominator one), nf, width (branching of the slice),    *)
(* rem, freqs, stride.                                                     *)
(***************************************************************************)
EXTENDS NetStore, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)

VARIABLES K, net, pick, S, todo, queue, groups, z, st, gf, k, bad, fin
vars == <<K, net, pick, S, todo, queue, groups, z, st, gf, k, bad, fin>>

NV == Len(C.vals)
\* factors are numbered; fs: the suitable scopes, up: the first number after the factors of each
MkK(dummy) ==
       LET vt == MkVt(TabOf(ShapeOfRpn(C.vt)))
           xs == AllVars(vt)
           cx == MkCx(xs, SetToSeq(SUBSET xs), TRUE)
           fs == SelectSeq(C.scopes, LAMBDA q : Suitable(vt, {q[j] : j \in 1..Len(q)}))
           up == FoldLeft(LAMBDA acc, q : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + NV ^ (2 ^ Len(q))), <<>>, fs)
       IN [vt |-> vt, cx |-> cx, w |-> [cx |-> cx, vt |-> <<vt>>], fs |-> fs, up |-> up, nv |-> Cardinality(xs)]
Total(kk) == kk.up[Len(kk.up)]
FactorOf(kk, n) ==
  LET i == Min({j \in 1..Len(kk.up) : n <= kk.up[j]})
      r == n - 1 - (IF i = 1 THEN 0 ELSE kk.up[i - 1])
  IN TLCEval(<<kk.fs[i], TLCEval([e \in 1..(2 ^ Len(kk.fs[i])) |-> NOfInt(C.vals[((r \div (NV ^ (e - 1))) % NV) + 1])])>>)
VT == K.vt
W == K.w
CX == K.cx
\* the slice: a first factor, then C.width choices for each further one
Next1(M, i, t, d) == (((((i * 7919) + (t * 104729) + (d * 1299709)) % 1000003) * 1021 + ((C.rem % 1000) * 7907)) % M) + 1
RECURSIVE Picks(_, _, _)
Picks(M, q, d) == IF d = 0 THEN {q} ELSE {q} \cup UNION {Picks(M, Append(q, Next1(M, q[Len(q)] % 20011, t, Len(q))), d - 1) : t \in 1..C.width}
NetOf(kk, q) == [ty |-> 1, nv |-> kk.nv, nf |-> Len(q), sc |-> TLCEval([j \in 1..Len(q) |-> FactorOf(kk, q[j])[1]]), tb |-> TLCEval([j \in 1..Len(q) |-> FactorOf(kk, q[j])[2]])]
Satis(kk, nn) == \E i \in kk.cx.all : NetVal(nn, kk.cx.P[i]) # NZero

Init ==
  \E kk \in {MkK(0)} :
    /\ K = kk
    /\ \E i \in {1 + (C.rem % C.mod) + (C.mod * t) : t \in 0..((Total(kk) - 1 - (C.rem % C.mod)) \div C.mod)} : \E q \in Picks(Total(kk), <<i>>, C.nf - 1) :
         /\ pick = q
         /\ net = NetOf(kk, q)
         /\ Satis(kk, NetOf(kk, q))
    /\ S = EmptyStore({1}) /\ todo = 1 /\ queue = <<>> /\ groups = <<>> /\ z = NOne /\ st = 9 /\ gf = 0 /\ k = 0 /\ bad = {} /\ fin = FALSE

Taken == todo - 1     \* factors compiled so far
LoadFactor ==
  /\ st = 9 /\ todo <= net.nf
  /\ LET r == CompileFactor(W, S, 1, net, todo) IN
     /\ S' = r.S /\ queue' = Append(queue, r.r) /\ z' = NMul(z, r.z)
     /\ bad' = RatioPost(CX, r.S.nd, r.r, r.z, LAMBDA T : FactorVal(net, todo, T), "factor")
  /\ todo' = todo + 1
  /\ UNCHANGED <<K, net, pick, groups, st, gf, k, fin>>
Choose ==
  /\ st = 9 /\ todo > net.nf
  /\ \E s \in 0..2 : \E f \in {C.freqs[i] : i \in 1..Len(C.freqs)} :
       /\ st' = s /\ gf' = f
       /\ IF s = 1 THEN /\ groups' = LET g == Groups(VT, net) IN [i \in 1..Len(g) |-> [j \in 1..Len(g[i]) |-> queue[g[i][j]]]]
                        /\ queue' = <<>>
          ELSE \E o \in DownOrders(VT, net) : queue' = [j \in 1..Len(o) |-> queue[o[j]]] /\ UNCHANGED groups
  /\ UNCHANGED <<K, net, pick, S, todo, z, k, bad, fin>>
Times(x, y) == Mul(W, S, 1, x, y, 0)
MulOK(r, x, y) == MulPost(CX, r.S.nd, x, y, r.r, r.z, 0)
\* strategy 1, first part: the nodes of one leaf
InGroup ==
  /\ st = 1 /\ groups # <<>>
  /\ LET g == groups[1] IN
     IF Len(g) = 1 THEN /\ queue' = Append(queue, g[1]) /\ groups' = Tail(groups) /\ UNCHANGED <<S, z, k, bad>>
     ELSE LET r == Times(g[1], g[2]) IN
          /\ S' = r.S /\ z' = NMul(z, r.z) /\ k' = k + 1 /\ bad' = MulOK(r, g[1], g[2])
          /\ groups' = <<<<r.r>> \o SubSeq(g, 3, Len(g))>> \o Tail(groups)
          /\ UNCHANGED queue
  /\ UNCHANGED <<K, net, pick, todo, st, gf, fin>>
Combine ==
  /\ st \in 0..2 /\ groups = <<>> /\ Len(queue) > 1
  /\ LET r == Times(queue[1], queue[2])
         rest == SubSeq(queue, 3, Len(queue))
         q2 == IF st = 0 THEN <<r.r>> \o rest ELSE Append(rest, r.r)
     IN /\ queue' = q2 /\ z' = NMul(z, r.z) /\ k' = k + 1 /\ bad' = MulOK(r, queue[1], queue[2])
        /\ S' = IF st # 0 /\ (k + 1) % gf = 0 THEN Gc(r.S, 1, {q2[j] : j \in 1..Len(q2)}) ELSE r.S
  /\ UNCHANGED <<K, net, pick, todo, groups, st, gf, fin>>
Done ==
  /\ st \in 0..2 /\ groups = <<>> /\ Len(queue) = 1 /\ ~fin
  /\ fin' = TRUE
  /\ bad' = RatioPost(CX, S.nd, queue[1], z, LAMBDA T : NetVal(net, T), "network")
  /\ IF (pick[1] + 7 * pick[Len(pick)] + st) % C.stride = C.rem % C.stride
     THEN PrintT("BEH|" \o ToString(<<net.sc, [j \in 1..net.nf |-> [e \in 1..Len(net.tb[j]) |-> net.tb[j][e][1]]], st, gf>>)) ELSE TRUE
  /\ UNCHANGED <<K, net, pick, S, todo, queue, groups, z, st, gf, k>>
Next == LoadFactor \/ Choose \/ InGroup \/ Combine \/ Done
Spec == Init /\ [][Next]_vars

Good == bad = {}
Pending == queue \o FoldLeft(LAMBDA a, g : a \o g, <<>>, groups)
Product ==
  \A i \in CX.all :
    NMul(z, FoldLeft(LAMBDA a, x : NMul(a, IF x = 0 THEN NZero ELSE DenAt(S.nd[x], i)), NOne, Pending))
    = FoldLeft(LAMBDA a, j : NMul(a, FactorVal(net, j, CX.P[i])), NOne, [j \in 1..Taken |-> j])
Live == \A j \in 1..Len(Pending) : Pending[j] # 0 /\ \A i \in Reach(S.nd, {Pending[j]}) : S.nd[i].live
OneEach == \A a, b \in 1..Len(S.nd) : a < b /\ S.nd[a].live /\ S.nd[b].live =>
             LET f(n) == <<n.v, n.k, n.l, n.p, n.s, n.w>> IN f(S.nd[a]) # f(S.nd[b])
View == <<pick, todo, queue, groups, z, st, gf, k, bad, fin>>
=============================================================================
