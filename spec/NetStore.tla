------------------------------ MODULE NetStore ------------------------------
(***************************************************************************)
(* src/pgm_compiler.cpp on the stores of Store.tla: compiling one factor,  *)
(* and the parts the three strategies for whole networks are made of.      *)
(* A network is the record of Formats: nv, nf, sc (scopes in written       *)
(* order), tb (tables, the last variable of the scope is the lowest bit).  *)
(***************************************************************************)
EXTENDS Store, Formats

Pow2(k) == 2 ^ k
HasBit(c, k) == (c \div Pow2(k)) % 2 = 1
ClearBit(c, k) == IF HasBit(c, k) THEN c - Pow2(k) ELSE c

\* compile_factor: variables from the rightmost leaf to the leftmost; a context is an
\* index into the table with the bits of the variables already summed out cleared
CompileFactor(W, S, m, net, j) ==
  LET vt == W.vt[m]
      sc == Reverse(net.sc[j])                      \* bit k is sc[k + 1]
      tb == net.tb[j]
      o == SetToSortSeq(1..Len(sc), LAMBDA a, b : LeafOfVar(vt, sc[a]) > LeafOfVar(vt, sc[b]))
      x1 == sc[o[1]] k1 == o[1] - 1
      \* the rightmost variable: a literal or a top per context
      base(acc, c) ==
        LET ng == tb[c + 1] ps == tb[c + Pow2(k1) + 1] z == NAdd(ng, ps)
            n == IF z = NZero THEN [S |-> acc.S, r |-> 0]
                 ELSE IF ps = NZero THEN Lit(W, acc.S, m, -x1, 0)
                 ELSE IF ng = NZero THEN Lit(W, acc.S, m, x1, 0)
                 ELSE Top(W, acc.S, m, x1, 0, NDiv(ps, z), NDiv(ng, z))
        IN [S |-> n.S, nd |-> (c :> n.r) @@ acc.nd, z |-> (c :> z) @@ acc.z]
      contexts(C, k) == {ClearBit(c, k) : c \in C}
      start == FoldLeft(base, [S |-> S, nd |-> <<>>, z |-> <<>>], Asc(contexts(0..(Len(tb) - 1), k1)))
      level(acc, i) ==
        LET x == sc[o[i]] k == o[i] - 1
            one(a2, c) ==
              LET cp == c + Pow2(k)
                  ng == acc.z[c] ps == acc.z[cp] z == NAdd(ng, ps)
                  lp == Lit(W, a2.S, m, x, 0)
                  n == IF z = NZero THEN [S |-> a2.S, r |-> 0]
                       ELSE IF ps = NZero THEN LET ln == Lit(W, a2.S, m, -x, 0) IN Dec(W, ln.S, m, 0, <<ln.r>>, <<acc.nd[c]>>, <<NOne>>)
                       ELSE IF ng = NZero THEN Dec(W, lp.S, m, 0, <<lp.r>>, <<acc.nd[cp]>>, <<NOne>>)
                       ELSE LET ln == Lit(W, lp.S, m, -x, 0)
                            IN Dec(W, ln.S, m, 0, <<lp.r, ln.r>>, <<acc.nd[cp], acc.nd[c]>>, <<NDiv(ps, z), NDiv(ng, z)>>)
              IN [S |-> n.S, nd |-> (c :> n.r) @@ a2.nd, z |-> (c :> z) @@ a2.z]
            r == FoldLeft(one, [S |-> acc.S, nd |-> <<>>, z |-> <<>>], Asc(contexts(DOMAIN acc.z, k)))
        IN r
      fin == FoldLeft(level, start, [i \in 1..(Len(o) - 1) |-> i + 1])
      res == fin.nd[0]
      p == IF res = 0 THEN [S |-> fin.S, r |-> 0] ELSE Pad(W, fin.S, m, vt.root, res, 0)
  IN [S |-> p.S, r |-> p.r, z |-> fin.z[0]]

\* position of the leftmost leaf among the variables of a factor
LowLeaf(vt, net, j) == Min({LeafOfVar(vt, x) : x \in {net.sc[j][i] : i \in 1..Len(net.sc[j])}})
\* orders in which the factors may be taken: leftmost leaf descending, ties in any order
DownOrders(vt, net) ==
  {q \in SetToSeqs(1..net.nf) : \A a \in 1..net.nf, b \in 1..net.nf : a < b => LowLeaf(vt, net, q[a]) >= LowLeaf(vt, net, q[b])}
\* the vtree-guided strategy: leaves in reversed breadth-first order, the factors of one leaf in their own order
RECURSIVE BfsV(_, _, _)
BfsV(vt, q, k) == IF k > Len(q) THEN q ELSE BfsV(vt, IF IsLeafAt(vt, q[k]) THEN q ELSE q \o <<LeftOf(vt, q[k]), RightOf(vt, q[k])>>, k + 1)
Groups(vt, net) ==
  LET V == Reverse(BfsV(vt, <<vt.root>>, 1))
      at(v) == SelectSeq([j \in 1..net.nf |-> j], LAMBDA j : LowLeaf(vt, net, j) = v)
  IN SelectSeq([i \in 1..Len(V) |-> at(V[i])], LAMBDA g : g # <<>>)
=============================================================================
