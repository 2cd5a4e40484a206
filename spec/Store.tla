------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The library's state and algorithms, transcribed operation by operation  *)
(* from src/psdd_manager.cpp, src/psdd_node.cpp and                        *)
(* src/psdd_unique_table.cpp.  A store holds the nodes of all managers:    *)
(*   S.nd  every node ever interned (a node record of Sem; x is its index) *)
(*   S.nx  next index, per manager                                         *)
(* An operator Foo(..) that creates nodes takes the store and returns a    *)
(* record [S |-> new store, r |-> node id (0: null), ...].                 *)
(* W is the constant part: W.cx the probes, W.vt[m] the vtree of manager m.*)
(***************************************************************************)
EXTENDS Contract

EmptyStore(ms) == [nd |-> <<>>, nx |-> TLCEval([m \in ms |-> 0])]

\* ---------------------------------------------------------------- unique table
\* GetUniqueNode: the live node of manager m with this content, or a fresh one
Intern(W, S, m, v, f, k, l, p, s, w) ==
  LET same == {i \in 1..Len(S.nd) : LET n == S.nd[i] IN
                 n.live /\ n.m = m /\ n.v = v /\ n.k = k /\ n.f = f /\ n.l = l /\ n.p = p /\ n.s = s /\ n.w = w}
  IN IF same # {} THEN [S |-> S, r |-> Min(same)]
     ELSE LET id == Len(S.nd) + 1
              n0 == [ i |-> id, x |-> S.nx[m], m |-> m, v |-> v, f |-> f, k |-> k, l |-> l, p |-> p, s |-> s, w |-> w,
                      ok |-> TRUE, live |-> TRUE, ln |-> FALSE, sup |-> {}, den |-> <<>> ]
              sup == TLCEval(SupOf(W.cx, S.nd, n0))
              n1 == [n0 EXCEPT !.sup = sup, !.den = TLCEval(DenOf(W.cx, S.nd, n0, sup)),
                               !.ln = LocalOne(n0) /\ \A c \in Kids(n0) : S.nd[c].ln]
          IN [S |-> [nd |-> Append(S.nd, n1), nx |-> [S.nx EXCEPT ![m] = @ + 1]], r |-> id]

Lit(W, S, m, l, f) ==
  Intern(W, S, m, LeafOfVar(W.vt[m], IF l > 0 THEN l ELSE -l), f, "L", l, <<>>, <<>>, <<>>)
Top(W, S, m, x, f, wt, wf) == Intern(W, S, m, LeafOfVar(W.vt[m], x), f, "T", x, <<>>, <<>>, <<wt, wf>>)

\* PsddDecisionNode's constructor orders the elements by the index of their primes
RawDec(W, S, m, v, f, p, s, w) ==
  LET o == SetToSortSeq(1..Len(p), LAMBDA a, b : S.nd[p[a]].x < S.nd[p[b]].x)
      pick(q) == TLCEval([j \in 1..Len(o) |-> q[o[j]]])
  IN Intern(W, S, m, v, f, "D", 0, pick(p), pick(s), pick(w))

RECURSIVE True(_, _, _, _, _)
True(W, S, m, v, f) ==
  LET vt == W.vt[m] IN
  IF IsLeafAt(vt, v) THEN Top(W, S, m, RVar(vt.tab, v), f, NOne, NOne)
  ELSE LET b == True(W, S, m, RightOf(vt, v), f)
           a == True(W, b.S, m, LeftOf(vt, v), f)
       IN RawDec(W, a.S, m, v, f, <<a.r>>, <<b.r>>, <<NOne>>)

\* NormalizePsddNode: pad upwards until position v
RECURSIVE Pad(_, _, _, _, _, _)
Pad(W, S, m, v, a, f) ==
  LET vt == W.vt[m] p == S.nd[a].v IN
  IF p = v THEN [S |-> S, r |-> a]
  ELSE LET q == ParentOf(vt, p)
           t == True(W, S, m, IF LeftOf(vt, q) = p THEN RightOf(vt, q) ELSE LeftOf(vt, q), f)
           d == IF LeftOf(vt, q) = p THEN RawDec(W, t.S, m, q, f, <<a>>, <<t.r>>, <<NOne>>)
                ELSE RawDec(W, t.S, m, q, f, <<t.r>>, <<a>>, <<NOne>>)
       IN Pad(W, d.S, m, v, d.r, f)

\* GetConformedPsddDecisionNode
Dec(W, S, m, f, p, s, w) ==
  LET vt == W.vt[m]
      v == LCA(vt, {S.nd[p[1]].v, S.nd[s[1]].v})
      step(acc, j) ==
        LET a == Pad(W, acc.S, m, LeftOf(vt, v), p[j], f)
            b == Pad(W, a.S, m, RightOf(vt, v), s[j], f)
        IN [S |-> b.S, p |-> Append(acc.p, a.r), s |-> Append(acc.s, b.r)]
      c == FoldLeft(step, [S |-> S, p |-> <<>>, s |-> <<>>], [j \in 1..Len(p) |-> j])
  IN RawDec(W, c.S, m, v, f, c.p, c.s, w)

\* ---------------------------------------------------------------- traversal
\* SerializePsddNodes: breadth first; with several roots ordered by depth afterwards
RECURSIVE Bfs(_, _, _)
Bfs(nd, q, k) ==
  IF k > Len(q) THEN q
  ELSE LET n == nd[q[k]]
           add(acc, c) == IF c \in {acc[j] : j \in 1..Len(acc)} THEN acc ELSE Append(acc, c)
       IN Bfs(nd, FoldLeft(add, q, n.p \o n.s), k + 1)
Uniq(q) == FoldLeft(LAMBDA acc, c : IF c \in {acc[j] : j \in 1..Len(acc)} THEN acc ELSE Append(acc, c), <<>>, q)
Serial(W, nd, roots) ==
  LET q == Bfs(nd, Uniq(roots), 1)
      dep(i) == DepthOf(W.vt[nd[i].m], nd[i].v)
      o == SetToSortSeq(1..Len(q), LAMBDA a, b : dep(q[a]) < dep(q[b]) \/ (dep(q[a]) = dep(q[b]) /\ a < b))
  IN IF Len(roots) > 1 THEN [j \in 1..Len(q) |-> q[o[j]]] ELSE q
\* the nodes of a serialisation from the last to the first
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
RevSerial(W, nd, root) == Rev(Serial(W, nd, <<root>>))

\* GetPsddSize
Size(W, nd, root) ==
  FoldLeft(LAMBDA a, i : a + (IF nd[i].k = "D" THEN Len(nd[i].p) - 1 ELSE IF nd[i].k = "T" THEN 1 ELSE 0), 0,
           Serial(W, nd, <<root>>))

\* DeleteUnusedPsddNodes
Gc(S, m, used) ==
  LET R == Reach(S.nd, used)
  IN [S EXCEPT !.nd = TLCEval([i \in 1..Len(@) |-> IF @[i].m = m /\ i \notin R THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]])]

\* DeletePsddNodesWithoutFlagIndexes
GcFlags(S, m, keep) ==
  [S EXCEPT !.nd = TLCEval([i \in 1..Len(@) |-> IF @[i].m = m /\ @[i].f \notin keep THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]])]

\* ---------------------------------------------------------------- rebuilding passes
\* bottom-up over a structure: F(acc, n, map) -> [S, r]; returns [S, r, map]
Rebuild(W, S, roots, F(_, _, _)) ==
  LET q == Rev(Serial(W, S.nd, roots))
      step(acc, i) == LET x == F(acc, S.nd[i], acc.map) IN [acc EXCEPT !.S = x.S, !.ext = x.ext, !.map = (i :> x.r) @@ @]
  IN FoldLeft(step, [S |-> S, map |-> <<>>, ext |-> 0], q)

\* LoadPsddNode into manager m
Load(W, S, m, a, v, f) ==
  LET F(acc, n, map) ==
        LET x == IF n.k = "L" THEN Lit(W, acc.S, m, n.l, f)
                 ELSE IF n.k = "T" THEN Top(W, acc.S, m, n.l, f, n.w[1], n.w[2])
                 ELSE Dec(W, acc.S, m, f, [j \in 1..Len(n.p) |-> map[n.p[j]]], [j \in 1..Len(n.s) |-> map[n.s[j]]], n.w)
        IN [S |-> x.S, r |-> x.r, ext |-> acc.ext]
      b == Rebuild(W, S, <<a>>, F)
  IN Pad(W, b.S, m, v, b.map[a], f)

\* SampleParametersForMultiplePsdds; ext = number of draws used so far
Sample(W, S, m, roots, draws, f) ==
  LET sum(q) == FoldLeft(LAMBDA a, x : NAdd(a, x), NZero, q)
      F(acc, n, map) ==
        LET used == acc.ext
            k == IF n.k = "T" THEN 2 ELSE IF n.k = "D" THEN Len(n.p) ELSE 0
            d == [j \in 1..k |-> draws[used + j]]
            w == [j \in 1..k |-> NDiv(d[j], sum(d))]
            x == IF n.k = "L" THEN Lit(W, acc.S, m, n.l, f)
                 ELSE IF n.k = "T" THEN Top(W, acc.S, m, n.l, f, w[1], w[2])
                 ELSE Dec(W, acc.S, m, f, [j \in 1..k |-> map[n.p[j]]], [j \in 1..k |-> map[n.s[j]]], w)
        IN [S |-> x.S, r |-> x.r, ext |-> used + k]
      b == Rebuild(W, S, roots, F)
  IN [S |-> b.S, rs |-> [j \in 1..Len(roots) |-> b.map[roots[j]]], used |-> b.ext]

\* LearnPsddParameters: rows <<probe, multiplicity>>; values bottom up, contexts top down, weights bottom up
Learn(W, S, m, a, rows, alpha, f) ==
  LET q == Serial(W, S.nd, <<a>>)
      N == 1..Len(rows)
      holds(l, r) == rows[r][1] \in LitSup(W.cx, l)
      vstep(val, i) ==
        LET n == S.nd[i] IN
        (i :> (IF n.k = "L" THEN {r \in N : holds(n.l, r)} ELSE IF n.k = "T" THEN N
               ELSE UNION {val[n.p[j]] \cap val[n.s[j]] : j \in 1..Len(n.p)})) @@ val
      val == FoldLeft(vstep, <<>>, Rev(q))
      cstep(c, i) ==
        LET n == S.nd[i]
            cur == c[i]
        IN IF n.k # "D" THEN c
           ELSE FoldLeft(LAMBDA cc, j :
                  LET x == cur \cap val[n.p[j]] \cap val[n.s[j]]
                      c1 == [cc EXCEPT ![n.p[j]] = @ \cup x]
                  IN [c1 EXCEPT ![n.s[j]] = @ \cup x], c, [j \in 1..Len(n.p) |-> j])
      ctx == FoldLeft(cstep, [i \in {q[j] : j \in 1..Len(q)} |-> IF i = a THEN N ELSE {}], q)
      cnt(X) == NOfInt(FoldLeft(LAMBDA acc, r : acc + rows[r][2], 0, Asc(X)))
      F(acc, n, map) ==
        LET c == ctx[n.i]
            raw == IF n.k = "T" THEN <<cnt({r \in c : holds(n.l, r)}), cnt({r \in c : ~holds(n.l, r)})>>
                   ELSE [j \in 1..Len(n.p) |-> cnt(c \cap val[n.p[j]] \cap val[n.s[j]])]
            sm == [j \in 1..Len(raw) |-> NAdd(raw[j], alpha)]
            z == FoldLeft(LAMBDA b, x : NAdd(b, x), NZero, sm)
            w == [j \in 1..Len(sm) |-> NDiv(sm[j], z)]
            x == IF n.k = "L" THEN Lit(W, acc.S, m, n.l, f)
                 ELSE IF n.k = "T" THEN Top(W, acc.S, m, n.l, f, w[1], w[2])
                 ELSE Dec(W, acc.S, m, f, [j \in 1..Len(n.p) |-> map[n.p[j]]], [j \in 1..Len(n.s) |-> map[n.s[j]]], w)
        IN [S |-> x.S, r |-> x.r, ext |-> acc.ext]
      b == Rebuild(W, S, <<a>>, F)
  IN [S |-> b.S, r |-> b.map[a]]

\* ---------------------------------------------------------------- product
\* MultiplyWithCache; ca maps pairs already computed to <<node, constant>>
RECURSIVE MulC(_, _, _, _, _, _, _)
MulC(W, S, m, a, b, f, ca) ==
  IF <<a, b>> \in DOMAIN ca THEN [S |-> S, ca |-> ca, r |-> ca[<<a, b>>][1], z |-> ca[<<a, b>>][2]]
  ELSE
  LET x == S.nd[a] y == S.nd[b]
      done(S1, ca1, r, z) == [S |-> S1, ca |-> (<<a, b>> :> <<r, z>>) @@ ca1, r |-> r, z |-> z]
  IN IF x.k = "D"
     THEN LET nb == Len(y.p)
              step(acc, q) ==
                LET i == ((q - 1) \div nb) + 1
                    j == ((q - 1) % nb) + 1
                    pr == MulC(W, acc.S, m, x.p[i], y.p[j], f, acc.ca)
                IN IF pr.r = 0 THEN [acc EXCEPT !.S = pr.S, !.ca = pr.ca]
                   ELSE LET sr == MulC(W, pr.S, m, x.s[i], y.s[j], f, pr.ca)
                        IN IF sr.r = 0 THEN [acc EXCEPT !.S = sr.S, !.ca = sr.ca]
                           ELSE [ S |-> sr.S, ca |-> sr.ca, p |-> Append(acc.p, pr.r), s |-> Append(acc.s, sr.r),
                                  w |-> Append(acc.w, NMul(NMul(x.w[i], y.w[j]), NMul(pr.z, sr.z))) ]
              t == FoldLeft(step, [S |-> S, ca |-> ca, p |-> <<>>, s |-> <<>>, w |-> <<>>], [q \in 1..(Len(x.p) * nb) |-> q])
              z == FoldLeft(LAMBDA c, v : NAdd(c, v), NZero, t.w)
          IN IF t.p = <<>> THEN done(t.S, t.ca, 0, NZero)
             ELSE LET d == Dec(W, t.S, m, f, t.p, t.s, [j \in 1..Len(t.w) |-> NDiv(t.w[j], z)])
                  IN done(d.S, t.ca, d.r, z)
     ELSE IF x.k = "L" /\ y.k = "L"
     THEN IF x.l = y.l THEN LET n == Lit(W, S, m, x.l, f) IN done(n.S, ca, n.r, NOne)
          ELSE done(S, ca, 0, NZero)
     ELSE IF x.k = "L" \/ y.k = "L"
     THEN LET l == IF x.k = "L" THEN x.l ELSE y.l
              t == IF x.k = "L" THEN y ELSE x
              n == Lit(W, S, m, l, f)
          IN done(n.S, ca, n.r, IF l > 0 THEN t.w[1] ELSE t.w[2])
     ELSE LET u == NMul(x.w[1], y.w[1])
              v == NMul(x.w[2], y.w[2])
              z == NAdd(u, v)
              n == Top(W, S, m, x.l, f, NDiv(u, z), NDiv(v, z))
          IN done(n.S, ca, n.r, z)
Mul(W, S, m, a, b, f) == MulC(W, S, m, a, b, f, <<>>)

\* ---------------------------------------------------------------- queries
\* pass over the reversed serialisation, F(n, values so far)
Pass(W, nd, root, F(_, _)) ==
  FoldLeft(LAMBDA val, i : TLCEval((i :> F(nd[i], val)) @@ val), <<>>, RevSerial(W, nd, root))
AbsV(l) == IF l > 0 THEN l ELSE -l

\* Evaluate: ev maps evidence variables to values; a top node without evidence counts one
Evaluate(W, nd, root, ev) ==
  LET F(n, val) ==
        IF n.k = "L" THEN (IF AbsV(n.l) \in DOMAIN ev /\ ev[AbsV(n.l)] # (n.l > 0) THEN NZero ELSE NOne)
        ELSE IF n.k = "T" THEN (IF n.l \in DOMAIN ev THEN (IF ev[n.l] THEN n.w[1] ELSE n.w[2]) ELSE NOne)
        ELSE FoldLeft(LAMBDA a, j : NAdd(a, NMul(NMul(val[n.p[j]], val[n.s[j]]), n.w[j])), NZero, [j \in 1..Len(n.p) |-> j])
  IN Pass(W, nd, root, F)[root]

\* IsConsistent
Consistent(W, nd, root, ev) ==
  LET F(n, val) ==
        IF n.k = "L" THEN ~(AbsV(n.l) \in DOMAIN ev) \/ ev[AbsV(n.l)] = (n.l > 0)
        ELSE IF n.k = "T" THEN TRUE
        ELSE \E j \in 1..Len(n.p) : val[n.p[j]] /\ val[n.s[j]]
  IN Pass(W, nd, root, F)[root]

\* ModelCount
Count(W, nd, root) ==
  LET F(n, val) == IF n.k = "L" THEN BOfInt(1) ELSE IF n.k = "T" THEN BOfInt(2)
                   ELSE FoldLeft(LAMBDA a, j : BAdd(a, BMul(val[n.p[j]], val[n.s[j]])), BOfInt(0), [j \in 1..Len(n.p) |-> j])
  IN Pass(W, nd, root, F)[root]

\* GetMPESolution: choices bottom up (first strictly greater wins), extraction top down
Mpe(W, nd, root) ==
  LET F(n, val) ==
        IF n.k = "L" THEN [v |-> NOne, c |-> 0]
        ELSE IF n.k = "T" THEN (IF NLess(n.w[2], n.w[1]) THEN [v |-> n.w[1], c |-> 1] ELSE [v |-> n.w[2], c |-> 0])
        ELSE FoldLeft(LAMBDA a, j :
               LET x == NMul(NMul(val[n.p[j]].v, val[n.s[j]].v), n.w[j])
               IN IF NLess(a.v, x) THEN [v |-> x, c |-> j] ELSE a, [v |-> NZero, c |-> 1], [j \in 1..Len(n.p) |-> j])
      val == Pass(W, nd, root, F)
      get[i \in Reach(nd, {root})] ==
        LET n == nd[i] IN
        IF n.k = "L" THEN (IF n.l > 0 THEN {n.l} ELSE {})
        ELSE IF n.k = "T" THEN (IF val[i].c = 1 THEN {n.l} ELSE {})
        ELSE get[n.p[val[i].c]] \cup get[n.s[val[i].c]]
  IN [t |-> get[root], r |-> val[root].v]

\* GetMarginals: derivatives top down, then the two sums of each variable renormalised
Marginals(W, nd, root) ==
  LET q == Serial(W, nd, <<root>>)
      R == {q[j] : j \in 1..Len(q)}
      dstep(d, i) ==
        LET n == nd[i] IN
        IF n.k # "D" THEN d
        ELSE FoldLeft(LAMBDA dd, j :
               LET x == NMul(d[i], n.w[j])
                   d1 == [dd EXCEPT ![n.p[j]] = NAdd(@, x)]
               IN [d1 EXCEPT ![n.s[j]] = NAdd(@, x)], d, [j \in 1..Len(n.p) |-> j])
      der == FoldLeft(dstep, [i \in R |-> IF i = root THEN NOne ELSE NZero], q)
      X == {AbsV(nd[i].l) : i \in {j \in R : nd[j].k # "D"}}
      part(x, b) == FoldLeft(LAMBDA a, i :
                      LET n == nd[i] IN
                      IF n.k = "D" \/ AbsV(n.l) # x THEN a
                      ELSE IF n.k = "L" THEN (IF (n.l > 0) = b THEN NAdd(a, der[i]) ELSE a)
                      ELSE NAdd(a, NMul(der[i], IF b THEN n.w[1] ELSE n.w[2])), NZero, q)
  IN [x \in X |-> LET f == part(x, FALSE) t == part(x, TRUE) z == NAdd(f, t) IN <<NDiv(f, z), NDiv(t, z)>>]

\* DirectSample on draws u[1], u[2], ... in [0, 1): [t, d] or d = 0 when they run out
\* decision: the first element whose cumulated weight exceeds the draw
RECURSIVE Draw(_, _, _, _)
Draw(nd, i, u, used) ==
  LET n == nd[i] IN
  IF n.k = "L" THEN [t |-> IF n.l > 0 THEN {n.l} ELSE {}, d |-> used]
  ELSE IF used >= Len(u) THEN [t |-> {}, d |-> Len(u) + 1]
  ELSE IF n.k = "T" THEN [t |-> IF NLess(u[used + 1], n.w[1]) THEN {n.l} ELSE {}, d |-> used + 1]
  ELSE LET pos == {j \in 1..Len(n.w) : n.w[j] # NZero}
           hit == {j \in pos : NLess(u[used + 1], FoldLeft(LAMBDA a, k : NAdd(a, n.w[k]), NZero, [k \in 1..j |-> k]))}
           j == IF hit = {} THEN Max(pos) ELSE Min(hit)
           a == Draw(nd, n.p[j], u, used + 1)
           b == Draw(nd, n.s[j], u, a.d)
       IN IF a.d > Len(u) THEN a ELSE [t |-> a.t \cup b.t, d |-> b.d]

\* ---------------------------------------------------------------- files
\* WritePsddToFile / ReadPsddFile on the level of records: children first,
\* numbered from zero; weights as written (the model's file is exact)
FileOf(W, nd, root) ==
  LET q == RevSerial(W, nd, root)
      num == [i \in {q[j] : j \in 1..Len(q)} |-> (CHOOSE j \in 1..Len(q) : q[j] = i) - 1]
  IN [j \in 1..Len(q) |-> LET n == nd[q[j]] IN
        [k |-> n.k, n |-> j - 1, v |-> n.v, l |-> n.l, w |-> n.w,
         p |-> [e \in 1..Len(n.p) |-> num[n.p[e]]], s |-> [e \in 1..Len(n.s) |-> num[n.s[e]]]]]
ReadFileInto(W, S, m, file, f) ==
  LET step(acc, ln) ==
        LET x == IF ln.k = "L" THEN Lit(W, acc.S, m, ln.l, f)
                 ELSE IF ln.k = "T" THEN Top(W, acc.S, m, ln.l, f, ln.w[1], ln.w[2])
                 ELSE Dec(W, acc.S, m, f, [e \in 1..Len(ln.p) |-> acc.map[ln.p[e]]], [e \in 1..Len(ln.s) |-> acc.map[ln.s[e]]], ln.w)
        IN [S |-> x.S, map |-> (ln.n :> x.r) @@ acc.map, r |-> x.r]
  IN FoldLeft(step, [S |-> S, map |-> <<>>, r |-> 0], file)
============================================================================
