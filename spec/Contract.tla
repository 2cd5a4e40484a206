----------------------------- MODULE Contract ------------------------------
(***************************************************************************)
(* What every operation of the library promises, as predicates over the    *)
(* structures before and after the call.  Each contract yields the set of  *)
(* broken promises (strings); the empty set means the step is allowed.     *)
(* The same contracts judge recorded calls of the real library             *)
(* (PsddTrace) and the transcribed algorithms of the exhaustive model      *)
(* (MCOps).                                                                *)
(***************************************************************************)
EXTENDS Sem

Chk(c, msg) == IF c THEN {} ELSE {msg}

OpTol(cx) == 5000 * (Cardinality(cx.vars) + 2)
PosOK(nd, res, pos) == Chk(nd[res].v = pos, "wrong vtree position")
FlagPost(nd, res, args, f) ==
  Chk(\A i \in Reach(nd, {res}) \ Reach(nd, args) : nd[i].f = f, "node of another flag in the result")
SameDen(cx, a, b, tol) ==
  Chk(a.sup = b.sup, "different supported assignments") \cup
  Chk(\A i \in a.sup \cap b.sup : NNear(b.den[i], a.den[i], tol), "different weights")

\* ---------------------------------------------------------------- building
LitPost(nd, res, l, f) ==
  Chk(res # 0, "no node") \cup
  (IF res = 0 THEN {} ELSE
   Chk(nd[res].k = "L" /\ nd[res].l = l /\ nd[res].f = f, "literal node does not carry the requested content"))

ParTol == 2100   \* 2.1e-7: two buckets of the documented rounding around one
TopPost(nd, res, l, f, w) ==
  Chk(res # 0, "no node") \cup
  (IF res = 0 THEN {} ELSE
   LET n == nd[res] IN
   Chk(n.k = "T" /\ n.l = l /\ n.f = f, "top node does not carry the requested content") \cup
   (IF n.k # "T" THEN {} ELSE
     Chk(NNear(n.w[1], w[1], ParTol) /\ NNear(n.w[2], w[2], ParTol), "top node does not carry the requested weights")))

\* p, s: node ids of the given elements; w their weights
DecPost(cx, vt, nd, res, p, s, w, f) ==
  Chk(res # 0, "no node") \cup
  (IF res = 0 THEN {} ELSE
   LET n == nd[res]
       pos == LCA(vt, {nd[p[1]].v, nd[s[1]].v})
       left == LeftOf(vt, pos) right == RightOf(vt, pos)
       match(j, e) == /\ nd[n.p[e]].sup = nd[p[j]].sup
                      /\ nd[n.s[e]].sup = nd[s[j]].sup
                      /\ (nd[p[j]].v = left => n.p[e] = p[j])
                      /\ (nd[s[j]].v = right => n.s[e] = s[j])
                      /\ NNear(n.w[e], w[j], ParTol)
   IN Chk(n.k = "D" /\ n.f = f, "not a decision node with the requested flag") \cup
      (IF n.k # "D" \/ ~n.ok THEN {} ELSE
        PosOK(nd, res, pos) \cup
        Chk(Len(n.p) = Len(p) /\ \A j \in 1..Len(p) : \E e \in 1..Len(n.p) : match(j, e),
            "elements differ from the requested ones") \cup
        Chk(n.sup = UNION {nd[p[j]].sup \cap nd[s[j]].sup : j \in 1..Len(p)}, "wrong supported assignments") \cup
        Chk(\A i \in n.sup :
              NNear(n.den[i],
                    FoldLeft(LAMBDA acc, j : NAdd(acc, NMul(w[j], NMul(DenAt(nd[p[j]], i), DenAt(nd[s[j]], i)))),
                             NZero, [j \in 1..Len(p) |-> j]), OpTol(cx)),
            "weights are not those of the requested elements") \cup
        FlagPost(nd, res, {p[j] : j \in 1..Len(p)} \cup {s[j] : j \in 1..Len(s)}, f)))

TruePost(cx, nd, res, pos, f) ==
  Chk(res # 0, "no node") \cup
  (IF res = 0 THEN {} ELSE
   PosOK(nd, res, pos) \cup
   Chk(nd[res].sup = cx.all, "the all-true node rejects an assignment") \cup
   Chk(\A i \in nd[res].sup : NNear(nd[res].den[i], NOne, OpTol(cx)), "the all-true node does not weigh one") \cup
   FlagPost(nd, res, {}, f))

NormPost(cx, nd, a, res, pos, f) ==
  Chk(res # 0, "no node") \cup
  (IF res = 0 THEN {} ELSE
   PosOK(nd, res, pos) \cup SameDen(cx, nd[a], nd[res], OpTol(cx)) \cup FlagPost(nd, res, {a}, f))

LoadPost(cx, nd, a, res, pos, f) ==
  Chk(res # 0, "no node") \cup
  (IF res = 0 THEN {} ELSE
   PosOK(nd, res, pos) \cup SameDen(cx, nd[a], nd[res], OpTol(cx)) \cup FlagPost(nd, res, {}, f))

\* compiled Boolean function with the given models (indices of probes)
CompilePost(cx, nd, res, models, pos, f) ==
  IF res = 0 THEN Chk(models = {}, "null result for a satisfiable function")
  ELSE Chk(cx.exh => models # {}, "non-null result for an unsatisfiable function") \cup
       PosOK(nd, res, pos) \cup
       Chk(nd[res].sup \ models = {}, "supports an assignment that is no model") \cup
       Chk(models \ nd[res].sup = {}, "does not support a model") \cup
       FlagPost(nd, res, {}, f)

\* ---------------------------------------------------------------- product
MulPost(cx, nd, a, b, res, z, f) ==
  LET S == nd[a].sup \cap nd[b].sup IN
  IF res = 0
  THEN Chk(S = {}, "null product of compatible structures") \cup Chk(NEq(z, NZero), "null product with non-zero constant")
  ELSE LET n == nd[res] IN
       Chk(cx.exh => S # {}, "non-null product of incompatible structures") \cup
       PosOK(nd, res, nd[a].v) \cup
       Chk(n.sup = S, "product supports other assignments than both arguments") \cup
       Chk(\A i \in n.sup \cap S : NNear(NMul(n.den[i], z), NMul(nd[a].den[i], nd[b].den[i]), OpTol(cx)),
           "product times constant differs from the pointwise product") \cup
       Chk(n.ln, "product is not locally normalised") \cup
       FlagPost(nd, res, {}, f)

\* ---------------------------------------------------------------- queries
\* evidence as a list of literals
EvFun(q) == [x \in {IF q[j] > 0 THEN q[j] ELSE -q[j] : j \in 1..Len(q)} |-> \E j \in 1..Len(q) : q[j] = x]
StructVars(vt, nd, a) == VarsAt(vt, nd[a].v)

EvalVal(cx, vt, nd, a, q) ==
  LET ev == EvFun(q) X == StructVars(vt, nd, a) IN
  IF cx.exh THEN SumOver(nd[a], MatchEv(cx, [x \in DOMAIN ev \cap X |-> ev[x]]) \cap Repr(cx, X))
  ELSE PartialVal(nd, a, ev)
Complete(vt, nd, a, q) == StructVars(vt, nd, a) \subseteq DOMAIN EvFun(q)
EvalTol(cx) == 100 * (Cardinality(cx.vars) + 2)
\* partial evidence is only promised where the distributions at the leaves are
\* normalised (weights may have been rounded by interning)
TopsNormal(nd, a) == \A i \in Reach(nd, {a}) : nd[i].k = "T" => LocalOne(nd[i])
EvalPost(cx, vt, nd, a, q, r) ==
  IF Complete(vt, nd, a, q) THEN Chk(NNear(r, EvalVal(cx, vt, nd, a, q), EvalTol(cx)), "wrong weight of an assignment")
  ELSE IF nd[a].ln \/ TopsNormal(nd, a) THEN Chk(NNear(r, EvalVal(cx, vt, nd, a, q), OpTol(cx)), "wrong sum for partial evidence")
  ELSE {}

ConsVal(cx, vt, nd, a, q) ==
  IF cx.exh THEN MatchEv(cx, EvFun(q)) \cap nd[a].sup # {} ELSE ConsistentVal(nd, a, EvFun(q))

MpePost(cx, vt, nd, a, t, r) ==
  LET X == StructVars(vt, nd, a) n == nd[a] IN
  Chk(t \subseteq X, "sets a variable outside the structure") \cup
  (IF cx.exh
   THEN LET M == {i \in cx.all : cx.P[i] = t} IN
        IF M = {} \/ ~(M \subseteq n.sup) THEN {"explanation is not supported"}
        ELSE LET i == CHOOSE i \in M : TRUE IN
             Chk(NNear(r, n.den[i], 100), "value is not the weight of the explanation") \cup
             Chk(\A j \in n.sup : NLeq(n.den[j], r, 50000), "a more probable assignment exists")
   ELSE IF ~ConsistentVal(nd, a, [x \in X |-> x \in t]) THEN {"explanation is not supported"}
        ELSE Chk(NNear(r, ValAt(nd, a, t, X), 100), "value is not the weight of the explanation") \cup
             Chk(NLeq(MaxVal(nd, a), r, 50000), "a more probable assignment exists"))

\* rows: function from variables to <<false, true>>
MarPost(cx, vt, nd, a, r) ==
  LET X == StructVars(vt, nd, a) n == nd[a] R == Repr(cx, X)
      val(x, b) == IF cx.exh THEN SumOver(n, R \cap (IF b THEN OnSet(cx, x) ELSE cx.all \ OnSet(cx, x)))
                   ELSE PartialVal(nd, a, x :> b)
  IN Chk(DOMAIN r = X, "variables missing or superfluous") \cup
     (IF ~n.ln THEN {} ELSE
       Chk(\A x \in X \cap DOMAIN r : NNear(r[x][1], val(x, FALSE), OpTol(cx)) /\ NNear(r[x][2], val(x, TRUE), OpTol(cx)),
           "a marginal is not the sum over the assignments") \cup
       Chk(\A x \in DOMAIN r : NNear(NAdd(r[x][1], r[x][2]), NOne, 100), "the marginals of a variable do not sum to one"))

CountOf(cx, vt, nd, a) ==
  IF cx.exh THEN BOfInt(Cardinality(nd[a].sup \cap Repr(cx, StructVars(vt, nd, a)))) ELSE CountVal(nd, a)

SerPost(nd, roots, o) ==
  LET R == Reach(nd, {roots[j] : j \in 1..Len(roots)})
      at == [i \in {o[j] : j \in 1..Len(o)} |-> CHOOSE j \in 1..Len(o) : o[j] = i]
  IN Chk({o[j] : j \in 1..Len(o)} = R, "does not list exactly the reachable nodes") \cup
     Chk(Len(o) = Cardinality({o[j] : j \in 1..Len(o)}), "lists a node twice") \cup
     Chk(\A i \in R : \A c \in Kids(nd[i]) : i \in DOMAIN at /\ c \in DOMAIN at => at[i] < at[c], "a child precedes its parent") \cup
     Chk(Len(roots) = 1 /\ Len(o) > 0 => o[1] = roots[1], "does not start with the root")

\* ---------------------------------------------------------------- re-parameterisation
\* pairs of (source node, result node) when every local distribution is replaced
\* and elements correspond by the support of their primes.  A function from
\* source ids to the set of results; 0 stands for "no corresponding element".
Pairing(nd, pairs0) ==
  LET R == Reach(nd, {pr[1] : pr \in pairs0})
      start == [i \in R |-> {pr[2] : pr \in {q \in pairs0 : q[1] = i}}]
      elem(n, t, j) == LET E == {e \in 1..Len(t.p) : nd[t.p[e]].sup = nd[n.p[j]].sup /\ nd[t.s[e]].sup = nd[n.s[j]].sup}
                       IN IF Cardinality(E) = 1 THEN CHOOSE e \in E : TRUE ELSE 0
      desc == SetToSortSeq(R, LAMBDA x, y : x > y)
      step(map, i) ==
        LET n == nd[i] IN
        IF n.k # "D" THEN map
        ELSE LET T == {t \in map[i] : t # 0 /\ nd[t].k = "D"}
                 bad == map[i] \ T
             IN TLCEval([c \in R |->
                  map[c] \cup UNION {
                     UNION {IF n.p[j] = c THEN {IF elem(n, nd[t], j) = 0 THEN 0 ELSE nd[t].p[elem(n, nd[t], j)]} ELSE {} : j \in 1..Len(n.p)}
                     \cup UNION {IF n.s[j] = c THEN {IF elem(n, nd[t], j) = 0 THEN 0 ELSE nd[t].s[elem(n, nd[t], j)]} ELSE {} : j \in 1..Len(n.p)}
                     : t \in T}
                  \cup (IF c \in Kids(n) /\ bad # {} THEN {0} ELSE {})])
  IN FoldLeft(step, start, desc)
PairingOK(nd, mp) ==
  \A i \in DOMAIN mp : /\ Cardinality(mp[i]) = 1
                       /\ \A t \in mp[i] : /\ t # 0
                                           /\ nd[t].k = nd[i].k /\ nd[t].v = nd[i].v /\ nd[t].l = nd[i].l
                                           /\ Len(nd[t].p) = Len(nd[i].p)
Img(mp, i) == CHOOSE t \in mp[i] : TRUE
\* weight of the result's element that corresponds to element j of n
ElemW(nd, n, t, j) ==
  t.w[CHOOSE e \in 1..Len(t.p) : nd[t.p[e]].sup = nd[n.p[j]].sup /\ nd[t.s[e]].sup = nd[n.s[j]].sup]

\* rows: sequence of <<probe index, multiplicity>>
LearnPost(cx, nd, a, res, rows, alpha, f) ==
  IF res = 0 THEN {"no node"} ELSE
  LET mp == Pairing(nd, {<<a, res>>})
      R == DOMAIN mp
      NR == 1..Len(rows)
      ctx0 == [i \in R |-> IF i = a THEN {r \in NR : rows[r][1] \in nd[a].sup} ELSE {}]
      stepc(ctx, i) ==
        LET n == nd[i] IN
        IF n.k # "D" \/ ctx[i] = {} THEN ctx
        ELSE TLCEval([c \in R |-> ctx[c] \cup
               UNION {IF c \in {n.p[j], n.s[j]}
                      THEN {r \in ctx[i] : rows[r][1] \in nd[n.p[j]].sup /\ rows[r][1] \in nd[n.s[j]].sup}
                      ELSE {} : j \in 1..Len(n.p)}])
      ctx == FoldLeft(stepc, ctx0, SetToSortSeq(R, LAMBDA x, y : x > y))
      tot(S) == FoldLeft(LAMBDA acc, r : acc + rows[r][2], 0, Asc(S))
      smooth(c, t, k) == NDiv(NAdd(IF c = 0 THEN NZero ELSE NOfInt(c), alpha),
                              NAdd(IF t = 0 THEN NZero ELSE NOfInt(t), NMul(NOfInt(k), alpha)))
      okW(i) ==
        LET n == nd[i] t == nd[Img(mp, i)] c == ctx[i] IN
        IF n.k = "L" THEN TRUE
        ELSE IF n.k = "T"
        THEN LET ct == tot({r \in c : rows[r][1] \in OnSet(cx, n.l)}) IN
             /\ NNear(t.w[1], smooth(ct, tot(c), 2), ParTol)
             /\ NNear(t.w[2], smooth(tot(c) - ct, tot(c), 2), ParTol)
        ELSE \A j \in 1..Len(n.p) :
               NNear(ElemW(nd, n, t, j),
                     smooth(tot({r \in c : rows[r][1] \in nd[n.p[j]].sup /\ rows[r][1] \in nd[n.s[j]].sup}), tot(c), Len(n.p)),
                     ParTol)
  IN Chk(nd[res].sup = nd[a].sup, "different supported assignments") \cup
     PosOK(nd, res, nd[a].v) \cup
     FlagPost(nd, res, {}, f) \cup
     (IF ~PairingOK(nd, mp) THEN {"structure of the result does not correspond to the original"}
      ELSE Chk(\A i \in R : okW(i), "a local weight is not the smoothed relative count"))

\* draws: sequence of the numbers handed out (pairwise distinct ratios)
SampPost(cx, nd, roots, ress, draws, used, f) ==
  IF Len(ress) # Len(roots) \/ \E j \in 1..Len(ress) : ress[j] = 0 THEN {"not one result per root"} ELSE
  LET mp == Pairing(nd, {<<roots[j], ress[j]>> : j \in 1..Len(roots)})
      R == {i \in DOMAIN mp : nd[i].k # "L"}
      alts(i) == IF nd[i].k = "T" THEN 2 ELSE Len(nd[i].p)
      wgt(i, j) == IF nd[i].k = "T" THEN nd[Img(mp, i)].w[j] ELSE ElemW(nd, nd[i], nd[Img(mp, i)], j)
      ND == 1..(IF used <= Len(draws) THEN used ELSE Len(draws))
      \* the draws behind the alternatives of node i, or <<>> when there are none
      wit(i) ==
        LET r(j) == NDiv(wgt(i, j), wgt(i, 1))
            first == {a \in ND : \E b \in ND : NNear(NDiv(draws[b], draws[a]), r(2), 1000)}
            rest(a, j) == {b \in ND : NNear(NDiv(draws[b], draws[a]), r(j), 1000)}
        IN IF alts(i) = 1 THEN <<0>>
           ELSE LET A == {a \in first : \A j \in 2..alts(i) : rest(a, j) # {}} IN
                IF A = {} THEN <<>>
                ELSE LET a == CHOOSE a \in A : TRUE IN
                     [j \in 1..alts(i) |-> IF j = 1 THEN a ELSE CHOOSE b \in rest(a, j) : TRUE]
  IN (IF ~PairingOK(nd, mp) THEN {"structure of the results does not correspond to the originals"}
      ELSE LET W == TLCEval([i \in R |-> wit(i)]) IN
        Chk(\A i \in R : alts(i) = 1 => NNear(wgt(i, 1), NOne, 100), "a single alternative does not have weight one") \cup
        Chk(\A i \in R : NNear(SumW(nd[Img(mp, i)].w), NOne, 1000), "a local distribution does not sum to one") \cup
        Chk(\A i \in R : W[i] # <<>>, "a local distribution is not a normalised list of draws") \cup
        Chk(\A i \in R : alts(i) > 1 => Cardinality({W[i][j] : j \in 1..Len(W[i])}) = Len(W[i]), "a draw is used twice in one node") \cup
        Chk(\A i \in R, j \in R : i < j /\ alts(i) > 1 /\ alts(j) > 1 =>
              {W[i][k] : k \in 1..Len(W[i])} \cap {W[j][k] : k \in 1..Len(W[j])} = {}, "nodes share a draw") \cup
        Chk(used = FoldLeft(LAMBDA acc, i : acc + alts(i), 0, Asc(R)), "not one draw per alternative")) \cup
     UNION {Chk(nd[ress[j]].sup = nd[roots[j]].sup, "different supported assignments") \cup
            PosOK(nd, ress[j], nd[roots[j]].v) \cup FlagPost(nd, ress[j], {}, f) : j \in 1..Len(roots)}

\* ---------------------------------------------------------------- sampling assignments
\* tally: set of [t, d, c]: outcome, draws used, number of draw sequences; G draws per step
GridPost(cx, vt, nd, a, G, tally) ==
  LET n == nd[a] X == StructVars(vt, nd, a)
      prob(t) == FoldLeft(LAMBDA acc, r : NAdd(acc, NDiv(NOfInt(r.c), FoldLeft(LAMBDA q, k : NMul(q, NOfInt(G)), NOne, [k \in 1..r.d |-> k]))),
                          NZero, SetToSeq({r \in tally : r.t = t}))
      outs == {r.t : r \in tally}
  IN Chk(\A t \in outs : t \subseteq X, "sets a variable outside the structure") \cup
     Chk(\A t \in outs : \E i \in n.sup : cx.P[i] = t, "an unsupported assignment is drawn") \cup
     Chk(\A i \in n.sup \cap Repr(cx, X) : NNear(prob(cx.P[i]), n.den[i], OpTol(cx)), "an assignment is not drawn with its probability")

\* ---------------------------------------------------------------- networks
\* node and constant that stand for the function Val of assignments
RatioPost(cx, nd, res, z, Val(_), what) ==
  IF res = 0 THEN {"no structure for a satisfiable " \o what}
  ELSE LET n == nd[res] V == TLCEval([i \in cx.all |-> Val(cx.P[i])]) IN
       Chk(n.sup = {i \in cx.all : V[i] # NZero}, "support is not that of the " \o what) \cup
       Chk(\A i \in n.sup : NNear(NMul(n.den[i], z), V[i], OpTol(cx)), "weight times constant is not the " \o what)
\* ------------------------------------------------------------- the inference tool
\* what it prints for the structure r under evidence with models M (ev: evidence was given);
\* o = [rc, unsat, hasmpe, mpe: <<variable, value>>s, pr, hasmar, mar: [x, f, t]s], qm/qr: asked for;
\* near(a, b): a printed number against the exact one
CliPost(cx, vt, r, ev, M, qm, qr, o, near(_, _)) ==
  LET S == TLCEval(r.sup \cap M)
      Z == IF ev THEN SumOver(r, S) ELSE NOne
      cond == TLCEval([i \in S |-> NDiv(r.den[i], Z)])
      sorted == SetToSortSeq(AllVars(vt), LAMBDA a, b : a < b)
      T == {o.mpe[j][1] : j \in {x \in 1..Len(o.mpe) : o.mpe[x][2] = 1}}
      mar(x, b) == FoldLeft(LAMBDA acc, i : IF (x \in cx.P[i]) = b THEN NAdd(acc, cond[i]) ELSE acc, NZero, Asc(S))
  IN Chk(o.rc = 0, "the tool fails") \cup
     (IF o.rc # 0 THEN {}
      ELSE IF S = {}
      THEN Chk(o.unsat, "unsatisfiable evidence is not reported") \cup
           Chk(~o.hasmpe /\ ~o.hasmar, "answers a query on unsatisfiable evidence")
      ELSE Chk(~o.unsat, "satisfiable evidence is reported unsatisfiable") \cup
           (IF o.unsat THEN {} ELSE
            Chk(o.hasmpe = qm /\ o.haspr = qm /\ o.hasmar = qr, "answers other queries than those asked") \cup
            (IF ~o.hasmpe \/ ~qm THEN {} ELSE
             Chk([j \in 1..Len(o.mpe) |-> o.mpe[j][1]] = sorted /\ \A j \in 1..Len(o.mpe) : o.mpe[j][2] \in {0, 1},
                 "the explanation does not list every variable in increasing order") \cup
             LET I == {i \in S : cx.P[i] = T} IN
             IF I = {} THEN {"the explanation is not supported"}
             ELSE LET i == CHOOSE i \in I : TRUE IN
                  Chk(near(o.pr, cond[i]), "the value is not the weight of the explanation") \cup
                  Chk(\A j \in S : NLeq(cond[j], cond[i], 2 * OpTol(cx) + 50000), "a more probable assignment exists")) \cup
            (IF ~o.hasmar \/ ~qr \/ (~ev /\ ~r.ln) THEN {} ELSE
             Chk([j \in 1..Len(o.mar) |-> o.mar[j].x] = sorted, "the marginals do not list every variable in increasing order") \cup
             Chk(\A j \in 1..Len(o.mar) : near(o.mar[j].f, mar(o.mar[j].x, FALSE)) /\ near(o.mar[j].t, mar(o.mar[j].x, TRUE)),
                 "a marginal is not the sum over the assignments"))))

============================================================================
