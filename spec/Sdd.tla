-------------------------------- MODULE Sdd --------------------------------
(***************************************************************************)
(* Decision diagrams as libsdd keeps them (compressed and trimmed), built  *)
(* from the models of a function, and the two conversions of               *)
(* src/psdd_manager.cpp and src/psdd_node.cpp.                             *)
(***************************************************************************)
EXTENDS Store

\* ------------------------------------------------------------- diagrams
\* a function over the variables of position v is the set of its models
FullOf(vt, v) == SUBSET VarsAt(vt, v)
TrueN == <<"1">>
FalseN == <<"0">>
\* <<"D", v, {<<prime, sub>>, ...}>>, <<"L", literal>>, true or false
RECURSIVE SddOf(_, _, _)
SddOf(vt, v, f) ==
  IF f = {} THEN FalseN
  ELSE IF f = FullOf(vt, v) THEN TrueN
  ELSE IF IsLeafAt(vt, v) THEN <<"L", IF f = {{}} THEN -RVar(vt.tab, v) ELSE RVar(vt.tab, v)>>
  ELSE LET l == LeftOf(vt, v) r == RightOf(vt, v)
           X == VarsAt(vt, l) Y == VarsAt(vt, r)
           cof == [p \in SUBSET X |-> {m \cap Y : m \in {q \in f : q \cap X = p}}]
           subs == {cof[p] : p \in SUBSET X}
           els == {<<{p \in SUBSET X : cof[p] = s}, s>> : s \in subs}
       IN IF Cardinality(els) = 1 THEN SddOf(vt, r, (CHOOSE e \in els : TRUE)[2])
          ELSE IF subs = {{}, SUBSET Y} THEN SddOf(vt, l, (CHOOSE e \in els : e[2] # {})[1])
          ELSE <<"D", v, {<<SddOf(vt, l, e[1]), SddOf(vt, r, e[2])>> : e \in els}>>

\* ------------------------------------------------------------- conversion
\* ConvertSddToPsdd on a diagram whose positions are those of the manager's vtree
RECURSIVE Conv(_, _, _, _, _)
Conv(W, S, m, d, f) ==
  IF d[1] = "L" THEN Lit(W, S, m, d[2], f)
  ELSE LET vt == W.vt[m]
           v == d[2]
           els == SetToSeq({e \in d[3] : e[2] # FalseN})
           step(acc, e) ==
             LET p == Conv(W, acc.S, m, e[1], f)
                 pn == Pad(W, p.S, m, LeftOf(vt, v), p.r, f)
                 s == IF e[2] = TrueN THEN True(W, pn.S, m, RightOf(vt, v), f)
                      ELSE LET c == Conv(W, pn.S, m, e[2], f) IN Pad(W, c.S, m, RightOf(vt, v), c.r, f)
             IN [S |-> s.S, p |-> Append(acc.p, pn.r), s |-> Append(acc.s, s.r)]
           c == FoldLeft(step, [S |-> S, p |-> <<>>, s |-> <<>>], els)
       IN RawDec(W, c.S, m, v, f, c.p, c.s, [j \in 1..Len(els) |-> NOne])
Convert(W, S, m, d, f) ==
  IF d = FalseN THEN [S |-> S, r |-> 0]
  ELSE IF d = TrueN THEN True(W, S, m, W.vt[m].root, f)
  ELSE LET c == Conv(W, S, m, d, f) IN Pad(W, c.S, m, W.vt[m].root, c.r, f)

\* ConvertPsddToSdd: the function of the literals, free tops and elements
RECURSIVE BackOf(_, _, _, _)
BackOf(vt, nd, i, X) ==
  LET n == nd[i] IN
  IF n.k = "L" THEN {T \in SUBSET X : IF n.l > 0 THEN n.l \in T ELSE -n.l \notin T}
  ELSE IF n.k = "T" THEN SUBSET X
  ELSE UNION {BackOf(vt, nd, n.p[j], X) \cap BackOf(vt, nd, n.s[j], X) : j \in 1..Len(n.p)}
============================================================================
