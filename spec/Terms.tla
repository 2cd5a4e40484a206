------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* Structures as terms, so that a model can start from every structure of  *)
(* a given size and its behaviours can be repeated on the real library:    *)
(*   <<"L", literal>>   <<"T", variable, w>>   <<"D", <<p, s, w>>, ...>>   *)
(* a weight being a pair <<numerator, denominator>> (w: the true weight,   *)
(* <<"T", x, w, w'>> both weights).                                        *)
(***************************************************************************)
EXTENDS Store

\* support of a term as a set of sets of true variables over X
RECURSIVE TSup(_, _)
TSup(t, X) ==
  CASE t[1] = "L" -> IF t[2] > 0 THEN {S \in SUBSET X : t[2] \in S} ELSE {S \in SUBSET X : -t[2] \notin S}
    [] t[1] = "T" -> SUBSET X
    [] OTHER -> UNION {TSup(t[j][1], X) \cap TSup(t[j][2], X) : j \in 2..Len(t)}

\* the terms at position v; TW: pairs of weights for top nodes, DW2: pairs of weights for
\* decision nodes of two elements, sub: at positions whose sub has more than one variable, only
\* these many terms are used for the sub (0: all)
RECURSIVE TermsAt(_, _, _, _)
TermsAt(vt, v, TW, DW2) ==
  IF IsLeafAt(vt, v)
  THEN LET x == RVar(vt.tab, v) IN {<<"L", x>>, <<"L", -x>>} \cup {<<"T", x, w[1], w[2]>> : w \in TW}
  ELSE LET P == TermsAt(vt, LeftOf(vt, v), TW, DW2)
           S == TermsAt(vt, RightOf(vt, v), TW, DW2)
           X == VarsAt(vt, LeftOf(vt, v))
           Z == TLCEval([p \in P |-> TSup(p, X)])
           PP == {<<p, q>> \in P \X P : Z[p] \cap Z[q] = {} /\ (\E m \in Z[p] : \A n \in Z[q] : Cardinality(n) <= Cardinality(m))}
       IN {<<"D", <<p, s, NOne>>>> : p \in P, s \in S}
          \cup {<<"D", <<pq[1], ss[1], w[1]>>, <<pq[2], ss[2], w[2]>>>> : pq \in PP, ss \in S \X S, w \in DW2}

\* building a term through the manager's requests
RECURSIVE Build(_, _, _, _, _)
Build(W, S, m, t, f) ==
  CASE t[1] = "L" -> Lit(W, S, m, t[2], f)
    [] t[1] = "T" -> Top(W, S, m, t[2], f, t[3], t[4])
    [] OTHER ->
         LET step(acc, j) ==
               LET p == Build(W, acc.S, m, t[j][1], f)
                   s == Build(W, p.S, m, t[j][2], f)
               IN [S |-> s.S, p |-> Append(acc.p, p.r), s |-> Append(acc.s, s.r)]
             c == FoldLeft(step, [S |-> S, p |-> <<>>, s |-> <<>>], [j \in 1..(Len(t) - 1) |-> j + 1])
         IN Dec(W, c.S, m, f, c.p, c.s, [j \in 1..(Len(t) - 1) |-> t[j + 1][3]])
============================================================================
