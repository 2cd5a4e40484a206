------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* Text formats, as lists of lines of blank-separated tokens: clause files,*)
(* UAI networks, structure files; and the meaning of a network.            *)
(***************************************************************************)
EXTENDS Sem

\* ------------------------------------------------------------- clause files
CnfLine(ln) == Len(ln) > 0 /\ ln[1] # "c" /\ ln[1] # "p"
CnfClause(ln) ==
  LET z == {j \in 1..Len(ln) : ln[j] = "0"}
      k == IF z = {} THEN Len(ln) ELSE Min(z) - 1
  IN {TInt(ln[j]) : j \in 1..k}
CnfClauses(text) == LET L == SelectSeq(text, CnfLine) IN {CnfClause(L[j]) : j \in 1..Len(L)}
ClauseModels(cx, c) == UNION {LitSup(cx, l) : l \in c}
CnfModels(cx, cls) == {i \in cx.all : \A c \in cls : i \in ClauseModels(cx, c)}

\* ------------------------------------------------------------- networks
Flat(text) == FoldLeft(LAMBDA a, ln : a \o ln, <<>>, text)
\* a network is [ty, nv, sc, tb]
UaiNet(text) ==
  LET T == Flat(text)
      nv == TInt(T[2])
      nf == TInt(T[3 + nv])
      sc == FoldLeft(LAMBDA a, j :
              LET k == TInt(T[a.at]) IN
              [at |-> a.at + k + 1, sc |-> Append(a.sc, [i \in 1..k |-> TInt(T[a.at + i]) + 1])],
              [at |-> 4 + nv, sc |-> <<>>], [j \in 1..nf |-> j])
      tb == FoldLeft(LAMBDA a, j :
              LET k == TInt(T[a.at]) IN
              [at |-> a.at + k + 1, tb |-> Append(a.tb, [i \in 1..k |-> NDec(T[a.at + i])])],
              [at |-> sc.at, tb |-> <<>>], [j \in 1..nf |-> j])
  IN [ty |-> IF T[1] = "BAYES" THEN 2 ELSE 1, nv |-> nv, nf |-> nf, sc |-> sc.sc, tb |-> tb.tb]
\* table entry selected by an assignment: the last variable of the scope is the lowest bit
EntryIdx(sc, T) == FoldLeft(LAMBDA a, x : 2 * a + (IF x \in T THEN 1 ELSE 0), 0, sc)
FactorVal(net, j, T) == net.tb[j][EntryIdx(net.sc[j], T) + 1]
NetVal(net, T) == FoldLeft(LAMBDA a, j : NMul(a, FactorVal(net, j, T)), NOne, [j \in 1..net.nf |-> j])

\* the factor compiler can place scope S on vtree vt: read right to left, every
\* variable joins the ones to its right with itself on the left
Suitable(vt, S) ==
  \A x \in S : LET px == LeafOfVar(vt, x)
                   later == {y \in S : LeafOfVar(vt, y) > px} IN
    later # {} => \E p \in VPos(vt) : /\ ~IsLeafAt(vt, p)
                                      /\ x \in VarsAt(vt, LeftOf(vt, p))
                                      /\ later \subseteq VarsAt(vt, RightOf(vt, p))

\* ------------------------------------------------------------- structure files
PsddLines(text) == SelectSeq(text, LAMBDA ln : Len(ln) > 0 /\ ln[1] # "c")
\* the lines after the header obey the grammar, with consecutive numbers
PsddFileWF(vt, text) ==
  LET L == PsddLines(text) IN
  /\ Len(L) >= 2
  /\ Len(L[1]) = 2 /\ L[1][1] = "psdd" /\ TIsInt(L[1][2]) /\ TInt(L[1][2]) = Len(L) - 1
  /\ \A j \in 2..Len(L) :
       LET ln == L[j] IN
       /\ Len(ln) >= 4 /\ ln[1] \in {"L", "T", "D"}
       /\ \A i \in 2..4 : TIsInt(ln[i])
       /\ TInt(ln[2]) = j - 2
       /\ TInt(ln[3]) \in VPos(vt)
       /\ (ln[1] = "L" => Len(ln) = 4)
       /\ (ln[1] = "T" => Len(ln) = 6 /\ TIsNum(ln[5]) /\ TIsNum(ln[6]))
       /\ (ln[1] = "D" => /\ TInt(ln[4]) >= 1 /\ Len(ln) = 4 + 3 * TInt(ln[4])
                          /\ \A e \in 1..TInt(ln[4]) :
                               /\ TIsInt(ln[2 + 3 * e]) /\ TIsInt(ln[3 + 3 * e]) /\ TIsNum(ln[4 + 3 * e])
                               /\ TInt(ln[2 + 3 * e]) \in 0..(j - 3) /\ TInt(ln[3 + 3 * e]) \in 0..(j - 3))
\* the structure described by a well-formed file: node number k becomes entry k + 1
PsddFileNodes(cx, vt, text) ==
  LET L == PsddLines(text) IN
  FoldLeft(LAMBDA nd, j :
     LET ln == L[j]
         n0 == [ i |-> j - 1, x |-> "", m |-> 0, v |-> TInt(ln[3]), f |-> "", k |-> ln[1],
                 l |-> IF ln[1] = "D" THEN 0 ELSE TInt(ln[4]),
                 p |-> IF ln[1] = "D" THEN [e \in 1..TInt(ln[4]) |-> TInt(ln[2 + 3 * e]) + 1] ELSE <<>>,
                 s |-> IF ln[1] = "D" THEN [e \in 1..TInt(ln[4]) |-> TInt(ln[3 + 3 * e]) + 1] ELSE <<>>,
                 w |-> IF ln[1] = "D" THEN [e \in 1..TInt(ln[4]) |-> NLog(ln[4 + 3 * e])]
                       ELSE IF ln[1] = "T" THEN <<NLog(ln[6]), NLog(ln[5])>> ELSE <<>>,
                 ok |-> TRUE, live |-> TRUE, ln |-> TRUE, sup |-> {}, den |-> <<>>]
         wf == NodeWF(vt, nd, n0)
         sup == IF wf THEN SupOf(cx, nd, n0) ELSE {}
     IN Append(nd, [n0 EXCEPT !.ok = wf, !.sup = sup,
                              !.den = IF wf THEN TLCEval(DenOf(cx, nd, n0, sup)) ELSE <<>>,
                              !.ln = wf /\ (ln[1] = "L" \/ (LocalOne(n0) /\ \A c \in Kids(n0) : nd[c].ln))]),
     <<>>, [j \in 1..(Len(L) - 1) |-> j + 1])
============================================================================
