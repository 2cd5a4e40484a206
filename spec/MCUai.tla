------------------------------- MODULE MCUai -------------------------------
(***************************************************************************)
(* Network files: the line reader of src/uai_network.cpp next to the       *)
(* meaning of the file as a stream of tokens (Formats!UaiNet), on every    *)
(* layout of the tables of small networks: blank lines before a table, as  *)
(* many entries as wanted on the line of the count, the rest in any        *)
(* portions, blank lines within a table.  A line is a sequence of tokens;  *)
(* a token " " stands for blanks, so that <<" ">> is a line that only      *)
(* looks empty.                                                            *)
(***************************************************************************)
EXTENDS Formats, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)
\* C.nets: [ty, nv, sc: scopes from zero, tb: tokens of the tables]; C.blank: blank lines in a row;
\* C.keep, C.stride: how many of the layouts leading to the same states are told apart, printed

VARIABLES net, file, j, i, gap, im, bad
vars == <<net, file, j, i, gap, im, bad>>

Solid(ln) == SelectSeq(ln, LAMBDA t : t # " ")
N == C.nets[net]
Preamble(k) ==
  LET q == C.nets[k] IN
  <<<<q.ty>>, <<ToString(q.nv)>>, [x \in 1..q.nv |-> "2"], <<ToString(Len(q.sc))>>>>
  \o [f \in 1..Len(q.sc) |-> <<ToString(Len(q.sc[f]))>> \o [x \in 1..Len(q.sc[f]) |-> ToString(q.sc[f][x])]]

\* ------------------------------------------------ the reader, line by line
\* ph: line of the preamble, "gap" before a table, "tab" within a table
Im0 == [ph |-> 1, ty |-> 0, nv |-> 0, nf |-> 0, sc |-> <<>>, tb |-> <<>>, cur |-> <<>>, cnt |-> 0, broken |-> FALSE]
Nums(q) == [x \in 1..Len(q) |-> NDec(q[x])]
EndTab(m) == IF Len(m.cur) < m.cnt THEN [m EXCEPT !.ph = 1001]
             ELSE [m EXCEPT !.ph = IF Len(m.tb) + 1 = m.nf THEN 2000 ELSE 1000, !.tb = Append(@, m.cur), !.cur = <<>>,
                            !.broken = @ \/ Len(m.cur) # m.cnt \/ m.cnt = 0]
Line(m, ln0) ==
  LET ln == Solid(ln0) IN
  CASE m.ph = 1 -> [m EXCEPT !.ty = IF ln[1] = "BAYES" THEN 2 ELSE 1, !.ph = 2]
    [] m.ph = 2 -> [m EXCEPT !.nv = TInt(ln[1]), !.ph = 3]
    [] m.ph = 3 -> [m EXCEPT !.ph = 4]
    [] m.ph = 4 -> [m EXCEPT !.nf = TInt(ln[1]), !.ph = 5]
    [] m.ph = 5 -> LET s == Append(m.sc, [x \in 1..(Len(ln) - 1) |-> TInt(ln[x + 1]) + 1])
                   IN [m EXCEPT !.sc = s, !.ph = IF Len(s) = m.nf THEN 1000 ELSE 5]
    [] m.ph = 1000 -> IF ln = <<>> THEN m
                      ELSE EndTab([m EXCEPT !.cnt = TInt(ln[1]), !.cur = Nums(Tail(ln))])
    [] m.ph = 1001 -> EndTab([m EXCEPT !.cur = @ \o Nums(ln)])
    [] OTHER -> m

\* ------------------------------------------------ the writer
Hash(fl) == net + FoldLeft(LAMBDA a, ln : (a * 37 + Len(ln) * 5 + (IF ln = <<>> THEN 1 ELSE IF ln[1] = " " THEN 2 ELSE 0)) % 100003, 1, fl)
Emit(fl) == IF Hash(fl) % C.stride = C.rem % C.stride
            THEN PrintT("BEH|" \o ToString(fl)) ELSE TRUE
Done == j > Len(N.tb)
Check(m, fl) ==
  LET want == UaiNet([k \in 1..Len(fl) |-> Solid(fl[k])]) IN
  (IF m.broken THEN {"the reader gives up"} ELSE {}) \cup
  (IF [ty |-> m.ty, nv |-> m.nv, nf |-> m.nf, sc |-> m.sc, tb |-> m.tb] = want THEN {} ELSE {"the reader finds another network"}) \cup
  (IF want.tb = [x \in 1..Len(N.tb) |-> Nums(N.tb[x])] THEN {} ELSE {"the file has another meaning"})

Init == /\ net \in 1..Len(C.nets)
        /\ file = Preamble(net) /\ im = FoldLeft(Line, Im0, Preamble(net))
        /\ j = 1 /\ i = -1 /\ gap = 0 /\ bad = {}
Put(ln) == file' = Append(file, ln) /\ im' = Line(im, ln)
Same == UNCHANGED net
\* an empty line (anywhere after the preamble, also after the last table)
BlankLine == /\ gap < C.blank /\ gap' = gap + 1 /\ Same
             /\ \E b \in {<<>>, <<" ">>} : Put(b)
             /\ UNCHANGED <<j, i>> /\ bad' = IF Done THEN Check(im', file') ELSE {}
\* the count of table j and the first k entries; then further portions (i: entries written)
Portion ==
  /\ ~Done /\ gap' = 0 /\ Same
  /\ LET t == N.tb[j] from == IF i < 0 THEN 0 ELSE i IN
     \E k \in (IF i < 0 THEN 0 ELSE 1)..(Len(t) - from) : \E lead \in (IF C.lead THEN {<<>>, <<" ">>} ELSE {<<>>}) :
       LET ln == lead \o (IF i < 0 THEN <<ToString(Len(t))>> ELSE <<>>) \o SubSeq(t, from + 1, from + k)
           full == from + k = Len(t)
       IN /\ Put(ln)
          /\ j' = IF full THEN j + 1 ELSE j
          /\ i' = IF full THEN -1 ELSE from + k
          /\ bad' = IF j' > Len(N.tb) THEN Check(im', file') ELSE {}
          /\ IF j' > Len(N.tb) THEN Emit(file') ELSE TRUE
Next == BlankLine \/ Portion
Spec == Init /\ [][Next]_vars
Good == bad = {}
\* the writer's and the reader's states; the remainder keeps several files per state for the repetition
View == <<net, im, j, i, gap, bad, Hash(file) % C.keep>>
============================================================================
