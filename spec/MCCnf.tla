------------------------------- MODULE MCCnf -------------------------------
(***************************************************************************)
(* Clause files: the reader of src/cnf.cpp as a machine over characters,   *)
(* on every file of a few lines from a catalogue, against the meaning of   *)
(* the format (Formats!CnfClauses on blank-separated tokens).              *)
(***************************************************************************)
EXTENDS Formats, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)
\* C.lines: each a sequence of one-character strings; C.n: number of lines
Blank(ch) == ch \in {" ", "\t", "\r"}

\* blank-separated tokens of a line
Tokens(ln) ==
  LET s == FoldLeft(LAMBDA a, ch :
             IF Blank(ch) THEN (IF a.cur = "" THEN a ELSE [out |-> Append(a.out, a.cur), cur |-> ""])
             ELSE [a EXCEPT !.cur = @ \o ch], [out |-> <<>>, cur |-> ""], ln)
  IN IF s.cur = "" THEN s.out ELSE Append(s.out, s.cur)

\* the reader: getline, look at the first character, then numbers until 0 or anything that is no number
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNumber(t) == TIsInt(t)
ReadLine(ln) ==
  IF Len(ln) > 0 /\ ln[1] \in {"p", "c"} THEN <<>>
  ELSE IF \A j \in 1..Len(ln) : Blank(ln[j]) THEN <<>>
  ELSE LET T == Tokens(ln)
           stop == {j \in 1..Len(T) : ~IsNumber(T[j]) \/ T[j] = "0"}
           k == IF stop = {} THEN Len(T) ELSE Min(stop) - 1
       IN <<[j \in 1..k |-> TInt(T[j])]>>
Read(file) == FoldLeft(LAMBDA a, ln : a \o ReadLine(ln), <<>>, file)

VARIABLES file, n, bad
vars == <<file, n, bad>>
Rng(q) == {q[j] : j \in 1..Len(q)}
Check(fl) ==
  LET got == {Rng(c) : c \in Rng(Read([i \in 1..Len(fl) |-> C.lines[fl[i]]]))}
      want == CnfClauses([i \in 1..Len(fl) |-> Tokens(C.lines[fl[i]])])
  IN IF got = want THEN {} ELSE {"the reader finds other clauses"}
Init == file = <<>> /\ n = 0 /\ bad = {}
Next == /\ n < C.n /\ n' = n + 1
        /\ \E i \in 1..Len(C.lines) :
             /\ file' = Append(file, i)
             /\ bad' = Check(file')
             /\ IF (FoldLeft(LAMBDA a, j : a * 17 + j, 3, file')) % C.stride = C.rem % C.stride THEN PrintT("BEH|" \o ToString(file')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Good == bad = {}
============================================================================
