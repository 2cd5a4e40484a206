------------------------------- MODULE MCData -------------------------------
(***************************************************************************)
(* Datasets.  op = "hist": every short history of reading, writing, adding *)
(* and resizing on two datasets; the records kept by src/binary_data.cpp   *)
(* (a map of multiplicities, a size and a variable count, kept apart) must *)
(* agree with the multiset of Data.tla after every step.  op = "json":     *)
(* every sparse document of a few examples, against Data!JsonData.         *)
(***************************************************************************)
EXTENDS Data, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)

\* the catalogue of files: rows of fields (character codes)
Zero == <<48>>  One == <<49>>
Files == << <<>>, <<<<One, Zero>>>>, <<<<Zero, One>>, <<One, One>>, <<Zero, One>>>>, <<<<Zero>>, <<One>>, <<Zero>>>>,
            <<<<<<48, 48, 55>>, <<45, 50>>>>, <<<<>>, <<120>>>>>> >>
Text(rows) ==
  FoldLeft(LAMBDA a, r : a \o FoldLeft(LAMBDA b, j : (IF j = 1 THEN r[1] ELSE b \o <<44>> \o r[j]), <<>>, [j \in 1..Len(r) |-> j]) \o <<10>>, <<>>, rows)

\* ------------------------------------------------------------- the code
Empty == [map |-> MsEmpty, n |-> 0, vs |-> 0]
Put(x, T) == [x EXCEPT !.map = IF T \in DOMAIN @ THEN [@ EXCEPT ![T] = @ + 1] ELSE @ @@ (T :> 1), !.n = @ + 1]
\* atoi of a field
Atoi(f) ==
  LET s == FoldLeft(LAMBDA a, ch :
             IF a.ph = 0 /\ ch = 32 THEN a
             ELSE IF a.ph = 0 /\ ch = 45 THEN [a EXCEPT !.ph = 1, !.sg = -1]
             ELSE IF a.ph = 0 /\ ch = 43 THEN [a EXCEPT !.ph = 1]
             ELSE IF a.ph < 2 /\ ch \in 48..57 THEN [a EXCEPT !.ph = 1, !.v = 10 * @ + ch - 48]
             ELSE [a EXCEPT !.ph = 2], [ph |-> 0, sg |-> 1, v |-> 0], f)
  IN s.sg * s.v
ReadFile(rows) ==
  FoldLeft(LAMBDA x, r : LET y == Put(x, {i \in 1..Len(r) : Atoi(r[i]) # 0}) IN [y EXCEPT !.vs = IF @ = 0 THEN Len(r) ELSE @],
           Empty, rows)
\* one line per record and multiplicity, in the order of the map
WriteFile(x) ==
  FoldLeft(LAMBDA a, T : a \o [k \in 1..x.map[T] |-> [i \in 1..x.vs |-> IF i \in T THEN One ELSE Zero]], <<>>, SetToSeq(DOMAIN x.map))

\* ReadSparseDataJsonFile: element by element, giving up on the first bad one
JsonCode(doc) ==
  LET one(x, ex) ==
        IF ex.a # 1 THEN x
        ELSE LET r == FoldLeft(LAMBDA a, el : IF ~a.ok THEN a
                                  ELSE IF el.n = 1 /\ el.v > 0 /\ el.v <= doc.vs THEN [a EXCEPT !.T = @ \cup {el.v}]
                                  ELSE [a EXCEPT !.ok = FALSE], [ok |-> TRUE, T |-> {}], ex.e)
             IN IF r.ok THEN Put(x, r.T) ELSE x
  IN FoldLeft(one, [Empty EXCEPT !.vs = doc.vs], doc.ex)

\* ------------------------------------------------------------- the model
VARIABLES im, sp, file, hist, n, bad
vars == <<im, sp, file, hist, n, bad>>
Chk1(b, msg) == IF b THEN {} ELSE {msg}
Agree(x, s) ==
  Chk1(x.map = s.ms, "other records") \cup Chk1(x.n = MsSize(s.ms), "other record count") \cup Chk1(x.vs = s.vs, "other variable count")
D == 1..2
S0 == [ms |-> MsEmpty, vs |-> 0]
Init == im = [d \in D |-> Empty] /\ sp = [d \in D |-> S0] /\ file = <<>> /\ hist = <<>> /\ n = 0 /\ bad = {}
Hash(h) == FoldLeft(LAMBDA a, c : FoldLeft(LAMBDA b, x : (b * 31 + x) % 100003, (a * 7 + Len(c)) % 100003, c), 5, h)
Step(d, x, s, f, cmd, extra) ==
  /\ im' = [im EXCEPT ![d] = x] /\ sp' = [sp EXCEPT ![d] = s] /\ file' = f
  /\ hist' = Append(hist, cmd) /\ n' = n + 1
  /\ bad' = Agree(x, s) \cup extra
Writable(d) == sp[d].vs > 0 /\ \A T \in DOMAIN sp[d].ms : T \subseteq 1..sp[d].vs
Next ==
  /\ n < C.depth
  /\ \E d \in D :
       \/ \E i \in 1..Len(Files) : LET t == Text(Files[i]) IN Step(d, ReadFile(CsvRows(44, t)), CsvData(t), file, <<1, d, i>>, {})
       \/ \E T \in SUBSET {1, 2} : Step(d, Put(im[d], T), [sp[d] EXCEPT !.ms = MsAdd(@, T)], file, <<2, d>> \o SetToSeq(T), {})
       \/ \E v \in {1, 2, 3} : Step(d, [im[d] EXCEPT !.vs = v], [sp[d] EXCEPT !.vs = v], file, <<3, d, v>>, {})
       \/ /\ Writable(d)
          /\ LET f == WriteFile(im[d]) back == CsvData(Text(f)) IN
             Step(d, im[d], sp[d], f, <<4, d>>, Chk1(back.ms = sp[d].ms /\ (DOMAIN back.ms = {} \/ back.vs = sp[d].vs), "written records differ"))
       \/ /\ \E k \in 1..Len(hist) : hist[k][1] = 4
          /\ Step(d, ReadFile(file), CsvData(Text(file)), file, <<5, d>>, {})
  /\ IF n' = C.depth /\ Hash(hist') % C.stride = C.rem % C.stride THEN PrintT("BEH|" \o ToString(hist')) ELSE TRUE
\* every document
El == {[n |-> 1, v |-> k] : k \in {-1, 0, 1, 2, 3}} \cup {[n |-> 0, v |-> 0]}
Exs == {[a |-> 0, e |-> <<>>]} \cup {[a |-> 1, e |-> q] : q \in UNION {[1..k -> El] : k \in 0..2}} \cup
       {[a |-> 1, e |-> <<[n |-> 1, v |-> 1], x, y>>] : x \in El, y \in El}
ExsQ == SetToSeq(Exs)
JsonNext ==
  /\ n < C.depth /\ n' = n + 1
  /\ \E i \in 1..Cardinality(Exs) :
       LET ex == Append(file, ExsQ[i])
           doc == [hv |-> 1, hd |-> 1, vs |-> 2, ex |-> ex]
           x == JsonCode(doc)
           s == JsonData(doc)
       IN /\ file' = ex /\ hist' = Append(hist, i)
          /\ im' = [im EXCEPT ![1] = x] /\ sp' = [sp EXCEPT ![1] = s]
          /\ bad' = Agree(x, s)
          /\ IF FoldLeft(LAMBDA a, k : a * 13 + k, 1, hist') % C.stride = C.rem % C.stride
             THEN PrintT("BEH|" \o ToString([k \in 1..Len(ex) |-> <<ex[k].a, [j \in 1..Len(ex[k].e) |-> <<ex[k].e[j].n, ex[k].e[j].v>>]>>])) ELSE TRUE
Spec == Init /\ [][IF C.op = "hist" THEN Next ELSE JsonNext]_vars
Good == bad = {}
View == <<hist, bad>>
============================================================================
