------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Datasets (multisets of records), the CSV format as a character machine, *)
(* sparse JSON data, and the entropy figure.                               *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Folds, TLC

\* --------------------------------------------------------------- CSV machine
\* Characters are codes: 10 newline, 13 return (ignored), 34 quote.
\* mode: "s" start of field, "u" inside a plain field, "q" inside quotes,
\*       "e" just after a quote inside quotes (closing or first of a pair)
CsvInit == [rows |-> <<>>, row |-> <<>>, fld |-> <<>>, mode |-> "s", any |-> FALSE]
CsvField(s) == [s EXCEPT !.row = Append(@, s.fld), !.fld = <<>>, !.mode = "s", !.any = TRUE]
CsvEndRow(s) == LET r == CsvField(s) IN [r EXCEPT !.rows = Append(@, r.row), !.row = <<>>, !.any = FALSE]
CsvStep(dl, s, ch) ==
  IF ch = 13 THEN s
  ELSE CASE s.mode = "q" ->
              IF ch = 34 THEN [s EXCEPT !.mode = "e"] ELSE [s EXCEPT !.fld = Append(@, ch)]
         [] s.mode = "e" /\ ch = 34 -> [s EXCEPT !.fld = Append(@, 34), !.mode = "q"]
         [] s.mode = "s" /\ ch = 34 -> [s EXCEPT !.mode = "q", !.any = TRUE]
         [] ch = dl -> CsvField(s)
         [] ch = 10 -> CsvEndRow(s)
         [] OTHER -> [s EXCEPT !.fld = Append(@, ch), !.mode = "u", !.any = TRUE]
CsvRows(dl, text) ==
  LET s == FoldLeft(LAMBDA a, ch : CsvStep(dl, a, ch), CsvInit, text)
  IN IF s.row = <<>> /\ ~s.any THEN s.rows ELSE CsvEndRow(s).rows

\* a field is true when it denotes a nonzero integer
IsDigit(ch) == 48 <= ch /\ ch <= 57
FieldTrue(fld) ==
  LET st == FoldLeft(LAMBDA a, ch :
               IF a.ph = 0 /\ ch = 32 THEN a
               ELSE IF a.ph = 0 /\ ch \in {43, 45} THEN [a EXCEPT !.ph = 1]
               ELSE IF a.ph \in {0, 1} /\ IsDigit(ch) THEN [ph |-> 1, nz |-> a.nz \/ ch # 48]
               ELSE [a EXCEPT !.ph = 2],
               [ph |-> 0, nz |-> FALSE], fld)
  IN st.nz
RowSet(row) == {i \in 1..Len(row) : FieldTrue(row[i])}

\* --------------------------------------------------------------- multisets
\* a multiset of records is a function from records (sets) to positive counts
MsEmpty == [t \in {} |-> 0]
MsAdd(ms, t) == IF t \in DOMAIN ms THEN [ms EXCEPT ![t] = @ + 1] ELSE ms @@ (t :> 1)
MsOf(sq) == FoldLeft(LAMBDA a, t : MsAdd(a, t), MsEmpty, sq)
MsSize(ms) == FoldLeft(LAMBDA a, t : a + ms[t], 0, SetToSeq(DOMAIN ms))
Entropy(ms) ==
  LET n == MsSize(ms)
      s == FoldLeft(LAMBDA a, t : DAdd(a, DMul(DOfInt(ms[t]), DLn(DDiv(DOfInt(ms[t]), DOfInt(n))))), DOfInt(0), SetToSeq(DOMAIN ms))
  IN DDiv(s, DOfInt(n))

CsvData(text) ==
  LET rows == CsvRows(44, text)
  IN [ms |-> MsOf([i \in 1..Len(rows) |-> RowSet(rows[i])]),
      vs |-> IF Len(rows) = 0 THEN 0 ELSE Len(rows[1])]

\* doc: [hv, vs, hd, ex]: has variable_size, its value, has data, list of examples;
\* an example is [a |-> is an array, e |-> <<[n |-> is an integer, v |-> value], ...>>]
JsonOK(doc) == doc.hv = 1 /\ doc.hd = 1
JsonExampleOK(vs, x) == x.a = 1 /\ \A j \in 1..Len(x.e) : x.e[j].n = 1 /\ x.e[j].v >= 1 /\ x.e[j].v <= vs
JsonData(doc) ==
  LET good == SelectSeq(doc.ex, LAMBDA x : JsonExampleOK(doc.vs, x))
  IN [ms |-> MsOf([i \in 1..Len(good) |-> {good[i].e[j].v : j \in 1..Len(good[i].e)}]), vs |-> doc.vs]
============================================================================
