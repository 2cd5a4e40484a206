------------------------------- MODULE MCCsv -------------------------------
(***************************************************************************)
(* The CSV reader of src/csvparser.c, character by character, next to the  *)
(* format (Data!CsvStep).  Every text over a small alphabet with properly  *)
(* closed quotes is read by both; they must finish the same fields and the *)
(* same rows at the same characters, and the reader must stay inside its   *)
(* growing buffers (which start at CAP characters and FLD fields here, 64  *)
(* and 64 in the code).  The state keeps only the current field, so texts  *)
(* of any length are covered, up to the bounds on one field and one row.   *)
(***************************************************************************)
EXTENDS Data, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)
Dl == 44  NL == 10  CR == 13  Q == 34
Plain == {97, 49}

VARIABLES text, im, sp, done, bad
vars == <<text, im, sp, done, bad>>

\* the reader's variables; alloc: characters allocated, slots: fields allocated
Row0 == [row |-> <<>>, cur |-> <<>>, inq |-> FALSE, ser |-> 0, lq |-> FALSE, cap |-> C.cap, slots |-> C.fld, nre |-> 0, oob |-> FALSE]
Im0 == Row0 @@ [rows |-> <<>>, eof |-> FALSE]
NextRow(m) == Row0 @@ [rows |-> m.rows, eof |-> m.eof, oob2 |-> FALSE]

\* one turn of the loop in _CsvParser_getRow, on character ch (end: the end of the text)
Turn(m, ch0, end) ==
  IF end /\ Len(m.cur) = 0 /\ Len(m.row) = 0 THEN [m EXCEPT !.eof = TRUE]
  ELSE LET ch == IF end THEN NL ELSE ch0 IN
  IF ch = CR THEN m
  ELSE IF Len(m.cur) = 0 /\ ~m.lq /\ ch = Q THEN [m EXCEPT !.inq = TRUE, !.lq = TRUE]
  ELSE LET m1 == IF Len(m.cur) = 0 /\ ~m.lq THEN m
                 ELSE IF ch = Q
                      THEN LET s == m.ser + 1 inq == (s % 2 = 0)
                           IN [m EXCEPT !.ser = s % 2, !.inq = inq, !.cur = IF inq THEN SubSeq(@, 1, Len(@) - 1) ELSE @]
                      ELSE [m EXCEPT !.ser = 0]
       IN IF end \/ (ch \in {Dl, NL} /\ ~m1.inq)
          THEN LET fld == IF m1.lq THEN SubSeq(m1.cur, 1, Len(m1.cur) - 1) ELSE m1.cur
                   row == Append(m1.row, fld)
                   oob == m1.oob \/ Len(m1.row) >= m1.slots \/ Len(m1.cur) >= m1.cap
               IN IF ch = NL
                  THEN [NextRow(m1) EXCEPT !.rows = Append(@, row), !.oob = oob]
                  ELSE [m1 EXCEPT !.row = row, !.cur = <<>>, !.cap = C.cap, !.inq = FALSE, !.lq = FALSE, !.oob = oob,
                                  !.slots = IF Len(row) % C.fld = 0 THEN (m1.nre + 2) * C.fld ELSE @,
                                  !.nre = IF Len(row) % C.fld = 0 THEN @ + 1 ELSE @]
          ELSE LET cur == Append(m1.cur, ch)
               IN [m1 EXCEPT !.cur = cur, !.oob = @ \/ Len(cur) > m1.cap, !.lq = (ch = Q),
                             !.cap = IF Len(cur) = @ - 1 THEN 2 * @ ELSE @]

\* characters a well-formed text may go on with
Follow(s) ==
  CASE s.mode = "q" -> {97, Dl, NL, Q} \cup (IF C.cr THEN {CR} ELSE {})
    [] s.mode = "e" -> {Dl, NL, Q} \cup (IF C.cr THEN {CR} ELSE {})
    [] s.mode = "s" -> Plain \cup {Dl, NL, Q} \cup (IF C.cr THEN {CR} ELSE {})
    [] OTHER -> Plain \cup {Dl, NL} \cup (IF C.cr THEN {CR} ELSE {})

Compare(m, s) ==
  (IF m.rows = s.rows THEN {} ELSE {"other rows"}) \cup
  (IF m.row = s.row THEN {} ELSE {"other fields"}) \cup
  (IF m.oob THEN {"out of the buffers"} ELSE {})
\* finished rows are compared and dropped
Cut(m) == [m EXCEPT !.rows = <<>>]

Emit(t, s) ==
  LET whole == IF s.mode = "q" THEN Append(t, Q) ELSE t IN
  IF FoldLeft(LAMBDA a, ch : (a * 131 + ch) % 100003, 7, whole) % C.stride = C.rem % C.stride THEN PrintT("BEH|" \o ToString(whole)) ELSE TRUE

Init == text = <<>> /\ im = Im0 @@ [oob2 |-> FALSE] /\ sp = CsvInit /\ done = FALSE /\ bad = {}
Read ==
  /\ ~done
  /\ \E ch \in Follow(sp) :
       LET s == CsvStep(Dl, sp, ch)
           m == Turn(im, ch, FALSE)
       IN /\ Len(s.fld) <= C.len /\ Len(s.row) <= C.cols
          /\ text' = Append(text, ch)
          /\ bad' = Compare(m, s)
          /\ sp' = [s EXCEPT !.rows = <<>>] /\ im' = Cut(m)
          /\ Emit(text', s)
  /\ done' = FALSE
Finish ==
  /\ ~done /\ sp.mode # "q"
  /\ LET m == Turn(im, NL, TRUE)
         s == IF sp.row = <<>> /\ ~sp.any THEN sp ELSE CsvEndRow(sp)
         m2 == IF m.eof THEN m ELSE Turn(m, NL, TRUE)
     IN /\ bad' = Compare(m, s) \cup (IF m2.eof THEN {} ELSE {"the end is not reported"})
        /\ im' = m /\ sp' = s
  /\ done' = TRUE /\ UNCHANGED text
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
Good == bad = {}
View == <<[im EXCEPT !.row = <<Len(@)>>], [sp EXCEPT !.row = <<Len(@)>>], done, bad>>
============================================================================
