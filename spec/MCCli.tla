------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* The inference tool (psdd_inference_main.cpp) as a process: it reads the *)
(* evidence, the vtree and the structure file, compiles the evidence,      *)
(* multiplies, and answers what was asked, every step by the transcribed   *)
(* algorithms of the library.  What it prints is held against CliPost,     *)
(* which speaks only of the written file's structure and of the clauses.   *)
(***************************************************************************)
EXTENDS Sdd, Terms, Formats, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)
Wgt(q) == {<<<<q[i][1], q[i][2]>>, <<q[i][3], q[i][4]>>>> : i \in 1..Len(q)}

VARIABLES K, t, cls, ev, qm, qr, pc, S, psdd, evid, out, bad
vars == <<K, t, cls, ev, qm, qr, pc, S, psdd, evid, out, bad>>
MkK(z) ==
  LET vt == MkVt(TabOf(ShapeOfRpn(C.vt)))
      xs == AllVars(vt)
      cx == MkCx(xs, SetToSeq(SUBSET xs), TRUE)
      lits == xs \cup {-x : x \in xs}
      cl == {c \in SUBSET lits : c # {} /\ Cardinality(c) <= C.lits /\ \A x \in c : -x \notin c}
  IN [ vt |-> vt, xs |-> xs, cx |-> cx, w |-> [cx |-> cx, vt |-> <<vt, vt>>],
       terms |-> SetToSeq(TermsAt(vt, vt.root, Wgt(C.tw), Wgt(C.dw))),
       cls |-> SetToSeq({s \in SUBSET cl : Cardinality(s) <= C.clauses}) ]
Init ==
  \E k \in {MkK(0)} :
    /\ K = k
    /\ \E i \in {x \in 1..Len(k.terms) : x % C.mod = C.rem % C.mod} : t = k.terms[i]
    /\ \E i \in {x \in 1..Len(k.cls) : x % C.mod2 = C.rem % C.mod2} : cls = k.cls[i]
    /\ ev \in BOOLEAN /\ qm \in BOOLEAN /\ qr \in BOOLEAN
    /\ ~ev => cls = k.cls[CHOOSE x \in 1..Len(k.cls) : x % C.mod2 = C.rem % C.mod2]
    /\ pc = "write" /\ S = EmptyStore({1, 2}) /\ psdd = 0 /\ evid = 0
    /\ out = [rc |-> 0, unsat |-> FALSE, hasmpe |-> FALSE, mpe |-> <<>>, haspr |-> FALSE, pr |-> NZero, hasmar |-> FALSE, mar |-> <<>>]
    /\ bad = {}
same == UNCHANGED <<K, t, cls, ev, qm, qr>>
W == K.w
\* the structure is built and written in manager 1; the tool works in manager 2 on the file
Write ==
  /\ pc = "write"
  /\ LET x == Build(W, S, 1, t, 0)
         y == ReadFileInto(W, x.S, 2, FileOf(W, x.S.nd, x.r), 0)
     IN S' = y.S /\ psdd' = y.r /\ evid' = x.r
  /\ pc' = IF ev THEN "evidence" ELSE "mpe"
  /\ same /\ UNCHANGED <<out, bad>>
Models == CnfModels(K.cx, cls)
\* compile the clauses, multiply the evidence with the structure
Evidence ==
  /\ pc = "evidence"
  /\ LET f == {K.cx.P[i] : i \in Models}
         c == Convert(W, S, 2, SddOf(K.vt, K.vt.root, f), 0)
         p == IF c.r = 0 THEN [S |-> c.S, r |-> 0] ELSE Mul(W, c.S, 2, c.r, psdd, 0)
     IN /\ S' = p.S /\ psdd' = p.r
        /\ out' = [out EXCEPT !.unsat = p.r = 0]
        /\ pc' = IF p.r = 0 THEN "end" ELSE "mpe"
  /\ same /\ UNCHANGED <<evid, bad>>
Sorted == SetToSortSeq(K.xs, LAMBDA a, b : a < b)
MpeQ ==
  /\ pc = "mpe" /\ pc' = "mar"
  /\ out' = IF ~qm THEN out
            ELSE LET x == Mpe(W, S.nd, psdd)
                 IN [out EXCEPT !.hasmpe = TRUE, !.haspr = TRUE, !.pr = x.r,
                                !.mpe = [j \in 1..Len(Sorted) |-> <<Sorted[j], IF Sorted[j] \in x.t THEN 1 ELSE 0>>]]
  /\ same /\ UNCHANGED <<S, psdd, evid, bad>>
MarQ ==
  /\ pc = "mar" /\ pc' = "end"
  /\ out' = IF ~qr THEN out
            ELSE LET x == Marginals(W, S.nd, psdd)
                 IN [out EXCEPT !.hasmar = TRUE,
                                !.mar = [j \in 1..Len(Sorted) |-> [x |-> Sorted[j], f |-> x[Sorted[j]][1], t |-> x[Sorted[j]][2]]]]
  /\ same /\ UNCHANGED <<S, psdd, evid, bad>>
End ==
  /\ pc = "end" /\ pc' = "done"
  /\ LET near(a, b) == a = b
         r == S.nd[evid]
     IN bad' = CliPost(K.cx, K.vt, r, ev, IF ev THEN Models ELSE K.cx.all, qm, qr, out, near)
  /\ PrintT("BEH|" \o ToString(<<t, SetToSeq({SetToSeq(c) : c \in cls}), ev, qm, qr>>))
  /\ same /\ UNCHANGED <<S, psdd, evid, out>>
Next == Write \/ Evidence \/ MpeQ \/ MarQ \/ End
Spec == Init /\ [][Next]_vars
Good == bad = {}
View == <<t, cls, ev, qm, qr, pc, bad>>
============================================================================
