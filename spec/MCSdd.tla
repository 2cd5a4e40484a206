------------------------------- MODULE MCSdd -------------------------------
(***************************************************************************)
(* Converting decision diagrams: every Boolean function over the variables *)
(* of every sub-vtree of a small vtree.  The canonical diagram of the      *)
(* function (compressed and trimmed, as libsdd keeps them) is built from   *)
(* its models, converted by the transcribed algorithm, and the result held *)
(* against CompilePost; the way back (ConvertPsddToSdd) and the model count*)
(* are checked on the result as well.                                      *)
(***************************************************************************)
EXTENDS Sdd, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)

\* ------------------------------------------------------------- the model
VARIABLES K, v, f, phase, bad, hash
vars == <<K, v, f, phase, bad, hash>>
MkK == LET vt == MkVt(TabOf(ShapeOfRpn(C.vt)))
           xs == AllVars(vt)
           cx == MkCx(xs, SetToSeq(SUBSET xs), TRUE)
       IN [vt |-> vt, cx |-> cx, xs |-> xs, w |-> [cx |-> cx, vt |-> <<vt>>]]
Weight(T) == FoldLeft(LAMBDA a, x : a + (IF x \in T THEN 2 ^ (x - 1) ELSE 0), 0, <<1, 2, 3, 4, 5>>)
HashOf(g) == FoldLeft(LAMBDA a, T : (a * 31 + Weight(T) + 1) % 10007, 7, SetToSortSeq(g, LAMBDA x, y : Weight(x) < Weight(y)))
Init ==
  \E k \in {MkK} :
    /\ K = k
    /\ v \in VPos(k.vt)
    /\ f \in SUBSET (SUBSET VarsAt(k.vt, v))
    /\ hash = HashOf(f)
    /\ hash % C.mod = C.rem % C.mod \/ Cardinality(VarsAt(k.vt, v)) < 4
    /\ phase = "init" /\ bad = {}
Next ==
  /\ phase = "init"
  /\ phase' = "done"
  /\ LET x == Convert(K.w, EmptyStore({1}), 1, SddOf(K.vt, v, f), 5)
         X == VarsAt(K.vt, v)
         models == {i \in K.cx.all : (K.cx.P[i] \cap X) \in f}
     IN bad' = CompilePost(K.cx, x.S.nd, x.r, models, K.vt.root, 5) \cup
               (IF x.r = 0 THEN {} ELSE
                Chk(BackOf(K.vt, x.S.nd, x.r, K.xs) = {K.cx.P[i] : i \in models}, "the way back gives another function") \cup
                Chk(Count(K.w, x.S.nd, x.r) = Cardinality(models), "wrong model count"))
  /\ PrintT("BEH|" \o ToString(<<v, SetToSeq({Weight(T) : T \in f})>>))
  /\ UNCHANGED <<K, v, f, hash>>
Spec == Init /\ [][Next]_vars
Good == bad = {}
View == <<v, f, phase, bad>>
============================================================================
