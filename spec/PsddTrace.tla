----------------------------- MODULE PsddTrace -----------------------------
(***************************************************************************)
(* Executions of the real library, judged against the contracts.           *)
(*                                                                         *)
(* The trace file holds one recorded case per line: a script of calls with *)
(* everything observable after each call.  A behaviour picks a case and    *)
(* consumes its events one by one; st is the abstract state of the library *)
(* (vtrees, managers and their interned nodes, handles, files, datasets,   *)
(* networks, registers).  Every event is one action; an event the          *)
(* specification does not allow is reported, tagged with the property that *)
(* it breaks, and the state adopted from the observation so that the rest  *)
(* of the case is judged too.                                              *)
(***************************************************************************)
EXTENDS Contract, Data, Formats, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCases == Len(Trace)

VARIABLES c, l, st
vars == <<c, l, st>>
View == <<c, l>>

Case == Trace[c]
Ev == Case.ev[l]
Rng(q) == {q[j] : j \in 1..Len(q)}
Nums(q) == [j \in 1..Len(q) |-> NLog(q[j])]

CaseCx(k) ==
  LET V == Rng(Trace[k].vars)
      P == IF Trace[k].exh = 1 THEN SetToSeq(SUBSET V)
           ELSE [j \in 1..Len(Trace[k].probes) |-> Rng(Trace[k].probes[j])]
  IN MkCx(V, P, Trace[k].exh = 1)

InitSt(k) ==
  [ cx |-> CaseCx(k), vt |-> <<>>, mg |-> <<>>, nd |-> <<>>, hs |-> <<>>,
    fl |-> <<>>, ds |-> <<>>, un |-> <<>>, pg |-> <<>>, R |-> <<>>,
    rd |-> {}, gcd |-> FALSE, okq |-> {}, bad |-> FALSE ]

Init == c \in 1..NCases /\ l = 1 /\ st = InitSt(c)

\* ------------------------------------------------------------------ ownership
Owner(op) ==
  CASE op \in {"vtree", "vfree", "mgr", "mgrmap", "mgrfree", "vcopy", "vmap", "vproj", "vsub", "vvars"} -> "C24"
    [] op \in {"lit", "top", "dec", "true", "norm"} -> "C14"
    [] op = "conv" -> "C03"  [] op \in {"cnf", "cnffile"} -> "C04"
    [] op = "mul" -> "C05"   [] op = "evals" -> "C06" [] op = "mpe" -> "C07" [] op = "mar" -> "C08"
    [] op \in {"count", "cons", "consn", "act", "tosdd"} -> "C09"
    [] op = "learn" -> "C10" [] op \in {"samp", "samp1"} -> "C11"
    [] op \in {"dsgrid", "ds", "dsrng"} -> "C12"
    [] op \in {"write", "read", "file"} -> "C13" [] op = "load" -> "C15"
    [] op \in {"ser", "size"} -> "C16" [] op \in {"gc", "gcf"} -> "C02" [] op = "snap" -> "C17"
    [] op \in {"pset", "pzero", "padd", "pmul", "pdiv", "paddi", "pmuli", "pdivi", "par"} -> "C18"
    [] op \in {"dnew", "csv", "csvw", "csvr", "dadd", "dvar", "json", "csvp"} -> "C19"
    [] op = "uai" -> "C20" [] op \in {"pgm", "pgmv", "pgmf", "pgmn"} -> "C21"
    [] op \in {"pgmm", "vgen"} -> "C22"
    [] op \in {"cliinf", "cliuai", "clibench"} -> "C23"
    [] OTHER -> "C99"

Tag(p, msgs) == {<<p, x>> : x \in msgs}

\* ------------------------------------------------------------------ nodes
SameSeq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : NEq(a[j], b[j])
RawW(n) == IF n.k = "L" THEN <<>> ELSE Nums(n.w)
RawP(n) == IF n.k = "D" THEN n.p ELSE <<>>
RawS(n) == IF n.k = "D" THEN n.s ELSE <<>>
RawL(n) == IF n.k = "D" THEN 0 ELSE n.l
Unchanged(rec, n) ==
  /\ rec.x = n.x /\ rec.v = n.v /\ rec.f = n.f /\ rec.k = n.k
  /\ rec.l = RawL(n) /\ rec.p = RawP(n) /\ rec.s = RawS(n)
  /\ SameSeq(rec.w, RawW(n))
\* same content, whatever the order of the elements
SameContent(a, b) ==
  /\ a.v = b.v /\ a.k = b.k /\ a.f = b.f /\ a.l = b.l
  /\ IF a.k = "D"
     THEN /\ Len(a.p) = Len(b.p)
          /\ \A j \in 1..Len(a.p) : \E e \in 1..Len(b.p) : a.p[j] = b.p[e] /\ a.s[j] = b.s[e] /\ NEq(a.w[j], b.w[e])
     ELSE SameSeq(a.w, b.w)

Dummy(i) == [ i |-> i, x |-> "", m |-> 0, v |-> -1, f |-> "", k |-> "?", l |-> 0, p |-> <<>>, s |-> <<>>,
              w |-> <<>>, ok |-> FALSE, live |-> FALSE, ln |-> FALSE, sup |-> {}, den |-> <<>> ]

\* absorb one listed node of manager m; acc = [nd, f, mg]
AbsorbNode(cx, op, m, gcd, acc, n) ==
  IF n.i <= Len(acc.nd) /\ acc.nd[n.i].k # "?"
  THEN IF Unchanged(acc.nd[n.i], n) THEN acc
       ELSE [acc EXCEPT !.f = @ \cup {<<"C17", "an existing node was altered">>, <<Owner(op), "an existing node was altered">>}]
  ELSE
  LET pad == acc.nd \o [j \in 1..(n.i - 1 - Len(acc.nd)) |-> Dummy(Len(acc.nd) + j)]
      base == IF n.i <= Len(acc.nd) THEN acc.nd ELSE Append(pad, Dummy(n.i))
      g == acc.mg[m]
      n0 == [ i |-> n.i, x |-> n.x, m |-> m, v |-> n.v, f |-> n.f, k |-> n.k, l |-> RawL(n), p |-> RawP(n),
              s |-> RawS(n), w |-> RawW(n), ok |-> TRUE, live |-> TRUE, ln |-> FALSE, sup |-> {}, den |-> <<>> ]
      wf == NodeWF(g.vt, base, n0)
      sup == IF wf THEN TLCEval(SupOf(cx, base, n0)) ELSE {}
      den == IF wf THEN TLCEval(DenOf(cx, base, n0, sup)) ELSE <<>>
      det == wf => Determ(base, n0)
      rec == [n0 EXCEPT !.ok = wf, !.sup = sup, !.den = den,
                        !.ln = wf /\ (n.k = "L" \/ (LocalOne(n0) /\ \A ch \in Kids(n0) : base[ch].ln))]
      dup == wf /\ \E i \in 1..Len(base) : base[i].live /\ base[i].m = m /\ base[i].ok /\ SameContent(base[i], rec)
      f == (IF wf THEN {} ELSE {<<Owner(op), "ill-formed node">>, <<"C01", "ill-formed node">>}) \cup
           (IF det THEN {} ELSE {<<Owner(op), "primes are not mutually exclusive">>}) \cup
           (IF dup THEN {<<"C01", "a second node with the content of a live one">>} \cup
                        (IF gcd THEN {<<"C02", "a second node with the content of a retained one">>} ELSE {}) \cup
                        (IF op \in {"load", "read"} THEN {<<Owner(op), "a second node with the content of a live one">>} ELSE {})
            ELSE {}) \cup
           (IF n.x \in g.dead THEN {<<"C02", "a node with the index of a collected one">>, <<Owner(op), "a node with the index of a collected one">>}
            ELSE IF n.x \in g.xs THEN {<<"C01", "two live nodes with one index">>} ELSE {})
  IN [ nd |-> [base EXCEPT ![n.i] = rec], f |-> acc.f \cup f,
       mg |-> [acc.mg EXCEPT ![m].xs = @ \cup {n.x}] ]

\* the manager of a listed node is the event's, except in snapshots
MgrOf(e, S, n) == IF "m" \in DOMAIN e THEN e.m ELSE IF n.i <= Len(S.nd) THEN S.nd[n.i].m ELSE 0
Absorb(S, e) ==
  LET sorted == SortSeq(e.nodes, LAMBDA a, b : a.i < b.i)
  IN FoldLeft(LAMBDA acc, n :
        IF MgrOf(e, S, n) = 0
        THEN [acc EXCEPT !.f = @ \cup {<<Owner(e.op), "a handle refers to an unknown node">>}]
        ELSE AbsorbNode(S.cx, e.op, MgrOf(e, S, n), S.gcd, acc, n),
      [nd |-> S.nd, f |-> {}, mg |-> S.mg], sorted)

IdxOf(cx, T) == CHOOSE i \in cx.all : cx.P[i] = T \cap cx.vars

\* ------------------------------------------------------------------ formulas
FmModels(cx, fm) ==
  LET push(stk, x) ==
        LET n == Len(stk) IN
        CASE x = 1000001 -> Append(SubSeq(stk, 1, n - 2), stk[n - 1] \cap stk[n])
          [] x = 1000002 -> Append(SubSeq(stk, 1, n - 2), stk[n - 1] \cup stk[n])
          [] x = 1000003 -> Append(SubSeq(stk, 1, n - 1), cx.all \ stk[n])
          [] x = 1000004 -> Append(stk, cx.all)
          [] x = 1000005 -> Append(stk, {})
          [] x = 1000006 -> Append(SubSeq(stk, 1, n - 2), (stk[n - 1] \ stk[n]) \cup (stk[n] \ stk[n - 1]))
          [] OTHER -> Append(stk, LitSup(cx, x))
  IN FoldLeft(push, <<>>, fm)[1]

\* ------------------------------------------------------------------ files
FileTol(cx) == 2 * (Cardinality(cx.vars) + 2) * 5000 + OpTol(cx)
ReadPost(S, nd, vt, e) ==
  LET cx == S.cx
      F == PsddFileNodes(cx, vt, e.text)
      r == F[Len(F)]
      src == IF e.file \in DOMAIN S.fl THEN S.fl[e.file] ELSE [a |-> 0]
  IN IF e.res = 0 THEN {"no structure was read"}
     ELSE IF ~r.ok THEN {}       \* only well-formed files say anything
     ELSE PosOK(nd, e.res, r.v) \cup
          SameDen(cx, r, nd[e.res], OpTol(cx)) \cup
          FlagPost(nd, e.res, {}, e.f) \cup
          (IF src.a # 0 /\ nd[src.a].live /\ nd[src.a].m = e.m /\ <<src.a, e.f>> \in S.rd
           THEN Chk(e.res = src.a, "reading a written file again gives another node") ELSE {})

WritePost(S, e) ==
  LET cx == S.cx nd == S.nd vt == S.mg[e.am].vt n == nd[e.a] IN
  IF ~n.ok THEN {}
  ELSE IF ~PsddFileWF(vt, e.text) THEN {"file is not well formed"}
  ELSE LET F == PsddFileNodes(cx, vt, e.text) r == F[Len(F)] IN
       Chk(\A j \in 1..Len(F) : F[j].ok, "file describes an ill-formed structure") \cup
       (IF ~r.ok THEN {} ELSE
        Chk(Len(F) = Cardinality(Reach(nd, {e.a})), "file does not list every node once") \cup
        Chk(Reach(F, {Len(F)}) = 1..Len(F), "file lists an unreachable node") \cup
        Chk(r.v = n.v, "file puts the structure elsewhere") \cup
        SameDen(cx, n, r, FileTol(cx)))

\* ------------------------------------------------------------------ networks
FactorPost(S, nd, vt, e) ==
  LET net == S.pg[e.g] j == e.i + 1 IN
  RatioPost(S.cx, nd, e.res, NLog(e.z), LAMBDA T : FactorVal(net, j, T), "factor")
NetPost(S, nd, vt, e) ==
  LET net == S.pg[e.g] IN
  RatioPost(S.cx, nd, e.res, NLog(e.z), LAMBDA T : NetVal(net, T), "product of the factors")

\* ------------------------------------------------------------------ node operations
\* contract of a call that yields node e.res, S the state before, A after absorption
NodeOp(S, A, e) ==
  LET cx == S.cx nd == A.nd vt == S.mg[e.m].vt
      argsOK(X) == \A i \in X : i \in 1..Len(nd) /\ nd[i].ok /\ nd[i].live
      resOK == e.res = 0 \/ nd[e.res].ok
      go(X, msgs) == IF ~resOK THEN {} ELSE IF argsOK(X) THEN msgs ELSE {}
  IN CASE e.op = "lit" -> go({}, LitPost(nd, e.res, e.l, e.f))
       [] e.op = "top" -> go({}, TopPost(nd, e.res, e.l, e.f, Nums(e.w)))
       [] e.op = "dec" -> go(Rng(e.p) \cup Rng(e.s), DecPost(cx, vt, nd, e.res, e.p, e.s, Nums(e.w), e.f))
       [] e.op = "true" -> go({}, TruePost(cx, nd, e.res, e.p, e.f))
       [] e.op = "norm" -> go({e.a}, NormPost(cx, nd, e.a, e.res, e.p, e.f))
       [] e.op = "load" -> go({e.a}, LoadPost(cx, nd, e.a, e.res, e.p, e.f))
       [] e.op = "conv" -> go({}, CompilePost(cx, nd, e.res, FmModels(cx, e.fm), e.p, e.f))
       [] e.op = "cnf" -> go({}, CompilePost(cx, nd, e.res,
                            CnfModels(cx, {Rng(e.cl[j]) : j \in 1..Len(e.cl)}), vt.root, e.f))
       [] e.op = "cnffile" -> go({}, CompilePost(cx, nd, e.res, CnfModels(cx, CnfClauses(e.text)), vt.root, e.f))
       [] e.op = "mul" -> go({e.a, e.b}, MulPost(cx, nd, e.a, e.b, e.res, NLog(e.z), e.f))
       [] e.op = "learn" -> go({e.a}, LearnPost(cx, nd, e.a, e.res,
                              [j \in 1..Len(e.rows) |-> <<IdxOf(cx, Rng(e.rows[j].t)), e.rows[j].c>>], NLog(e.al), e.f))
       [] e.op = "read" -> go({}, ReadPost(S, nd, vt, e))
       [] e.op = "pgmf" -> go({}, FactorPost(S, nd, vt, e))
       [] e.op = "pgmn" -> go({}, NetPost(S, nd, vt, e))
       [] OTHER -> {"unknown operation"}

\* a node made for a table that is used directly: it compares equal to the
\* nodes of its content and to no other
Alike(a, b) ==
  /\ a.v = b.v /\ a.k = b.k /\ a.f = b.f /\ a.l = b.l /\ Len(a.p) = Len(b.p)
  /\ IF a.k = "D"
     THEN \A j \in 1..Len(a.p) : \E e \in 1..Len(b.p) : a.p[j] = b.p[e] /\ a.s[j] = b.s[e] /\ NNear(a.w[j], b.w[e], ParTol)
     ELSE Len(a.w) = Len(b.w) /\ \A j \in 1..Len(a.w) : NNear(a.w[j], b.w[j], ParTol)
EqPost(old, nd, e) ==
  Chk(\A i \in Rng(e.eq) : i <= Len(old) => Alike(old[i], nd[e.res]), "nodes of different content compare equal") \cup
  Chk(\A i \in 1..Len(old) : old[i].m = e.m /\ old[i].live /\ SameContent(old[i], nd[e.res]) => i \in Rng(e.eq), "nodes of one content compare unequal") \cup
  Chk(e.hq = 1, "equal nodes have different hash values")

PutH(S, e) == (e.h :> e.res) @@ S.hs
DropH(S, ds) == [h \in DOMAIN S.hs \ Rng(ds) |-> S.hs[h]]

\* ------------------------------------------------------------------ garbage
\* everything of manager m that is not reachable from the ids of K is forgotten
Collect(nd, mg, m, K) ==
  LET R == Reach(nd, K)
      gone == {i \in 1..Len(nd) : nd[i].m = m /\ nd[i].live /\ i \notin R}
  IN [ nd |-> [i \in 1..Len(nd) |-> IF i \in gone THEN [nd[i] EXCEPT !.live = FALSE] ELSE nd[i]],
       mg |-> [mg EXCEPT ![m].dead = @ \cup {nd[i].x : i \in gone}] ]

\* ------------------------------------------------------------------ the step
\* result: [st, f]: next state and the set of <<property, message>> broken
Res(s, f) == [st |-> s, f |-> f]

TabCheck(e, expected) ==
  IF ~TabWF(e.tab) THEN {"not a well-formed vtree"}
  ELSE Chk(RootShape(e.tab) = expected, "wrong shape or variables")
MgrRec(e) == [vt |-> MkVt(e.tab), live |-> TRUE, xs |-> {}, dead |-> {}]
Rows5(t) == [j \in 1..Len(t) |-> SubSeq(t[j], 1, 5)]

StepVtree(e) ==
  CASE e.op = "vtree" -> Res([st EXCEPT !.vt = (e.v :> e.tab) @@ @],
                             Tag("C24", TabCheck(e, ShapeOfRpn(e.rpn))))
    [] e.op = "mgr" ->
         Res(IF TabWF(e.tab) THEN [st EXCEPT !.mg = (e.m :> MgrRec(e)) @@ @] ELSE st,
             Tag("C24", TabCheck(e, RootShape(st.vt[e.v])) \cup
                        Chk(e.vtab = st.vt[e.v], "the given vtree was altered") \cup
                        Chk(e.own = 1, "the manager took the given vtree over")))
    [] e.op = "utab" ->
         Res(IF TabWF(e.tab) THEN [st EXCEPT !.mg = (e.m :> MgrRec(e)) @@ @] ELSE st, Tag("C24", TabCheck(e, RootShape(st.vt[e.v]))))
    [] e.op = "mgrmap" ->
         Res(IF TabWF(e.tab) THEN [st EXCEPT !.mg = (e.m :> MgrRec(e)) @@ @] ELSE st,
             Tag("C24", TabCheck(e, MapShape(RootShape(st.vt[e.v]), PairMap(e.map))) \cup
                        Chk(e.vtab = st.vt[e.v], "the given vtree was altered") \cup
                        Chk(e.own = 1, "the manager took the given vtree over")))
    [] e.op = "mgrfree" ->
         Res([st EXCEPT !.mg[e.m].live = FALSE,
                        !.nd = [i \in 1..Len(@) |-> IF @[i].m = e.m THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]],
                        !.hs = [h \in {x \in DOMAIN @ : @[x] = 0 \/ st.nd[@[x]].m # e.m} |-> @[h]]], {})
    [] e.op = "vcopy" ->
         Res([st EXCEPT !.vt = (e.v :> e.tab) @@ @],
             Tag("C24", TabCheck(e, RootShape(st.vt[e.o])) \cup Chk(e.otab = st.vt[e.o], "the given vtree was altered") \cup
                        Chk(e.own = 1, "the copy is the original")))
    [] e.op = "vmap" ->
         Res([st EXCEPT !.vt = (e.v :> e.tab) @@ @],
             Tag("C24", TabCheck(e, MapShape(RootShape(st.vt[e.o]), PairMap(e.map))) \cup Chk(e.otab = st.vt[e.o], "the given vtree was altered")))
    [] e.op = "vproj" ->
         Res([st EXCEPT !.vt = (e.v :> e.tab) @@ @],
             Tag("C24", TabCheck(e, ProjShape(RootShape(st.vt[e.o]), Rng(e.s))) \cup Chk(e.otab = st.vt[e.o], "the given vtree was altered")))
    [] e.op = "vsub" ->
         LET vt == MkVt(st.vt[e.o]) C == {p \in VPos(vt) : VarsAt(vt, p) = Rng(e.s)}
         IN Res(st, Tag("C24", Chk(e.r = (IF C = {} THEN -1 ELSE CHOOSE p \in C : TRUE), "wrong sub-vtree") \cup
                               Chk(e.otab = st.vt[e.o], "the given vtree was altered")))
    [] e.op = "vvars" ->
         LET vt == MkVt(st.vt[e.o]) U == VarsAt(vt, e.p) IN
         Res(st, Tag("C24",
              Chk(Rng(e.u) = U /\ Len(e.u) = Cardinality(U), "variable listing is wrong") \cup
              Chk(e.lr = ShapeSeq(Shape(st.vt[e.o], e.p)), "left-to-right listing is wrong") \cup
              Chk(Rng(e.se) = vt.lo[e.p]..vt.hi[e.p] /\ Len(e.se) = Cardinality(Rng(e.se)), "serialisation does not list every vtree node once") \cup
              Chk(\A i, j \in 1..Len(e.se) : e.se[j] # e.p /\ ParentOf(vt, e.se[j]) = e.se[i] => i < j, "serialisation lists a child before its parent") \cup
              Chk(e.otab = st.vt[e.o], "the given vtree was altered")))

\* operations yielding a node
IsNodeOp(op) == op \in {"lit", "top", "dec", "true", "norm", "load", "conv", "cnf", "cnffile", "mul", "learn", "read", "pgmf", "pgmn"}
StepNode(e) ==
  LET \* compiling a whole network may collect whatever else the manager holds
      \* (also what it built itself and released): nothing is retained
      S0 == IF e.op = "pgmn"
            THEN [st EXCEPT !.nd = [i \in 1..Len(@) |-> IF @[i].m = e.m THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]],
                            !.mg[e.m].xs = {}, !.hs = DropH(st, e.drop)]
            ELSE st
      A == Absorb(S0, e)
      msgs == TLCEval(NodeOp(S0, A, e))
      own == Tag(Owner(e.op), msgs) \cup
             (IF e.op \in {"lit", "top", "dec"} THEN Tag("C01", msgs) ELSE {}) \cup
             (IF "eq" \in DOMAIN e /\ e.res # 0 THEN Tag("C01", EqPost(S0.nd, A.nd, e)) ELSE {}) \cup
             (IF "node of another flag in the result" \in msgs THEN {<<"C17", "node of another flag in the result">>} ELSE {})
      s1 == [S0 EXCEPT !.nd = A.nd, !.mg = A.mg]
      s2 == [s1 EXCEPT !.hs = PutH(s1, e)]
      s3 == IF e.op = "read" THEN [s2 EXCEPT !.rd = @ \cup {<<e.res, e.f>>}] ELSE s2
  IN Res(s3, A.f \cup own)

StepSamp(e) ==
  LET A == Absorb(st, e)
      ok == \A i \in (Rng(e.a) \cup Rng(e.ress)) \ {0} : A.nd[i].ok
      msgs == IF ok THEN TLCEval(SampPost(st.cx, A.nd, e.a, e.ress, Nums(e.d), e.used, e.f)) ELSE {}
      hs2 == FoldLeft(LAMBDA h, j : (e.hs[j] :> e.ress[j]) @@ h, st.hs, [j \in 1..Min({Len(e.hs), Len(e.ress)}) |-> j])
  IN Res([st EXCEPT !.nd = A.nd, !.mg = A.mg, !.hs = hs2], A.f \cup Tag("C11", msgs))

StepGc(e) ==
  LET A == Absorb(st, e)
      K == Collect(A.nd, A.mg, e.m, Rng(e.a))
  IN Res([st EXCEPT !.nd = K.nd, !.mg = K.mg, !.hs = DropH(st, e.drop), !.gcd = TRUE],
         A.f \cup {<<"C02", x[2]>> : x \in A.f})

\* only nodes of the given flags stay
StepGcf(e) ==
  LET A == Absorb(st, e)
      gone == {i \in 1..Len(A.nd) : A.nd[i].m = e.m /\ A.nd[i].live /\ A.nd[i].f \notin Rng(e.fs)}
  IN Res([st EXCEPT !.nd = [i \in 1..Len(A.nd) |-> IF i \in gone THEN [A.nd[i] EXCEPT !.live = FALSE] ELSE A.nd[i]],
                    !.mg = [A.mg EXCEPT ![e.m].dead = @ \cup {A.nd[i].x : i \in gone}],
                    !.hs = DropH(st, e.drop), !.gcd = TRUE],
         A.f \cup {<<"C02", x[2]>> : x \in A.f})

StepSnap(e) ==
  LET A == Absorb(st, e)
      seen == {<<e.hs[j][1], e.hs[j][2]>> : j \in {x \in 1..Len(e.hs) : e.hs[x][2] # 0}}
      known == {<<h, st.hs[h]>> : h \in {x \in DOMAIN st.hs : st.hs[x] # 0}}
  IN Res([st EXCEPT !.nd = A.nd, !.mg = A.mg],
         A.f \cup Tag("C17",
           Chk(seen = known, "a handle changed its node") \cup
           Chk(\A j \in 1..Len(e.ms) : Rows5(e.ms[j].tab) = Rows5(st.mg[e.ms[j].m].vt.tab), "the vtree of a manager was altered") \cup
           Chk(\A j \in 1..Len(e.vs) : e.vs[j].tab = st.vt[e.vs[j].v], "a vtree was altered")))

\* queries on node e.a
StepQuery(e) ==
  LET cx == st.cx nd == st.nd n == nd[e.a] vt == st.mg[n.m].vt
      msgs ==
        CASE e.op = "evals" ->
               UNION {EvalPost(cx, vt, nd, e.a, e.q[j], NLog(e.r[j])) \cup EvalPost(cx, vt, nd, e.a, e.q[j], NLog(e.r2[j])) : j \in 1..Len(e.q)}
          [] e.op = "cons" ->
               Chk(\A j \in 1..Len(e.q) : LET v == IF ConsVal(cx, vt, nd, e.a, e.q[j]) THEN 1 ELSE 0 IN \A k \in 1..3 : e.r[j][k] = v,
                   "wrong consistency answer")
          [] e.op = "consn" ->
               \* the first n variables are the evidence
               LET T == Rng(e.t)
                   X == {x \in VarsAt(vt, n.v) : x <= e.n}
                   v == IF cx.exh THEN MatchEv(cx, [x \in X |-> x \in T]) \cap n.sup # {} ELSE ConsistentVal(nd, e.a, [x \in X |-> x \in T])
               IN Chk((e.r = 1) = v, "wrong consistency answer")
          [] e.op = "act" ->
               LET T == Rng(e.t) IN
               Chk(Rng(e.on) = {i \in Reach(nd, {e.a}) :
                     IF cx.exh THEN IdxOf(cx, T) \in nd[i].sup ELSE ConsistentVal(nd, i, [x \in VarsAt(vt, n.v) |-> x \in T])},
                   "activation flags differ from the support")
          [] e.op = "mpe" -> MpePost(cx, vt, nd, e.a, Rng(e.t), NLog(e.r)) \cup MpePost(cx, vt, nd, e.a, Rng(e.t2), NLog(e.r2))
          [] e.op = "mar" ->
               Chk(Cardinality({e.r[j].x : j \in 1..Len(e.r)}) = Len(e.r), "a variable is listed twice") \cup
               MarPost(cx, vt, nd, e.a, [x \in {e.r[j].x : j \in 1..Len(e.r)} |->
                   LET j == CHOOSE j \in 1..Len(e.r) : e.r[j].x = x IN <<NLog(e.r[j].f), NLog(e.r[j].t)>>])
          [] e.op = "count" -> Chk(e.r = CountOf(cx, vt, nd, e.a), "wrong model count")
          [] e.op = "size" -> Chk(e.r = ToString(SizeOf(nd, Reach(nd, {e.a}))), "wrong size")
          [] e.op = "tosdd" ->
               Chk(\A j \in 1..Len(e.q) :
                     (e.r[j] = 1) = (IF cx.exh THEN IdxOf(cx, Rng(e.q[j])) \in n.sup
                                     ELSE ConsistentVal(nd, e.a, [x \in VarsAt(vt, n.v) |-> x \in Rng(e.q[j])])),
                   "the Boolean function differs from the support")
          [] e.op = "dsgrid" ->
               Chk(e.deep = 0, "a draw needs more random numbers than alternatives to choose") \cup
               GridPost(cx, vt, nd, e.a, e.g, {[t |-> Rng(e.r[j].t), d |-> e.r[j].d, c |-> e.r[j].c] : j \in 1..Len(e.r)})
          [] e.op = "ds" ->
               LET T == Rng(e.t) pre == Rng(e.pre) X == VarsAt(vt, n.v) IN
               Chk(pre \subseteq T, "clears a variable") \cup
               Chk((T \ pre) \subseteq X, "sets a variable outside the structure") \cup
               Chk(Rng(e.t2) = T, "depends on the range of the generator") \cup
               Chk(pre \cap X = {} => (IF cx.exh THEN IdxOf(cx, T \ pre) \in n.sup ELSE ConsistentVal(nd, e.a, [x \in X |-> x \in T])),
                   "an unsupported assignment is drawn") \cup
               Chk(pre \cap X = {} /\ cx.exh /\ n.ln /\ IdxOf(cx, T \ pre) \in n.sup => ~NEq(n.den[IdxOf(cx, T \ pre)], NZero),
                   "an assignment of probability zero is drawn")
          [] e.op = "dsrng" ->
               LET N == FoldLeft(LAMBDA a, j : a + e.r[j].c, 0, [j \in 1..Len(e.r) |-> j])
                   freq(i) == FoldLeft(LAMBDA a, j : a + (IF Rng(e.r[j].t) = cx.P[i] THEN e.r[j].c ELSE 0), 0, [j \in 1..Len(e.r) |-> j])
                   \* |f - N p| <= 6 sqrt(N p (1 - p)) + 6
                   close(i) == LET pr == DExp(n.den[i])
                                   np == DMul(DOfInt(N), pr)
                                   sd == DSqrt(DMul(np, DAbs(DSub(DOfInt(1), pr))))
                               IN ~DLess(DAdd(DMul(DOfInt(6), sd), DOfInt(6)), DAbs(DSub(DOfInt(freq(i)), np)))
               IN Chk(e.same = 1, "depends on more than the random numbers") \cup
                  Chk(e.inrange = 1 /\ e.mm = 1, "generator leaves its range") \cup
                  Chk(\A j \in 1..Len(e.r) : \E i \in n.sup : cx.P[i] = Rng(e.r[j].t), "an unsupported assignment is drawn") \cup
                  Chk(\A i \in n.sup \cap Repr(cx, VarsAt(vt, n.v)) : close(i), "frequencies differ from the distribution")
  IN Res(st, IF n.ok THEN Tag(Owner(e.op), TLCEval(msgs)) ELSE {})

StepSer(e) ==
  LET ok == \A i \in Rng(e.a) : st.nd[i].ok
      R == Reach(st.nd, Rng(e.a))
  IN Res(st, IF ~ok THEN {} ELSE Tag("C16",
       IF ~(Rng(e.o) \subseteq 1..Len(st.nd)) \/ ~(Rng(e.o2) \subseteq 1..Len(st.nd)) THEN {"lists an unknown node"}
       ELSE SerPost(st.nd, e.a, e.o) \cup (IF Len(e.a) = 1 THEN SerPost(st.nd, e.a, e.o2) ELSE {}) \cup
            Chk(Rng(e.cov) = R /\ Len(e.cov) = Cardinality(R) /\ e.bad = 0, "covered nodes differ from the reachable ones")))

\* parameters: the registers hold the observed logarithms
StepPar(e) ==
  LET r == NLog(e.r)
      want == CASE e.o \in {"setd", "setl"} -> NLog(e.x)
                [] e.o = "zero" -> NZero
                [] e.o = "add" -> NAdd(st.R[e.a], st.R[e.b])
                [] e.o = "mul" -> NMul(st.R[e.a], st.R[e.b])
                [] e.o = "div" -> NDiv(st.R[e.a], st.R[e.b])
      R2 == (e.d :> r) @@ st.R
      cmp(q) ==
        LET a == r b == R2[q[1]]
            apart == ~NIsNan(a) /\ ~NIsNan(b) /\ ~NNear(a, b, 2100) IN
        /\ q[2] + q[3] = 1
        /\ q[2] + q[4] + q[5] = 1
        /\ q[6] = q[2] /\ q[7] = q[5] /\ q[8] = q[4]
        /\ (q[2] = 1 => q[9] = 1)
        /\ (NEq(a, b) => q[2] = 1)
        /\ (apart => q[2] = 0)
        /\ (q[4] = 1 => NLess(a, b)) /\ (q[5] = 1 => NLess(b, a))
  IN Res([st EXCEPT !.R = R2],
         Tag("C18", Chk(~NIsNan(r) /\ NNear(r, want, 0), "wrong value") \cup
                    Chk(\A j \in 1..Len(e.c) : cmp(e.c[j]), "comparison disagrees with the values")))

\* datasets
ObsMs(e) == [t \in {Rng(e.data[j].t) : j \in 1..Len(e.data)} |->
               e.data[CHOOSE j \in 1..Len(e.data) : Rng(e.data[j].t) = t].c]
DataCheck(e, want) ==
  Chk(ObsMs(e) = want.ms, "records differ") \cup
  Chk(e.n = ToString(MsSize(want.ms)), "record count differs") \cup
  Chk(e.vs = ToString(want.vs), "variable count differs") \cup
  Chk(e.ent = "" \/ (DOMAIN want.ms # {} /\ DNear(DVal(e.ent), Entropy(want.ms), 20)), "entropy differs")
StepData(e) ==
  LET put(want) == Res([st EXCEPT !.ds = (e.d :> want) @@ @], Tag("C19", DataCheck(e, want))) IN
  CASE e.op = "dnew" -> put([ms |-> MsEmpty, vs |-> 0])
    [] e.op = "csv" -> put(CsvData(e.text))
    [] e.op = "csvw" ->
         LET cur == st.ds[e.d] back == CsvData(e.text) IN
         Res(st, Tag("C19", DataCheck(e, cur) \cup
                  (IF cur.vs = 0 \/ \E t \in DOMAIN cur.ms : ~(t \subseteq 1..cur.vs) THEN {}
                   ELSE Chk(back.ms = cur.ms, "written records differ") \cup
                        Chk(DOMAIN cur.ms = {} \/ back.vs = cur.vs, "written number of columns differs"))))
    [] e.op = "dadd" -> put([ms |-> MsAdd(st.ds[e.d].ms, Rng(e.t)), vs |-> st.ds[e.d].vs])
    [] e.op = "dvar" -> put([ms |-> st.ds[e.d].ms, vs |-> e.x])
    [] e.op = "json" -> IF JsonOK(e.doc) THEN (IF e.null = 1 THEN Res(st, {<<"C19", "document refused">>}) ELSE put(JsonData(e.doc)))
                        ELSE Res(st, Tag("C19", Chk(e.null = 1, "incomplete document accepted")))
    [] e.op = "csvp" ->
         LET rows == CsvRows(e.dl, e.text) IN
         Res(st, Tag("C19", IF e.hdr = 1
              THEN Chk(Len(rows) > 0 => e.head = rows[1], "header differs") \cup Chk(e.rows = (IF Len(rows) > 0 THEN Tail(rows) ELSE <<>>), "rows differ")
              ELSE Chk(e.rows = rows, "rows differ")))

SeqNear(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : NNear(a[j], b[j], 0)
StepNet(e) ==
  CASE e.op = "uai" ->
         LET net == UaiNet(e.text) o == e.net IN
         Res([st EXCEPT !.un = (e.u :> net) @@ @],
             Tag("C20",
               Chk(o.ty = net.ty, "wrong kind of network") \cup
               Chk(o.nv = net.nv, "wrong number of variables") \cup
               Chk(o.nf = net.nf /\ Len(o.sc) = net.nf /\ Len(o.tb) = net.nf, "wrong number of factors") \cup
               Chk(o.sc = net.sc, "wrong scopes") \cup
               Chk(Len(o.tb) = Len(net.tb) /\ \A j \in 1..Len(net.tb) : SeqNear(Nums(o.tb[j]), net.tb[j]), "wrong table entries")))
    [] e.op = "pgm" -> Res([st EXCEPT !.pg = (e.g :> UaiNet(e.text)) @@ @], {})
    [] e.op = "pgmv" -> Res(IF TabWF(e.tab) THEN [st EXCEPT !.mg = (e.m :> MgrRec(e)) @@ @] ELSE st,
                            Tag("C21", TabCheck(e, ShapeOfRpn(e.rpn))))
    [] OTHER ->
         LET net == IF e.op = "pgmm" THEN st.pg[e.g] ELSE st.un[e.u]
             wf == TabWF(e.tab)
             vt == MkVt(e.tab)
         IN Res(IF e.op = "pgmm" /\ wf THEN [st EXCEPT !.mg = (e.m :> MgrRec(e)) @@ @]
                ELSE IF e.op = "vgen" THEN [st EXCEPT !.vt = (e.v :> e.tab) @@ @] ELSE st,
                Tag("C22", IF ~wf THEN {"not a well-formed vtree"}
                           ELSE Chk(AllVars(vt) = 1..net.nv, "leaves are not exactly the variables of the network") \cup
                                (IF AllVars(vt) # 1..net.nv THEN {}
                                 ELSE Chk(\A j \in 1..net.nf : Suitable(vt, Rng(net.sc[j])), "a factor cannot be placed on the vtree"))))

StepWrite(e) ==
  Res([st EXCEPT !.fl = (e.file :> [a |-> e.a]) @@ @], Tag("C13", WritePost(st, e)))

\* ------------------------------------------------------------------ command line tools
\* printed logarithms carry six digits
CliNear(a, b, z, k) ==
  \/ NEq(a, b)
  \/ DLess(DAbs(DSub(a, b)), DAdd(DMul(DVal("6e-6"), DAdd(DOfInt(1), DAbs(z))), DMul(DVal("1e-10"), DOfInt(k))))
CliInf(e) ==
  LET cx == st.cx vt == st.mg[e.m].vt
      F == PsddFileNodes(cx, vt, e.text)
      r == F[Len(F)]
      M == IF e.ev = 1 THEN CnfModels(cx, CnfClauses(e.cnf)) ELSE cx.all
      o == [ rc |-> e.rc, unsat |-> e.unsat = 1, hasmpe |-> e.hasmpe = 1, mpe |-> e.mpe, haspr |-> e.haspr = 1, pr |-> NLog(e.pr),
             hasmar |-> e.hasmar = 1, mar |-> [j \in 1..Len(e.mar) |-> [x |-> e.mar[j].x, f |-> NLog(e.mar[j].f), t |-> NLog(e.mar[j].t)]] ]
      near(a, b) == CliNear(a, b, b, OpTol(cx))
  IN IF ~PsddFileWF(vt, e.text) \/ ~r.ok THEN {}
     ELSE CliPost(cx, vt, r, e.ev = 1, M, e.qm = 1, e.qr = 1, o, near)
CliUai(e) ==
  LET cx == st.cx net == UaiNet(e.text) vt == MkVt(e.tab) z == NLog(e.z) IN
  IF e.rc # 0 THEN {"the tool fails"}
  ELSE IF ~TabWF(e.tab) THEN {"no well-formed vtree is written"}
  ELSE Chk(AllVars(vt) = 1..net.nv, "leaves are not exactly the variables of the network") \cup
       Chk(e.meth = "0" => RootShape(e.tab) = ShapeOfRpn(e.rpn), "another vtree than the given one") \cup
       (IF ~PsddFileWF(vt, e.ptext) THEN {"file is not well formed"}
        ELSE LET F == PsddFileNodes(cx, vt, e.ptext) r == F[Len(F)] IN
             IF ~r.ok THEN {"file describes an ill-formed structure"}
             ELSE Chk(r.v = vt.root, "the structure is not over the whole vtree") \cup
                  Chk(e.size = Len(F), "printed size differs from the number of nodes") \cup
                  LET V == TLCEval([i \in cx.all |-> NetVal(net, cx.P[i])]) IN
                  Chk(r.sup = {i \in cx.all : V[i] # NZero}, "support is not that of the product of the factors") \cup
                  Chk(\A i \in r.sup : CliNear(NMul(r.den[i], z), V[i], z, FileTol(cx)), "weight times constant is not the product of the factors"))

\* a call that did not return
StepCrash(e) ==
  Res(st, {<<Owner(e.at), "the call does not return">>} \cup
          (IF Case.prof \in {"C01", "C02", "C17"} THEN {<<Case.prof, "the call does not return">>} ELSE {}))

Step(e) ==
  CASE e.op \in {"vtree", "utab", "mgr", "mgrmap", "mgrfree", "vcopy", "vmap", "vproj", "vsub", "vvars"} -> StepVtree(e)
    [] IsNodeOp(e.op) -> StepNode(e)
    [] e.op = "samp" -> StepSamp(e)
    [] e.op = "gc" -> StepGc(e)
    [] e.op = "gcf" -> StepGcf(e)
    [] e.op = "snap" -> StepSnap(e)
    [] e.op \in {"evals", "cons", "consn", "act", "mpe", "mar", "count", "size", "tosdd", "dsgrid", "ds", "dsrng"} -> StepQuery(e)
    [] e.op = "ser" -> StepSer(e)
    [] e.op = "par" -> StepPar(e)
    [] e.op \in {"dnew", "csv", "csvw", "dadd", "dvar", "json", "csvp"} -> StepData(e)
    [] e.op \in {"uai", "pgm", "pgmv", "pgmm", "vgen"} -> StepNet(e)
    [] e.op = "write" -> StepWrite(e)
    [] e.op = "cliinf" -> Res(st, Tag("C23", TLCEval(CliInf(e))))
    [] e.op = "clibench" ->
         Res(st, IF ~PsddFileWF(st.mg[e.m].vt, e.text) THEN {}
                 ELSE Tag("C23", Chk(e.rc = 0, "the tool fails") \cup
                      Chk(e.size = Len(PsddFileNodes(st.cx, st.mg[e.m].vt, e.text)), "printed size differs from the number of nodes")))
    [] e.op = "cliuai" -> Res(st, Tag("C23", TLCEval(CliUai(e))))
    [] e.op = "crash" -> StepCrash(e)
    [] e.op = "skip" -> Res(st, {})

\* what is asked by an event (to recognise the same question later)
Sig(e) ==
  CASE e.op \in {"evals", "cons", "tosdd"} -> <<e.op, ToString(<<e.a, e.q>>)>>
    [] e.op \in {"mpe", "mar", "count", "size"} -> <<e.op, ToString(e.a)>>
    [] e.op = "mul" -> <<e.op, ToString(<<e.a, e.b, e.f>>)>>
    [] e.op = "learn" -> <<e.op, ToString(<<e.a, e.rows, e.al, e.f>>)>>
    [] OTHER -> <<>>

\* broken promises of an event, with the cross-cutting properties added:
\* an answer that was right before is disturbed (C17); after a collection in a
\* so far faultless case everything must still work (C02)
Extra(e, f) ==
  IF f = {} THEN {}
  ELSE (IF Sig(e) # <<>> /\ Sig(e) \in st.okq THEN {<<"C17", "a repeated request is answered differently">>} ELSE {}) \cup
       (IF Case.prof = "C02" /\ st.gcd /\ ~st.bad THEN {<<"C02", "after a collection: " \o x[2]>> : x \in f} ELSE {})

Report(f) ==
  \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o Case.id \o "|" \o ToString(l) \o "|" \o Ev.op \o "|" \o x[2])

Next ==
  /\ l <= Len(Case.ev)
  /\ LET r == Step(Ev)
         f == TLCEval(r.f)
         all == f \cup Extra(Ev, f)
     IN /\ Report(all)
        /\ st' = [r.st EXCEPT !.okq = IF f = {} /\ Sig(Ev) # <<>> THEN @ \cup {Sig(Ev)} ELSE @,
                              !.bad = @ \/ f # {}]
  /\ l' = l + 1
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
============================================================================
