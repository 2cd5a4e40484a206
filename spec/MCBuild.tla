------------------------------ MODULE MCBuild -------------------------------
(***************************************************************************)
(* All short histories of requests to one manager (and a second one that   *)
(* copies are made into): literals, tops, decisions over held nodes,       *)
(* all-true nodes, padding, copies and garbage collections, in any order.  *)
(* The invariants are the manager's promises: one live node per content,   *)
(* indices never shared, contents as requested, nothing in use is          *)
(* disturbed, everything else forgotten.                                   *)
(*                                                                         *)
(* With raw = 1 the requests go to a unique table directly: elements must   *)
(* already lie at the children of one vtree node and structures carry one  *)
(* flag; collections then also go by flags (GcfA).                         *)
(*                                                                         *)
(* Configuration: vt, raw, depth, lits, tops <<x, n, d, n', d'>>, flags, dws    *)
(* (weight pairs of two-element decisions), ops (enabled requests).        *)
(***************************************************************************)
EXTENDS Terms, Json, IOUtils

C == JsonDeserialize(IOEnv.CONF)
Op(o) == \E i \in 1..Len(C.ops) : C.ops[i] = o
SetOf(q) == {q[i] : i \in 1..Len(q)}

VARIABLES K, S, H, n, bad, hist, hash, last
vars == <<K, S, H, n, bad, hist, hash, last>>
VT == K.vt
W  == K.w
CX == K.cx
nd == S.nd

MkK == LET vt == MkVt(TabOf(ShapeOfRpn(C.vt)))
           xs == AllVars(vt)
           cx == MkCx(xs, SetToSeq(SUBSET xs), TRUE)
       IN [vt |-> vt, cx |-> cx, w |-> [cx |-> cx, vt |-> <<vt, vt>>]]
Init == /\ \E k \in {MkK} : K = k
        /\ S = EmptyStore({1, 2}) /\ H = {} /\ n = 0 /\ bad = {} /\ hist = <<>> /\ hash = 1 /\ last = <<>>

\* the request code yields node x.r in store x.S; msgs are its broken promises
Req(x, code, msgs) ==
  LET ex == \A i \in 1..Len(nd) : x.S.nd[i] = nd[i]
      cmd == <<x.r>> \o code
      hs == (hash * 31 + x.r * 7 + Len(code) + n + (IF code[1] \in {"lit", "top", "dec", "norm"} THEN code[3] ELSE 5)) % 10007
  IN /\ S' = x.S
     /\ H' = H \cup {x.r}
     /\ bad' = msgs \cup Chk(ex, "an existing node was altered")
     /\ hist' = Append(hist, cmd) /\ hash' = (IF hs < 0 THEN -hs ELSE hs) /\ n' = n + 1 /\ last' = cmd /\ UNCHANGED K

H1 == {i \in H : nd[i].m = 1}
LitA == Op("lit") /\ \E l \in SetOf(C.lits), f \in SetOf(C.flags) :
  LET x == Lit(W, S, 1, l, f) IN Req(x, <<"lit", f, l>>, LitPost(x.S.nd, x.r, l, f))
TopA == Op("top") /\ \E t \in SetOf(C.tops), f \in SetOf(C.flags) :
  LET u == NFrac(t[2], t[3]) v == NFrac(t[4], t[5]) x == Top(W, S, 1, t[1], f, u, v)
  IN Req(x, <<"top", f, t[1], u, v>>, TopPost(x.S.nd, x.r, t[1], f, <<u, v>>))
Raw == C.raw = 1
Apart(i, j) == /\ VarsAt(VT, nd[i].v) \cap VarsAt(VT, nd[j].v) = {} /\ nd[i].v < nd[j].v
               /\ Raw => LET v == LCA(VT, {nd[i].v, nd[j].v}) IN nd[i].v = LeftOf(VT, v) /\ nd[j].v = RightOf(VT, v)
OneFlag(I, f) == Raw => \A i \in I : nd[i].f = f
Dec1A == Op("dec1") /\ \E p \in H1, s \in H1, f \in SetOf(C.flags) :
  /\ Apart(p, s) /\ OneFlag({p, s}, f)
  /\ LET x == Dec(W, S, 1, f, <<p>>, <<s>>, <<NOne>>)
     IN Req(x, <<"dec", f, 1, p, s, NOne>>, DecPost(CX, VT, x.S.nd, x.r, <<p>>, <<s>>, <<NOne>>, f))
Dec2A == Op("dec2") /\ \E p \in H1, q \in H1 :
  /\ p # q /\ nd[p].v = nd[q].v /\ nd[p].sup \cap nd[q].sup = {}
  /\ \E s \in H1, t \in H1, f \in SetOf(C.flags), d \in SetOf(C.dws) :
       /\ Apart(p, s) /\ Apart(q, t) /\ nd[s].v = nd[t].v /\ OneFlag({p, q, s, t}, f)
       /\ LET w == <<NFrac(d[1], d[2]), NFrac(d[3], d[4])>>
              x == Dec(W, S, 1, f, <<p, q>>, <<s, t>>, w)
          IN Req(x, <<"dec", f, 2, p, s, w[1], q, t, w[2]>>, DecPost(CX, VT, x.S.nd, x.r, <<p, q>>, <<s, t>>, w, f))
TrueA == Op("true") /\ \E v \in VPos(VT), f \in SetOf(C.flags) :
  LET x == True(W, S, 1, v, f) IN Req(x, <<"true", f, v>>, TruePost(CX, x.S.nd, x.r, v, f))
NormA == Op("norm") /\ \E a \in H1, f \in SetOf(C.flags) :
  \E v \in {u \in VPos(VT) : Below(VT, nd[a].v, u)} :
    LET x == Pad(W, S, 1, v, a, f) IN Req(x, <<"norm", f, v, a>>, NormPost(CX, x.S.nd, a, x.r, v, f))
LoadA == Op("load") /\ \E a \in H, f \in SetOf(C.flags), m \in {1, 2} :
  LET x == Load(W, S, m, a, VT.root, f)
  IN Req(x, <<"load", f, m, a>>, LoadPost(CX, x.S.nd, a, x.r, VT.root, f))
\* collect: held nodes of manager 1 that are kept
GcA == Op("gc") /\ n < C.depth - 1 /\ \E k \in SUBSET H1 :
  LET G == Gc(S, 1, k)
      R == Reach(nd, k)
  IN /\ S' = G
     /\ H' = k \cup (H \ H1)
     /\ bad' = Chk(\A i \in 1..Len(nd) : (i \in R \/ nd[i].m = 2) => G.nd[i] = nd[i], "a retained node is altered") \cup
               Chk(\A i \in 1..Len(nd) : nd[i].m = 1 /\ i \notin R => ~G.nd[i].live, "an unreachable node is kept")
     /\ hist' = Append(hist, <<0, "gc", SetToSeq(k)>>) /\ hash' = (hash * 31 + 11 * Cardinality(k)) % 10007
     /\ n' = n + 1 /\ last' = <<0>> /\ UNCHANGED K

\* collect by flags: only nodes of the flags in k stay
GcfA == Op("gcf") /\ n < C.depth - 1 /\ \E k \in SUBSET SetOf(C.flags) :
  LET G == GcFlags(S, 1, k)
      kept == {i \in 1..Len(nd) : nd[i].m = 2 \/ nd[i].f \in k}
  IN /\ S' = G
     /\ H' = H \cap kept
     /\ bad' = Chk(\A i \in kept : G.nd[i] = nd[i], "a retained node is altered") \cup
               Chk(\A i \in 1..Len(nd) : i \notin kept => ~G.nd[i].live, "a node of a dropped flag is kept")
     /\ hist' = Append(hist, <<0, "gcf", SetToSeq(k)>>) /\ hash' = (hash * 31 + 13 * Cardinality(k)) % 10007
     /\ n' = n + 1 /\ last' = <<0>> /\ UNCHANGED K

Next ==
  /\ n < C.depth
  /\ LitA \/ TopA \/ Dec1A \/ Dec2A \/ TrueA \/ NormA \/ LoadA \/ GcA \/ GcfA
  /\ IF n' = C.depth /\ hash' % C.stride = C.rem % C.stride THEN PrintT("BEH|" \o ToString(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars

Good == bad = {}
\* one live node per content; elements count as a set
ContentOf(r) == <<r.m, r.v, r.k, r.f, r.l, IF r.k = "D" THEN {<<r.p[j], r.s[j], r.w[j]>> : j \in 1..Len(r.p)} ELSE {<<r.w>>}>>
OneNode == \A i, j \in 1..Len(nd) : i < j /\ nd[i].live /\ nd[j].live => ContentOf(nd[i]) # ContentOf(nd[j])
OneIndex == \A i, j \in 1..Len(nd) : i < j /\ nd[i].m = nd[j].m => nd[i].x # nd[j].x
Held == \A i \in H : nd[i].live
Closed == \A i \in 1..Len(nd) : nd[i].live => \A c \in Kids(nd[i]) : nd[c].live /\ nd[c].m = nd[i].m /\ NodeWF(VT, nd, nd[i])
FlagsKept == \A i \in 1..Len(nd) : nd[i].live /\ nd[i].m = 2 => nd[i].f \in SetOf(C.flags)
View == <<[i \in 1..Len(nd) |-> IF nd[i].live THEN ContentOf(nd[i]) ELSE <<>>], S.nx, H, n, bad, \E i \in 1..Len(hist) : hist[i][2] = "gcf">>
============================================================================
