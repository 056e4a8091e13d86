------------------------------ MODULE Unresolved ------------------------------
(* The registry of connections that were asked for before one of their ends      *)
(* exists.  s.w: waiting interfaces, s.rc: reconnectable ones, s.ln: links by     *)
(* name where neither end is known; n numbers them, so that equal ones count.     *)
EXTENDS Integers, Sequences, FiniteSets
UInit(run) == [w |-> {}, rc |-> {}, ln |-> {}, n |-> 0]
Opt(f) == f % 2 = 1
Req(f) == (f \div 2) % 2 = 1
RangeQ(q) == {q[i] : i \in 1..Len(q)}
(* sequence q holds exactly the projections of set S, with multiplicity *)
BagEq(q, S, P(_)) ==
  \A x \in RangeQ(q) \cup {P(y) : y \in S} :
     Cardinality({i \in 1..Len(q) : q[i] = x}) = Cardinality({y \in S : P(y) = x})
Tgt(y) == [f |-> y.f, h |-> y.h, fl |-> y.fl]
Full(y) == [f |-> y.f, h |-> y.h, fl |-> y.fl, key |-> y.key, kd |-> y.kd]
LinkEnds(y) == [key |-> y.key, t |-> y.t, x |-> CASE y.kd = "d" -> "p" [] y.kd = "e" -> "e" [] OTHER -> "f",
                y |-> IF y.kd = "d" THEN "i" ELSE "e"]
LinkT(y) == y.t
Match(e, y) == (e.kd = "" \/ y.kd = e.kd) /\ (e.key = "" \/ y.key = e.key) /\ (e.fed = 0 \/ y.f = e.fed)
LinkKinds(kd) == CASE kd = "p" -> {"d"} [] kd = "e" -> {"e"} [] kd = "f" -> {"s", "t"} [] OTHER -> {}
UDo(s, e) ==
  CASE e.o \in {"add", "addR"} ->
         LET y == [n |-> s.n, kd |-> e.kd, key |-> e.key, f |-> e.h[1], h |-> e.h[2], fl |-> e.fl]
         IN IF e.o = "add" THEN [s EXCEPT !.w = @ \cup {y}, !.n = @ + 1] ELSE [s EXCEPT !.rc = @ \cup {y}, !.n = @ + 1]
    [] e.o = "link" -> [s EXCEPT !.ln = @ \cup {[n |-> s.n, kd |-> e.kd, key |-> e.key, t |-> e.t]}, !.n = @ + 1]
    [] e.o = "clear" -> [s EXCEPT !.w = {y \in @ : ~(y.kd = e.kd /\ y.key = e.key)},
                                  !.ln = {y \in @ : ~(y.kd \in LinkKinds(e.kd) /\ y.key = e.key)}]
    [] e.o = "clearFed" -> [s EXCEPT !.w = {y \in @ : y.f # e.fed}]
    [] e.o = "clearIf" -> [s EXCEPT !.w = {y \in @ : ~Match(e, y)}]
    [] OTHER -> s
At(S, kd, key) == {y \in S : y.kd = kd /\ y.key = key}
UBad(s, e) ==
  LET t == UDo(s, e)
      Ks == DOMAIN e.q
  IN (IF \E k \in Ks : ~(BagEq(e.q[k].p, At(t.w, "p", k), Tgt) /\ BagEq(e.q[k].i, At(t.w, "i", k), Tgt)
                         /\ BagEq(e.q[k].e, At(t.w, "e", k), Tgt) /\ BagEq(e.q[k].f, At(t.w, "f", k), Tgt)) THEN {"unres.waiting"} ELSE {})
     \cup (IF \E k \in Ks : ~(BagEq(e.q[k].rp, At(t.rc, "p", k), Tgt) /\ BagEq(e.q[k].ri, At(t.rc, "i", k), Tgt)
                         /\ BagEq(e.q[k].re, At(t.rc, "e", k), Tgt) /\ BagEq(e.q[k].rf, At(t.rc, "f", k), Tgt)) THEN {"unres.reconnect"} ELSE {})
     \cup (IF \E k \in Ks : ~(BagEq(e.q[k].ld, At(t.ln, "d", k), LinkT) /\ BagEq(e.q[k].le, At(t.ln, "e", k), LinkT)
                         /\ BagEq(e.q[k].ls, At(t.ln, "s", k), LinkT) /\ BagEq(e.q[k].lt, At(t.ln, "t", k), LinkT)) THEN {"unres.links"} ELSE {})
     \cup (IF (e.has = 1) # (t.w # {} \/ t.ln # {}) THEN {"unres.any"} ELSE {})
     \cup (IF (e.nonopt = 1) # (t.ln # {} \/ \E y \in t.w : ~Opt(y.fl)) THEN {"unres.nonoptional"} ELSE {})
     \cup (IF (e.req = 1) # (\E y \in t.w : Req(y.fl)) THEN {"unres.required"} ELSE {})
     \cup (IF ~BagEq(e.all, t.w, Full) THEN {"unres.any"} ELSE {})
     \cup (IF ~BagEq(e.no, {y \in t.w : ~Opt(y.fl)}, Full) THEN {"unres.nonoptional"} ELSE {})
     \cup (IF ~BagEq(e.rq, {y \in t.w : Req(y.fl)}, Full) THEN {"unres.required"} ELSE {})
     \cup (IF ~BagEq(e.lk, t.ln, LinkEnds) THEN {"unres.links"} ELSE {})
     \cup (IF e.o = "clearIf" /\ ~BagEq(e.calls, s.w, Full) THEN {"unres.visit"} ELSE {})
===============================================================================
