----------------------------- MODULE Commands -----------------------------
(* Commands between federates, cores and brokers.  s.out: the commands on     *)
(* their way, in the order they were sent: from, to, text and mode.            *)
EXTENDS Integers, Sequences
CoInit(run) == [out |-> <<>>]
From(e) == CASE e.o = "cmd" -> e.f
             [] e.o = "ccmd" -> IF e.src = "" THEN e.core ELSE e.src
             [] e.o = "bcmd" -> e.broker
Mode(e) == IF e.mode = "ordered" THEN "ordered" ELSE "fast"
(* a plain command reaches its target; echo, notify and status requests are answered *)
Entry(e) == IF e.y = "plain" THEN [s |-> From(e), d |-> e.t, c |-> e.x, m |-> Mode(e), via |-> IF e.o = "cmd" THEN e.f ELSE IF e.o = "ccmd" THEN e.core ELSE e.broker]
            ELSE [s |-> e.xs, d |-> e.f, c |-> e.x, m |-> "reply", via |-> ""]
Hit(s, e) == {i \in 1..Len(s.out) : s.out[i].d = e.f /\ s.out[i].s = e.src /\ s.out[i].c = e.c}
(* a command is overtaken by none sent before it by the same source in the same mode *)
First(s, i) == LET o == s.out[i] IN
  o.m = "reply" \/ ~\E j \in 1..(i - 1) : s.out[j].d = o.d /\ s.out[j].via = o.via /\ s.out[j].m = o.m /\ s.out[j].s = o.s
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Got(e) == e.k = "r" /\ e.o \in {"getCmd", "waitCmd"} /\ "err" \notin DOMAIN e /\ ~(e.o = "getCmd" /\ e.c = "" /\ e.src = "")
CoDo(s, e) ==
  IF e.k = "c" THEN [s EXCEPT !.out = Append(@, Entry(e))]
  ELSE IF Got(e) /\ Hit(s, e) # {} THEN [s EXCEPT !.out = Drop(@, CHOOSE i \in Hit(s, e) : \A j \in Hit(s, e) : i <= j)]
  ELSE s
CoBad(s, e) ==
  IF e.k # "r" THEN {}
  ELSE IF "err" \in DOMAIN e THEN {"cmd.error"}
  ELSE IF Got(e) THEN
     IF Hit(s, e) = {} THEN {"cmd.unknown"}
     ELSE IF ~First(s, CHOOSE i \in Hit(s, e) : \A j \in Hit(s, e) : i <= j) THEN {"cmd.order"} ELSE {}
  ELSE {}
=============================================================================
