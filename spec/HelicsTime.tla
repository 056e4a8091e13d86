------------------------------ MODULE HelicsTime ------------------------------
(* Time arithmetic every part of the specification shares.  Times are integers  *)
(* (one unit is the library's time resolution); MaxT stands for Time::maxVal(). *)
EXTENDS Integers, Sequences, FiniteSets

MaxT == 2000000000
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Add(a, b) == IF a >= MaxT \/ b >= MaxT THEN MaxT ELSE a + b
RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* A federate's timing options: c.period, c.offset, c.delta, c.ind (input       *)
(* delay), c.outd (output delay), c.unint, c.wait.                              *)

(* the first point of the federate's grid offset + k*period at or after x       *)
OnGrid(c, x) ==
  IF x >= MaxT THEN MaxT
  ELSE IF c.period <= 1 THEN x
  ELSE IF x <= c.offset THEN c.offset
  ELSE c.offset + (((x - c.offset) + c.period - 1) \div c.period) * c.period

(* the earliest time a federate standing at g may be granted next               *)
NextPossible(c, g) ==
  IF g >= MaxT THEN MaxT
  ELSE IF g = 0 /\ c.offset > c.delta THEN c.offset
  ELSE OnGrid(c, Add(g, Max2(c.delta, c.period)))

(* what a request for t at g means once it is clipped to what is possible       *)
Clip(c, g, t) == Max2(t, NextPossible(c, g))

(* Time granted for a request t made at g when the earliest unseen event has    *)
(* stamp e (MaxT: none): the earlier of the two, on the federate's grid.        *)
GrantTime(c, g, t, e) ==
  LET want == Clip(c, g, t)
      wake == IF c.unint \/ e >= MaxT THEN MaxT
              ELSE Add(Max2(e, NextPossible(c, g)), c.ind)
  IN OnGrid(c, Min2(want, wake))

(* for requests that allow an iteration at the present time                      *)
IterGrantTime(c, g, t, e) ==
  LET want == Max2(t, g)
      wake == IF e >= MaxT THEN MaxT ELSE Add(Max2(e, g), c.ind)
      x == IF c.unint THEN (IF e <= g THEN g ELSE want) ELSE Min2(want, wake)
  IN IF x <= g THEN g ELSE OnGrid(c, x)
===============================================================================
