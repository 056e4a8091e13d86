------------------------------- MODULE Modes -------------------------------
(* The life cycle of a federate as its interface shows it: which calls are    *)
(* served in which mode, what mode and time they end in, and that the         *)
(* asynchronous pairs end as the plain call would.                             *)
(* The federates share the start of the initialization and nothing else, so   *)
(* every call has one outcome.  s[f]: mode m, current time t, pending request *)
(* (pt: time asked for, pi: iteration asked for), the call in progress and    *)
(* the callbacks seen during it.                                              *)
EXTENDS Integers, Sequences
START == 0  INITM == 1  EXEC == 2  FINAL == 3  ERR == 4
PINIT == 5  PEXEC == 6  PTIME == 7  PITER == 8  PFIN == 9  DONE == 10  PIINIT == 12
NEXT == 0  HALTED == 3  ITERATING == 2
FORCE == 1
TMAX == 2000000000
F0 == [m |-> START, t |-> -1, pt |-> 0, pi |-> 0, call |-> [o |-> "none"], cbs |-> <<>>, st0 |-> FALSE]
MoInit(run) == [f \in {run.feds[i] : i \in 1..Len(run.feds)} |-> F0]

It(c) == IF "iter" \in DOMAIN c THEN c.iter ELSE 0
(* outcomes: refused; or mode, time, result and pending request after it (any = nothing said about the result) *)
Refused == [ok |-> FALSE]
To(x, m, t, st) == [ok |-> TRUE, m |-> m, t |-> t, st |-> st, pt |-> x.pt, pi |-> x.pi, st0 |-> x.st0]
Same(x) == To(x, x.m, x.t, -1)
Grant(x, pt, pi) == IF pi = FORCE THEN x.t ELSE IF pt > x.t THEN pt ELSE x.t + 1
Final0(x, pi) == To(x, DONE, TMAX, IF pi = 0 THEN NEXT ELSE HALTED)
ResT(x, pt, pi) == IF pt = TMAX /\ pi # FORCE THEN Final0(x, pi) ELSE To(x, EXEC, Grant(x, pt, pi), IF pi = FORCE THEN ITERATING ELSE NEXT)
ResE(x, pi) == IF pi = FORCE THEN To(x, INITM, x.t, ITERATING) ELSE To(x, EXEC, 0, NEXT)
InInit(x) == To(x, INITM, x.t, -1)
Exec(x, c) ==
  CASE x.m \in {START, PINIT, INITM} -> ResE(x, It(c))
    [] x.m = PEXEC -> ResE(x, x.pi)
    [] x.m = EXEC -> To(x, EXEC, x.t, NEXT)
    [] x.m \in {PTIME, PITER} -> [ResT(x, x.pt, x.pi) EXCEPT !.st = IF @ = ITERATING THEN NEXT ELSE @]
    [] OTHER -> Refused
Final(x) == IF x.m = PIINIT THEN Refused ELSE IF x.m \in {FINAL, ERR} THEN Same(x) ELSE To(x, FINAL, -2, -1)
Complete(x) ==
  CASE x.m = PINIT -> InInit(x)
    [] x.m = PEXEC -> ResE(x, x.pi)
    [] x.m \in {PTIME, PITER} -> ResT(x, x.pt, x.pi)
    [] x.m = PFIN -> To(x, FINAL, -2, -1)
    [] OTHER -> Same(x)
Out(x, c) ==
  CASE c.o \in {"enterInit", "enterInitComplete"} -> IF x.m \in {START, PINIT, INITM} THEN InInit(x) ELSE Refused
    [] c.o = "enterInitAsync" -> IF x.m \in {START, PINIT} THEN To(x, PINIT, x.t, -1) ELSE IF x.m = INITM THEN Same(x) ELSE Refused
    [] c.o = "enterInitIter" -> IF x.m = START THEN Same(x) ELSE Refused
    [] c.o = "enterExec" -> Exec(x, c)
    [] c.o = "execAsync" ->
         IF x.m \in {START, PINIT, INITM} THEN [To(x, PEXEC, x.t, -1) EXCEPT !.pi = It(c), !.st0 = (x.m = START)]
         ELSE IF x.m \in {PEXEC, EXEC, PTIME, PITER} THEN Same(x) ELSE Refused
    [] c.o = "execComplete" -> Exec(x, [o |-> "enterExec"])
    [] c.o = "time" ->
         IF x.m = EXEC THEN ResT(x, c.t, It(c))
         ELSE IF x.m \in {FINAL, DONE} THEN To(x, x.m, x.t, IF It(c) = 0 THEN NEXT ELSE HALTED) ELSE Refused
    [] c.o = "timeAsync" ->
         IF x.m = EXEC THEN [To(x, IF It(c) = 0 THEN PTIME ELSE PITER, x.t, -1) EXCEPT !.pt = c.t, !.pi = It(c)] ELSE Refused
    [] c.o = "timeComplete" -> IF x.m = (IF It(c) = 0 THEN PTIME ELSE PITER) THEN ResT(x, x.pt, x.pi) ELSE Refused
    [] c.o \in {"finalize", "disconnect"} -> Final(x)
    [] c.o = "finalizeComplete" -> Final(x)
    [] c.o = "finalizeAsync" -> IF x.m \in {FINAL, ERR, PFIN} THEN Same(x) ELSE To(x, PFIN, -2, -1)
    [] c.o = "complete" -> Complete(x)
    [] c.o = "localError" -> To(x, ERR, -2, -1)
    [] c.o \in {"pub", "send"} -> IF x.m \in {INITM, EXEC} THEN Same(x) ELSE Refused
    [] c.o \in {"mode", "asyncDone"} -> Same(x)
    [] OTHER -> Same(x)

(* the callbacks of a mode change: an iterated initialization and the two entries are announced, *)
(* and the mode callback names the modes without their pending stages                            *)
Base(m) == CASE m = PINIT -> START [] m = PEXEC -> INITM [] m \in {PTIME, PITER} -> EXEC [] OTHER -> m
Cbs(x, kinds) == SelectSeq(x.cbs, LAMBDA e : e.cb \in kinds)
Count(x, c, it) == Len(SelectSeq(x.cbs, LAMBDA e : e.cb = c /\ (it = -1 \/ e.it = it)))
Pending == {PINIT, PEXEC, PTIME, PITER, PFIN, PIINIT}
CbBad(x, o, c) ==
  LET a == Base(x.m)
      skipped == x.st0 \/ (x.m = START /\ c.o = "execAsync")
      wantInit == IF a = START /\ o.m \in {INITM, EXEC} THEN 1 ELSE 0
      wantIter == IF o.m = INITM /\ o.st = ITERATING THEN 1 ELSE 0
      wantExec == IF a # EXEC /\ o.m = EXEC THEN 1 ELSE 0
      (* a time request announces the request, each new time is announced once, and a granted request once more *)
      asked == c.o \in {"time", "timeAsync"} /\ x.m = EXEC
      want == IF asked THEN <<x.t, c.t, IF It(c) = 0 THEN 0 ELSE 1>> ELSE <<>>
      reqs == Cbs(x, {"treq"})
      granted == (c.o = "time" /\ x.m = EXEC) \/ (x.m \in {PTIME, PITER} /\ o.m \in {EXEC, DONE})
      entered == Base(x.m) # EXEC /\ o.m = EXEC
      again == IF granted /\ (IF c.o = "time" THEN It(c) ELSE x.pi) = FORCE THEN 1 ELSE 0
      upds == Cbs(x, {"tupd"})
      rets == Cbs(x, {"tret"})
      last == IF x.cbs = <<>> THEN <<>> ELSE Cbs(x, {"mode"})
  IN IF c.o \in {"execAsync", "finalizeAsync", "finalize", "finalizeComplete"} THEN {} ELSE
     (IF (asked /\ (Len(reqs) # 1 \/ <<reqs[1].a, reqs[1].b, reqs[1].it>> # want)) \/ (~asked /\ reqs # <<>>) THEN {"callback.request"} ELSE {}) \cup
     (IF granted \/ entered THEN (IF Len(upds) # 1 \/ upds[1].a # o.t \/ upds[1].it # again THEN {"callback.time"} ELSE {})
      ELSE IF upds # <<>> THEN {"callback.time"} ELSE {}) \cup
     (IF o.m # DONE /\ (granted \/ entered) THEN (IF Len(rets) # 1 \/ rets[1].a # o.t \/ rets[1].it # again THEN {"callback.return"} ELSE {})
      ELSE IF o.m # DONE /\ rets # <<>> THEN {"callback.return"} ELSE {}) \cup
     (IF ~skipped /\ (Count(x, "init", 0) # wantInit \/ Count(x, "init", 1) # wantIter) THEN {"callback.init"} ELSE {}) \cup
     (IF Count(x, "exec", -1) # wantExec THEN {"callback.exec"} ELSE {}) \cup
     (IF o.m \notin Pending /\ a # o.m /\ x.m # PFIN /\ ~(last # <<>> /\ last[Len(last)].a = o.m) THEN {"callback.mode"} ELSE {}) \cup
     (IF (a = o.m \/ o.m \in Pending) /\ ~skipped /\ last # <<>> THEN {"callback.mode"} ELSE {})

MoDo(s, e) ==
  IF e.k = "cb" THEN [s EXCEPT ![e.f].cbs = Append(@, e)]
  ELSE IF e.k = "c" THEN [s EXCEPT ![e.f].call = e, ![e.f].cbs = <<>>]
  ELSE IF e.k = "r" THEN
     LET x == s[e.f]
         o == Out(x, x.call)
     IN IF ~o.ok THEN s
        ELSE [s EXCEPT ![e.f].m = o.m, ![e.f].t = e.g, ![e.f].pt = o.pt, ![e.f].pi = o.pi, ![e.f].st0 = o.st0]
  ELSE s
TimeBad(x, o, c, e) ==
  (IF o.m \in {EXEC, DONE} /\ e.g # o.t THEN {"mode.time"} ELSE {}) \cup
  (IF c.o \in {"time", "timeComplete"} THEN
     (IF o.st # e.st THEN {"mode.result"} ELSE {}) \cup
     (IF o.m = EXEC /\ e.t # o.t THEN {"mode.granted"} ELSE {}) \cup
     (IF o.m # EXEC /\ e.t # TMAX THEN {"mode.granted"} ELSE {})
   ELSE IF c.o \in {"enterExec", "execComplete"} /\ o.st # e.st THEN {"mode.result"} ELSE {})
MoBad(s, e) ==
  IF e.k # "r" THEN {}
  ELSE LET x == s[e.f]
           o == Out(x, x.call)
           err == "err" \in DOMAIN e
       IN IF ~o.ok THEN (IF ~err \/ e.err # "InvalidFunctionCall" THEN {"mode.served"} ELSE {}) \cup
                        (IF e.mode # x.m \/ (x.t # -1 /\ e.g # x.t) \/ x.cbs # <<>> THEN {"mode.changed"} ELSE {})
          ELSE IF err THEN {"mode.refused"}
          ELSE (IF e.mode # o.m THEN {"mode.mode"} ELSE {}) \cup TimeBad(x, o, x.call, e) \cup CbBad(x, o, x.call) \cup
               (IF x.call.o = "asyncDone" /\ x.m \notin Pending /\ e.v # 0 THEN {"mode.asyncDone"} ELSE {})
=============================================================================
