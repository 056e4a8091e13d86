------------------------------- MODULE FedTrace -------------------------------
(* Checks recorded executions of the real library against FedCore.  Each initial *)
(* state is one trace; every step consumes one event.  The first event that      *)
(* breaks a rule ends that trace with a VERDICT line naming the rules.           *)
EXTENDS FedCore, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACES)
Raw == Input.traces
Rules == RangeOf(Input.rules)     \* the rules this run judges ("*": all of them)
Judged(b) == IF "*" \in Rules THEN b ELSE b \cap Rules
NTr == Len(Raw)
Cfg(k) == [Raw[k].cfg EXCEPT !.feds = RangeOf(@)]
Ev(k) == Raw[k].ev

VARIABLES tr, l, s, bad, stop
vars == <<tr, l, s, bad, stop>>

RECURSIVE ReadsBad(_, _, _), ReadsDo(_, _, _), DrainsBad(_, _, _), DrainsDo(_, _, _)
ReadsBad(c, st, q) ==
  IF q = <<>> THEN {}
  ELSE LET x == Head(q)
           b == ReadBad(c, st, x.id, x.v, x.u = 1, x.lt, x.u2 = 1)
       IN b \cup ReadsBad(c, st, Tail(q))
ReadsDo(c, st, q) ==
  IF q = <<>> THEN st ELSE ReadsDo(c, ReadDo(c, st, Head(q).id, Head(q).v, Head(q).u = 1, Head(q).lt), Tail(q))
DrainsBad(c, st, q) ==
  IF q = <<>> THEN {} ELSE DrainBad(c, st, Head(q).id, Head(q).m, Head(q).n) \cup DrainsBad(c, st, Tail(q))
DrainsDo(c, st, q) ==
  IF q = <<>> THEN st ELSE DrainsDo(c, DrainDo(c, st, Head(q).id, Head(q).m), Tail(q))

EventBad(c, st, e) ==
  CASE e.k = "initc" -> InitCallBad(c, st, e.f)
    [] e.k = "initr" -> InitRetBad(c, st, e.f)
    [] e.k = "execc" -> ExecCallBad(c, st, e.f)
    [] e.k = "execr" -> ExecRetBad(c, st, e.f, e.st, e.t)
    [] e.k = "req"   -> TimeReqBad(c, st, e.f)
    [] e.k = "grant" -> GrantBad(c, st, e.f, e.t, e.st)
    [] e.k = "pub"   -> PubBad(c, st, e.p, e.v)
    [] e.k = "send"  -> SendBad(c, st, e.e, e.d, e.t, e.p, e.mk)
    [] e.k = "read"  -> ReadBad(c, st, e.id, e.v, e.u = 1, e.lt, e.u2 = 1)
    [] e.k = "dump"  -> ReadsBad(c, st, e.ins) \cup DrainsBad(c, st, e.eps)
                        \cup (IF e.g # st.g[e.f] /\ ~(e.g < 0 /\ st.g[e.f] < 0) THEN {"read.time"} ELSE {})
                        \cup (IF e.full = 1 THEN WakeBad(c, st, e.f, \E k \in 1..Len(e.ins) : e.ins[k].u = 1, \E k \in 1..Len(e.eps) : e.eps[k].n > 0) ELSE {})
    [] e.k = "bad"   -> RangeOf(e.b)
    [] e.k = "end"   -> IF \E f \in c.feds : ~Done(st, f) THEN {"progress.unfinished"} ELSE {}
    [] OTHER -> {}
EventDo(c, st, e) ==
  CASE e.k = "initc" -> InitCallDo(c, st, e.f)
    [] e.k = "initr" -> InitRetDo(c, st, e.f)
    [] e.k = "execc" -> ExecCallDo(c, st, e.f, e.it)
    [] e.k = "execr" -> ExecRetDo(c, st, e.f, e.st)
    [] e.k = "req"   -> TimeReqDo(c, st, e.f, e.t, e.it)
    [] e.k = "grant" -> GrantDo(c, st, e.f, e.t, e.st)
    [] e.k = "pub"   -> PubDo(c, st, e.p, e.v)
    [] e.k = "send"  -> SendDo(c, st, e.e, e.d, e.t, e.p, e.mk)
    [] e.k = "read"  -> ReadDo(c, st, e.id, e.v, e.u = 1, e.lt)
    [] e.k = "dump"  -> DrainsDo(c, ReadsDo(c, st, e.ins), e.eps)
    [] e.k = "fin"   -> FinDo(c, st, e.f)
    [] e.k = "err"   -> ErrDo(c, st, e.f)
    [] e.k = "bar"   -> BarrierDo(c, st, e.t)
    [] OTHER -> st

Init == /\ tr \in 1..NTr
        /\ l = 1
        /\ s = StInit(Cfg(tr))
        /\ bad = {}
        /\ stop = FALSE
Next ==
  /\ ~stop
  /\ tr' = tr
  /\ IF l > Len(Ev(tr))
     THEN /\ PrintT(<<"OK", Raw[tr].id, l - 1>>)
          /\ stop' = TRUE
          /\ UNCHANGED <<l, s, bad>>
     ELSE LET c == Cfg(tr)
              e == Ev(tr)[l]
              b == Judged(EventBad(c, s, e))
          IN /\ bad' = b
             /\ l' = l + 1
             /\ stop' = (b # {})
             /\ IF b # {} THEN PrintT(<<"VERDICT", Raw[tr].id, l, b>>) ELSE TRUE
             /\ s' = IF b # {} THEN s ELSE EventDo(c, s, e)
Spec == Init /\ [][Next]_vars
===============================================================================
