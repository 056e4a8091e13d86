------------------------------ MODULE Federation ------------------------------
(* All behaviours of small federations under the rules of FedCore: an event is   *)
(* possible iff it breaks no rule (its <Event>Bad set is empty), and FedTrace    *)
(* judges the real library with those same sets.  What is checked here is that   *)
(* the rules together give what a user relies on - the properties below are      *)
(* stated without the operators the rules are made of - and that they never      *)
(* leave a federation with nothing it may do (no deadlock): an implementation    *)
(* that follows them always finishes.                                            *)
EXTENDS FedCore, Federations

CONSTANTS H,        \* the last time a federate asks for, except MaxT
          NPub,     \* how often a federate may publish or send, in all
          NIter     \* how often it may ask to iterate, in all

VARIABLES c, s, n, it,
          last      \* what the latest step did: checked against the properties
vars == <<c, s, n, it, last>>
view == <<c, s, n, it>>
None == [k |-> "none"]

Free(f) == InExec(s, f) /\ ~s.rq[f].on
Init == /\ c \in Family
        /\ s = StInit(c)
        /\ n = [f \in c.feds |-> 0]
        /\ it = [f \in c.feds |-> 0]
        /\ last = None

Step(b, st, ev) == b = {} /\ s' = st /\ last' = ev /\ c' = c
Quiet == UNCHANGED <<n, it>>

InitCall(f) == s.ph[f] = "start" /\ Step(InitCallBad(c, s, f), InitCallDo(c, s, f), None) /\ Quiet
InitRet(f) == s.ph[f] = "initreq" /\ Step(InitRetBad(c, s, f), InitRetDo(c, s, f), None) /\ Quiet
ExecCall(f, k) ==
  /\ s.ph[f] = "init"
  /\ IF k = 0 THEN UNCHANGED it ELSE it[f] < NIter /\ it' = [it EXCEPT ![f] = @ + 1]
  /\ Step(ExecCallBad(c, s, f), ExecCallDo(c, s, f, k), None) /\ UNCHANGED n

(* ---- what a federate reads once it is granted a time ------------------------- *)
ReadOpts(st, i) == UNION {{[v |-> v, u |-> r.u, lt |-> r.lt] : v \in CurVals(c, st, i, r.v)} : r \in st.cons[i]}
DrainOpts(st, e) ==
  LET f == c.eps[e].f
      can == {m \in st.mq[e] : Visible(st, f, m.t)}
      must == {m \in can : ~m.opt /\ Required(c, st, f, m.t)}
  IN {must \cup x : x \in SUBSET (can \ must)}
Before(a, b) == \/ a.t < b.t
                \/ a.t = b.t /\ (a.rank < b.rank \/ (a.rank = b.rank /\ a.n < b.n))
RECURSIVE InOrder(_)
InOrder(D) == IF D = {} THEN <<>>
              ELSE LET m == CHOOSE x \in D : \A y \in D : y = x \/ Before(x, y)
                   IN <<m>> \o InOrder(D \ {m})
Pick(S, Opt(_)) == {g \in [S -> UNION {Opt(x) : x \in S}] : \A x \in S : g[x] \in Opt(x)}
RECURSIVE AllReads(_, _, _), AllDrains(_, _, _)
AllReads(st, is, r) ==
  IF is = {} THEN st
  ELSE LET i == CHOOSE x \in is : TRUE IN AllReads(ReadDo(c, st, i, r[i].v, r[i].u, r[i].lt), is \ {i}, r)
AllDrains(st, es, d) ==
  IF es = {} THEN st
  ELSE LET e == CHOOSE x \in es : TRUE IN AllDrains(DrainDo(c, st, e, InOrder(d[e])), es \ {e}, d)
See2(f, st, ev) ==
  \E r \in Pick(InsOf(c, f), LAMBDA i : ReadOpts(st, i)), d \in Pick(EpsOf(c, f), LAMBDA e : DrainOpts(st, e)) :
    /\ WakeBad(c, st, f, \E i \in InsOf(c, f) : r[i].u, \E e \in EpsOf(c, f) : d[e] # {}) = {}
    /\ \A i \in InsOf(c, f) : ReadBad(c, st, i, r[i].v, r[i].u, r[i].lt, FALSE) = {}
    /\ \A e \in EpsOf(c, f) : DrainBad(c, st, e, InOrder(d[e]), Cardinality(d[e])) = {}
    /\ s' = AllDrains(AllReads(st, InsOf(c, f), r), EpsOf(c, f), d)
    /\ last' = [ev EXCEPT !.r = r, !.d = d]
    /\ c' = c

ExecRet(f, st) ==
  /\ s.ph[f] = "execreq"
  /\ ExecRetBad(c, s, f, st, 0) = {}
  /\ See2(f, ExecRetDo(c, s, f, st), [k |-> "grant", f |-> f, T |-> IF st = 0 THEN 0 ELSE InitT, st |-> st, r |-> 0, d |-> 0, m |-> 0])
  /\ Quiet
Request(f, t, k) ==
  /\ Free(f) /\ s.g[f] < H
  /\ IF k = 0 THEN UNCHANGED it ELSE it[f] < NIter /\ it' = [it EXCEPT ![f] = @ + 1]
  /\ Step(TimeReqBad(c, s, f), TimeReqDo(c, s, f, t, k), None) /\ UNCHANGED n
Candidates(f) ==
  LET r == s.rq[f]
      o == c.fc[f]
      E == EventChoices(c, s, f)
  IN IF r.it = 0 THEN {GrantTime(o, s.g[f], r.t, e) : e \in E}
     ELSE {s.g[f]} \cup {IterGrantTime(o, s.g[f], r.t, e) : e \in E}
Grant(f, st) ==
  /\ InExec(s, f) /\ s.rq[f].on
  /\ \E T \in Candidates(f) :
       /\ GrantBad(c, s, f, T, st) = {}
       /\ See2(f, GrantDo(c, s, f, T, st), [k |-> "grant", f |-> f, T |-> T, st |-> st, r |-> 0, d |-> 0, m |-> 0])
  /\ Quiet
Sending(f) == /\ n[f] < NPub
              /\ s.ph[f] = "init" \/ (Free(f) /\ s.g[f] <= H)
Publish(p, v) ==
  LET f == c.pubs[p].f IN
  /\ Sending(f)
  /\ n' = [n EXCEPT ![f] = @ + 1]
  /\ s' = PubDo(c, s, p, v)          \* that PubBad is empty is a theorem, not a guard
  /\ last' = [k |-> "pub", bad |-> PubBad(c, s, p, v)] /\ c' = c /\ UNCHANGED it
Send(e, d, t) ==
  LET f == c.eps[e].f IN
  /\ Sending(f) /\ ~c.eps[e].ro
  /\ n' = [n EXCEPT ![f] = @ + 1]
  /\ s' = SendDo(c, s, e, d, t, "x", <<>>)
  /\ last' = [k |-> "send", bad |-> SendBad(c, s, e, d, t, "x", <<>>)] /\ c' = c /\ UNCHANGED it
Finalize(f) == Free(f) /\ Step({}, FinDo(c, s, f), None) /\ Quiet
Over == (\A f \in c.feds : Done(s, f)) /\ UNCHANGED vars

Times(f) == {t \in 1..H : t > s.g[f]} \cup {MaxT}
Next ==
  \/ Over
  \/ \E f \in c.feds :
       \/ InitCall(f) \/ InitRet(f) \/ Finalize(f)
       \/ \E k \in {0, 1} : ExecCall(f, k)      \* (2: known finding F6)
       \/ \E k \in {0, 1, 2} : \E t \in Times(f) : (k > 0 => t < MaxT) /\ Request(f, t, k)
       \/ \E st \in {0, 2} : ExecRet(f, st) \/ Grant(f, st)
  \/ \E p \in Pubs(c) : \E v \in 1..2 : Publish(p, v)
  \/ \E e \in Eps(c) : \E d \in (IF c.eps[e].targeted THEN {""} ELSE {c.eps[x].key : x \in Eps(c) \ {e}}) :
       \E t \in {InitT, s.g[c.eps[e].f] + 1} : (t > InitT => Free(c.eps[e].f)) /\ Send(e, d, t)
Spec == Init /\ [][Next]_vars

(* ==== what a user relies on ===================================================== *)
(* nothing is ever published or sent into the past of someone already told a time   *)
NothingIntoThePast == last.k \in {"pub", "send"} => last.bad = {}
(* a granted time is never earlier than the one before, and passes the requested    *)
(* time only by the federate's own grid and delay                                   *)
TimeMoves ==
  [][\A f \in c.feds : s'.g[f] >= s.g[f] /\ (s'.g[f] > s.g[f] => ~s'.rq[f].on)]_vars
(* no federate is granted a time from which another could still be sent something   *)
(* into its past, whatever the others are doing just now                            *)
Safe(f, d) ==
  \/ Done(s, d)
  \/ s.g[f] <= 0
  \/ s.g[f] = MaxT
  \/ IF InExec(s, d) /\ ~s.rq[d].on
     THEN Add(s.g[d], c.fc[d].outd + c.fc[f].ind) >= s.g[f]
     ELSE TRUE
CausalOrder == \A f \in c.feds : \A d \in Deps(c, f) : ~Done(s, f) => Safe(f, d)
(* what is read at T was published for a time up to T, and nothing newer published  *)
(* for a time before T (less the input delay) is missing                            *)
Newest(p, x) == LET h == s.hist[p]
                    K == {k \in 1..Len(h) : h[k].s <= x}
                IN IF K = {} THEN 0 ELSE MaxS(K)
ReadsRight ==
  (last.k = "grant" /\ last.st = 0) =>
    \A i \in InsOf(c, last.f) :
      LET T == last.T
          d == c.fc[last.f].ind
          R == RangeOf(c.ins[i].src)
          lo(p) == IF T = MaxT THEN Len(s.hist[p]) ELSE Newest(p, T - d - 1)
          hi(p) == Newest(p, T)
          ok == UNION {{s.hist[p][k].v : k \in {x \in lo(p)..hi(p) : x > 0}} : p \in R}
                \cup (IF \A p \in R : lo(p) = 0 THEN {c.ins[i].def} ELSE {})
      IN last.r[i].v \in ok
(* every message is received once, at its time: none stamped before the granted     *)
(* time (less the input delay) is left behind, none from beyond it is shown         *)
MessagesRight ==
  (last.k = "grant" /\ last.st = 0) =>
    \A e \in EpsOf(c, last.f) :
      /\ \A m \in last.d[e] : m.t <= last.T /\ m \notin s.mq[e]
      /\ \A m \in s.mq[e] : m.opt \/ last.T = MaxT \/ m.t >= last.T - c.fc[last.f].ind
(* executing mode: nobody enters before everyone it hears from has asked to         *)
Together == \A f \in c.feds : InExec(s, f) => \A d \in Deps(c, f) : s.ph[d] \notin {"start", "initreq", "init"} \/ s.ne[d] > 0
===============================================================================
