------------------------------- MODULE FedCore -------------------------------
(* The behaviour of a HELICS federation as its users can observe it: the        *)
(* lifecycle of federates, logical time, values, messages and their filters.    *)
(*                                                                              *)
(* The state is one record s; every transition of the system is an operator     *)
(* taking a configuration c, a state s and the event's arguments, split in two: *)
(*   <Event>Bad(c, s, args)  the names of the rules the event would break       *)
(*   <Event>Do(c, s, args)   the state after the event                          *)
(* Federation.tla explores all behaviours of small configurations (an action    *)
(* is enabled iff its <Event>Bad set is empty); FedTrace.tla replays what the   *)
(* real library did and reports the first event whose <Event>Bad set is not     *)
(* empty.  Both therefore share one definition of every rule.                   *)
(*                                                                              *)
(* A configuration c:                                                           *)
(*   c.feds   set of federate names                                             *)
(*   c.fc[f]  timing options of a federate (see HelicsTime)                     *)
(*   c.pubs[p] = [f, otc]          publications                                 *)
(*   c.ins[i]  = [f, src, ouc, noint, def]    inputs and their sources          *)
(*   c.eps[e]  = [f, key, rank, sf, df, targets, tgt, so, ro]       endpoints   *)
(*   c.flt[x]  = [kind, dt, str, to]          filters                           *)
(* pubs, ins, eps, flt are functions on sets of names.                          *)
EXTENDS HelicsTime, TLC

InitT == -MaxT          \* the stamp of anything sent before executing mode
NoReq == [on |-> FALSE, k |-> "none", t |-> 0, it |-> 0]

Pubs(c) == DOMAIN c.pubs
Ins(c)  == DOMAIN c.ins
Eps(c)  == DOMAIN c.eps
Flts(c) == DOMAIN c.flt
InsOf(c, f) == {i \in Ins(c) : c.ins[i].f = f}
EpsOf(c, f) == {e \in Eps(c) : c.eps[e].f = f}
SrcSet(c, i) == RangeOf(c.ins[i].src)

(* ---- who can influence whom: d -> f when f can receive data from d ---------- *)
ValueDeps(c, f) == {c.pubs[p].f : p \in UNION {SrcSet(c, i) : i \in InsOf(c, f)}}
CanSend(c, e, e2) ==
  /\ ~c.eps[e].ro /\ ~c.eps[e2].so
  /\ IF c.eps[e].targeted THEN e2 \in RangeOf(c.eps[e].tgt) ELSE TRUE
MsgDeps(c, f) == {c.eps[e].f : e \in {x \in Eps(c) : \E y \in EpsOf(c, f) : CanSend(c, x, y)}}
Deps(c, f) == (ValueDeps(c, f) \cup MsgDeps(c, f)) \ {f}
(* those whose data can wake f before the time it asked for *)
WakeDeps(c, f) ==
  ({c.pubs[p].f : p \in UNION {SrcSet(c, i) : i \in {x \in InsOf(c, f) : ~c.ins[x].noint}}}
     \cup MsgDeps(c, f)) \ {f}

(* ---- state ------------------------------------------------------------------ *)
ZeroCons(c, i) == [v |-> [p \in SrcSet(c, i) |-> 0], u |-> FALSE, lt |-> 0]
StInit(c) ==
  [ ph   |-> [f \in c.feds |-> "start"],
    g    |-> [f \in c.feds |-> InitT],
    rq   |-> [f \in c.feds |-> NoReq],
    ne   |-> [f \in c.feds |-> 0],
    hist |-> [p \in Pubs(c) |-> <<>>],
    cons |-> [i \in Ins(c) |-> {ZeroCons(c, i)}],
    mq   |-> [e \in Eps(c) |-> {}],
    vis  |-> [f \in c.feds |-> [m |-> "none", must |-> InitT, may |-> InitT, wake |-> FALSE]],
    mn   |-> 0,
    bar  |-> MaxT,
    halt |-> FALSE ]

InExec(s, f) == s.ph[f] = "exec"
Done(s, f)   == s.ph[f] \in {"fin", "err"}

(* ---- unseen data ------------------------------------------------------------ *)
(* item k of p counts as news for input i *)
Eff(c, s, i, p, k) ==
  \/ k = 1
  \/ ~c.ins[i].ouc
  \/ s.hist[p][k].v # s.hist[p][k-1].v
(* stamp of the earliest unseen news on input i given a consumption vector *)
FirstUnseen(c, s, i, vec) ==
  LET st == UNION {{s.hist[p][k].s : k \in {x \in (vec[p]+1)..Len(s.hist[p]) : Eff(c, s, i, p, x)}}
                     : p \in SrcSet(c, i)}
  IN IF st = {} THEN MaxT ELSE MinS(st)
MinPairs(A, B) == {Min2(a, b) : a \in A, b \in B}
RECURSIVE FoldIns(_, _, _, _)
FoldIns(c, s, is, acc) ==
  IF is = {} THEN acc
  ELSE LET i == CHOOSE x \in is : TRUE
       IN FoldIns(c, s, is \ {i}, MinPairs(acc, {FirstUnseen(c, s, i, r.v) : r \in s.cons[i]}))
MsgFirst(c, s, f) ==
  LET st == UNION {{m.t : m \in {x \in s.mq[e] : ~x.opt}} : e \in EpsOf(c, f)}
  IN IF st = {} THEN MaxT ELSE MinS(st)
OptTimes(c, s, f) == UNION {{m.t : m \in {x \in s.mq[e] : x.opt}} : e \in EpsOf(c, f)}
(* the possible values of "stamp of the earliest event f has not seen" *)
EventChoices(c, s, f) ==
  LET base == FoldIns(c, s, {i \in InsOf(c, f) : ~c.ins[i].noint}, {MsgFirst(c, s, f)})
  IN base \cup MinPairs(base, OptTimes(c, s, f) \cup {MaxT})

(* ---- the earliest time a federate could still send something ----------------- *)
OwnNext(c, s, f, e) ==
  LET r == s.rq[f] IN
  CASE r.it = 0 -> GrantTime(c.fc[f], s.g[f], r.t, e)
    [] r.it = 2 /\ e > s.g[f] -> IterGrantTime(c.fc[f], s.g[f], r.t, e)
    [] OTHER -> s.g[f]
EHi(c, s, f) == MaxS(EventChoices(c, s, f))
LB0(c, s, f) ==
  CASE Done(s, f) -> MaxT
    [] ~InExec(s, f) -> 0
    [] InExec(s, f) /\ ~s.rq[f].on -> s.g[f]
    [] OTHER -> OwnNext(c, s, f, EHi(c, s, f))
Relax(c, s, lb) ==
  [f \in c.feds |->
     IF InExec(s, f) /\ s.rq[f].on /\ s.rq[f].it # 1
     THEN LET ups == {Add(lb[d], c.fc[d].outd) : d \in WakeDeps(c, f)}
              e == IF ups = {} THEN MaxT ELSE MinS(ups)
          IN Min2(lb[f], OwnNext(c, s, f, Min2(e, EHi(c, s, f))))
     ELSE lb[f]]
RECURSIVE Iter(_, _, _, _)
Iter(c, s, lb, n) == IF n = 0 THEN lb ELSE Iter(c, s, Relax(c, s, lb), n - 1)
LB(c, s) == Iter(c, s, [f \in c.feds |-> LB0(c, s, f)], Cardinality(c.feds))
(* the same when f, which waits for this very grant, sends nothing *)
RECURSIVE IterX(_, _, _, _, _)
IterX(c, s, f, lb, n) ==
  IF n = 0 THEN lb ELSE IterX(c, s, f, [Relax(c, s, [lb EXCEPT ![f] = MaxT]) EXCEPT ![f] = MaxT], n - 1)
LBFor(c, s, f) == IterX(c, s, f, [d \in c.feds |-> LB0(c, s, d)], Cardinality(c.feds))

(* ---- lifecycle --------------------------------------------------------------- *)
InitCallBad(c, s, f) == IF s.ph[f] # "start" THEN {"life.initcall"} ELSE {}
InitCallDo(c, s, f) == [s EXCEPT !.ph[f] = "initreq"]
InitRetBad(c, s, f) ==
  (IF s.ph[f] # "initreq" THEN {"life.initret"} ELSE {})
  \cup (IF \E d \in c.feds : ~c.fc[d].late /\ s.ph[d] = "start" THEN {"init.barrier"} ELSE {})
InitRetDo(c, s, f) == [s EXCEPT !.ph[f] = "init"]

ExecCallBad(c, s, f) == IF s.ph[f] \notin {"init", "initreq", "start"} THEN {"life.execcall"} ELSE {}
ExecCallDo(c, s, f, it) ==
  [s EXCEPT !.ph[f] = "execreq", !.rq[f] = [on |-> TRUE, k |-> "exec", t |-> 0, it |-> it],
            !.ne[f] = @ + 1]

(* visible ranges of an input's source when its federate is granted T in mode m  *)
(*  upto: everything stamped before T;   incl: also what is stamped T if arrived  *)
(*  all:  everything stamped up to T must be there                                *)
CountLT(h, x) == Cardinality({k \in 1..Len(h) : h[k].s < x})
CountLE(h, x) == Cardinality({k \in 1..Len(h) : h[k].s <= x})
LoHi(c, s, i, p, m, T) ==
  LET h == s.hist[p]
      ind == c.fc[c.ins[i].f].ind
      sure == IF T >= MaxT THEN Len(h) ELSE IF ind > 0 THEN CountLT(h, T - ind) ELSE CountLT(h, T)
  IN CASE m = "upto" -> [lo |-> sure, hi |-> CountLT(h, T)]
       [] m = "all"  -> [lo |-> IF ind > 0 THEN sure ELSE CountLE(h, T), hi |-> CountLE(h, T)]
       [] OTHER      -> [lo |-> sure, hi |-> CountLE(h, T)]
NewCons(c, s, i, m, T) ==
  LET src == SrcSet(c, i)
      R == [p \in src |-> LoHi(c, s, i, p, m, T)]
      mx == IF src = {} THEN 0 ELSE MaxS({R[p].hi : p \in src} \cup UNION {{r.v[p] : p \in src} : r \in s.cons[i]})
      Vecs(r) == {v \in [src -> 0..mx] : \A p \in src : v[p] >= Max2(R[p].lo, r.v[p]) /\ v[p] <= Max2(R[p].hi, r.v[p])}
      News(a, b) == \E p \in src : /\ b[p] > a[p]
                                   /\ IF c.ins[i].ouc /\ a[p] > 0 THEN s.hist[p][b[p]].v # s.hist[p][a[p]].v
                                      ELSE \E k \in (a[p]+1)..b[p] : Eff(c, s, i, p, k)
  IN UNION {{ IF News(r.v, v) THEN [v |-> v, u |-> TRUE, lt |-> T] ELSE [v |-> v, u |-> r.u, lt |-> r.lt]
              : v \in Vecs(r)} : r \in s.cons[i]}
See(c, s, f, m, T) == [i \in Ins(c) |-> IF c.ins[i].f = f THEN NewCons(c, s, i, m, T) ELSE s.cons[i]]

ExecMode(c, f, it, st) ==
  CASE it = 1 -> "iter"
    [] it = 2 -> IF st = 0 THEN "upto" ELSE "iter"
    [] OTHER -> IF c.fc[f].wait THEN "all" ELSE "upto"
(* news for f published by d before d's own matching request for executing mode   *)
UnseenInit(c, s, f) ==
  \E i \in InsOf(c, f) : ~c.ins[i].noint /\ \A r \in s.cons[i] : FirstUnseen(c, s, i, r.v) < 0
(* d keeps f from entering executing mode: it has not asked to enter, or (f itself  *)
(* not iterating) it is going to iterate once more and may still publish            *)
ExecBlocks(c, s, f, d, st) ==
  /\ ~Done(s, d) /\ ~c.fc[d].late
  /\ \/ s.ne[d] = 0
     \/ /\ st = 0 /\ s.rq[f].it = 0
        /\ \/ s.ph[d] = "init"
           \/ s.ph[d] = "execreq" /\ s.rq[d].it = 1 /\ s.ne[d] < c.fc[d].maxit
ExecRetBad(c, s, f, st, T) ==
  LET r == s.rq[f] IN
  (IF s.ph[f] # "execreq" THEN {"life.execret"} ELSE {})
  \cup (IF st \notin {0, 2} THEN {"exec.result"} ELSE {})
  \cup (IF st = 0 /\ T # 0 THEN {"exec.time"} ELSE {})
  \cup (IF st = 2 /\ r.it = 0 THEN {"exec.iter-unasked"} ELSE {})
  \cup (IF st = 0 /\ r.it = 1 /\ s.ne[f] < c.fc[f].maxit THEN {"exec.force-ignored"} ELSE {})
  \cup (IF st = 0 /\ r.it = 2 /\ s.ne[f] < c.fc[f].maxit /\ UnseenInit(c, s, f) THEN {"exec.iter-missed"} ELSE {})
  \cup (IF st = 2 /\ r.it = 2 /\ (~\E i \in InsOf(c, f) : \E x \in s.cons[i] : FirstUnseen(c, s, i, x.v) < 0)
           /\ MsgFirst(c, s, f) >= 0
        THEN {"exec.iter-spurious"} ELSE {})
  \cup (IF \E d \in Deps(c, f) : ExecBlocks(c, s, f, d, st) THEN {"exec.barrier"} ELSE {})
ExecRetDo(c, s, f, st) ==
  LET it == s.rq[f].it
      m == ExecMode(c, f, it, st)
      T == IF st = 0 THEN 0 ELSE InitT
  IN [s EXCEPT !.ph[f] = IF st = 0 THEN "exec" ELSE "init",
               !.g[f] = T,
               !.rq[f] = NoReq,
               !.cons = See(c, s, f, m, T),
               !.vis[f] = [m |-> m, must |-> T, may |-> T, wake |-> FALSE]]

(* ---- time ---------------------------------------------------------------------- *)
TimeReqBad(c, s, f) == IF ~InExec(s, f) \/ s.rq[f].on THEN {"life.timereq"} ELSE {}
TimeReqDo(c, s, f, t, it) ==
  [s EXCEPT !.rq[f] = [on |-> TRUE, k |-> "time", t |-> t, it |-> it]]

GrantMode(c, f, it, t, T) ==
  CASE it = 1 -> "iter"
    [] it = 2 -> IF T < t \/ c.fc[f].wait THEN "iter" ELSE "upto"
    [] OTHER -> IF c.fc[f].wait THEN "all" ELSE IF T < t THEN "incl" ELSE "upto"

ExactBad(c, s, f, t, it, T, st) ==
  LET o == c.fc[f]
      E == EventChoices(c, s, f)
      g == s.g[f]
      G == IF it = 0 THEN {GrantTime(o, g, t, e) : e \in E}
           ELSE {IterGrantTime(o, g, t, e) : e \in {x \in E : x > g}}
      late == IF o.ind > 0 THEN {OnGrid(o, Clip(o, g, t))} ELSE G
  IN IF st = 2
     THEN (IF T # g THEN {"iter.time"} ELSE {})
          \cup (IF it = 2 /\ ~\E e \in E : e <= g THEN {"iter.spurious"} ELSE {})
     ELSE IF it # 0 /\ ~\E e \in E : e > g THEN {"iter.missed"}
     ELSE IF T > MaxS(late) THEN {"grant.late"}
     ELSE IF T \notin G THEN (IF T > MinS(G) THEN {"grant.late"} ELSE {"grant.early"})
     ELSE {}

CausalBad(c, s, f, T, it, st) ==
  LET lb == LB(c, s)
      lw == LBFor(c, s, f)
      o == c.fc[f]
      B(d) == Add(Add(lb[d], c.fc[d].outd), o.ind)
      W(d) == Add(Add(lw[d], c.fc[d].outd), o.ind)
  IN IF \E d \in Deps(c, f) : T > B(d) THEN {"grant.causal"}
     ELSE IF o.wait /\ it = 0 /\ \E d \in Deps(c, f) : T >= W(d) /\ T < MaxT /\ ~c.fc[d].wait THEN {"grant.wait"}
     ELSE {}

GrantBad(c, s, f, T, st) ==
  LET r == s.rq[f]
      o == c.fc[f]
      g == s.g[f]
  IN (IF ~(InExec(s, f) /\ r.on) THEN {"life.grant"} ELSE
      (IF st \notin {0, 2} THEN {"grant.result"} ELSE {})
      \cup (IF st = 2 /\ r.it = 0 THEN {"iter.unasked"} ELSE {})
      \cup (IF st = 0 /\ r.it = 1 THEN {"iter.force-ignored"} ELSE {})
      \cup (IF T < g \/ (st = 0 /\ T = g) THEN {"grant.mono"} ELSE {})
      \cup (IF st = 0 /\ T < MaxT /\ T < NextPossible(o, g) /\ r.it = 0 THEN {"grant.rate"} ELSE {})
      \cup (IF st = 0 /\ OnGrid(o, T) # T THEN {"grant.grid"} ELSE {})
      \cup (IF st = 0 /\ o.unint /\ T < r.t THEN {"grant.interrupted"} ELSE {})
      \cup (IF T > s.bar THEN {"grant.barrier"} ELSE {})
      \cup ExactBad(c, s, f, r.t, r.it, T, st)
      \cup CausalBad(c, s, f, T, r.it, st))
GrantDo(c, s, f, T, st) ==
  LET r == s.rq[f]
      m == GrantMode(c, f, r.it, r.t, T)
  IN [s EXCEPT !.g[f] = T,
               !.rq[f] = NoReq,
               !.cons = See(c, s, f, m, T),
               !.vis[f] = [m |-> m, must |-> T, may |-> T, wake |-> (st = 0 /\ r.it = 0 /\ T < r.t)]]

(* ---- publishing ------------------------------------------------------------------ *)
Stamp(c, s, f) == IF InExec(s, f) THEN Add(s.g[f], c.fc[f].outd) ELSE InitT
(* f2 was already granted a time at which an item stamped x should have been seen *)
TooLate(c, s, f2, x, noint) ==
  /\ s.g[f2] > InitT /\ ~Done(s, f2)
  /\ \/ x < s.g[f2] - c.fc[f2].ind
     \/ s.vis[f2].m = "all" /\ c.fc[f2].ind = 0 /\ x = s.g[f2] /\ FALSE
PubBad(c, s, p, v) ==
  LET f == c.pubs[p].f
      x == Stamp(c, s, f)
  IN IF \E i \in Ins(c) : p \in SrcSet(c, i) /\ c.ins[i].f # f /\ TooLate(c, s, c.ins[i].f, x, FALSE)
     THEN {"pub.past"} ELSE {}
PubDo(c, s, p, v) ==
  LET f == c.pubs[p].f
      h == s.hist[p]
  IN IF c.pubs[p].otc /\ Len(h) > 0 /\ h[Len(h)].v = v THEN s
     ELSE [s EXCEPT !.hist[p] = Append(@, [s |-> Stamp(c, s, f), v |-> v])]

(* ---- messages ---------------------------------------------------------------------- *)
(* one filter applied to one message: the messages that continue and the clones it adds *)
(* (m.cl: the clone filters a message comes from, empty for an original)             *)
ApplyFilter(c, fid, m) ==
  LET x == c.flt[fid] IN
  CASE x.kind = "delay"   -> [on |-> {[m EXCEPT !.t = IF @ = InitT THEN InitT ELSE Add(@, x.dt)]}, add |-> {}]
    [] x.kind = "append"  -> [on |-> {[m EXCEPT !.p = @ \o x.str]}, add |-> {}]
    [] x.kind = "dropif"  -> [on |-> IF x.str \in RangeOf(m.mk) THEN {} ELSE {m}, add |-> {}]
    [] x.kind = "reroute" -> [on |-> {[m EXCEPT !.od = IF @ = "" THEN m.d ELSE @, !.d = x.to[1]]}, add |-> {}]
    [] x.kind = "rdrop"   -> [on |-> {[m EXCEPT !.opt = TRUE]}, add |-> {}]
    [] x.kind = "clone"   -> [on |-> {m}, add |-> {[m EXCEPT !.od = m.d, !.d = x.to[k], !.cl = Append(@, fid)] : k \in 1..Len(x.to)}]
    [] OTHER -> [on |-> {m}, add |-> {}]
RECURSIVE Chain(_, _, _)
(* a filter chain applied to a message: [on |-> survivors, add |-> clones] *)
Chain(c, fs, m) ==
  IF fs = <<>> THEN [on |-> {m}, add |-> {}]
  ELSE LET a == ApplyFilter(c, Head(fs), m) IN
       IF a.on = {} THEN a
       ELSE LET m2 == CHOOSE y \in a.on : TRUE
                b == Chain(c, Tail(fs), m2)
            IN [on |-> b.on, add |-> a.add \cup b.add]
(* cloning filters see the message as it was sent, the others follow in order           *)
IsClone(c, x) == c.flt[x].kind = "clone"
SrcChain(c, e) ==
  SelectSeq(c.eps[e].sf, LAMBDA x : IsClone(c, x)) \o SelectSeq(c.eps[e].sf, LAMBDA x : ~IsClone(c, x))
EpNamed(c, k) == {e \in Eps(c) : c.eps[e].key = k}
(* what arrives where when message m (already past its source filters) is delivered *)
RECURSIVE Deliver(_, _, _)
Deliver(c, m, depth) ==
  IF depth = 0 THEN {}
  ELSE LET es == EpNamed(c, m.d) IN
    IF es = {} THEN {}
    ELSE LET e == CHOOSE x \in es : TRUE
             r == Chain(c, SelectSeq(c.eps[e].df, LAMBDA x : ~IsClone(c, x)), m)
             moved == {y \in r.on : y.d # m.d}       \* sent on elsewhere: starts over there
             kept == r.on \ moved
             clones == UNION {Chain(c, SelectSeq(c.eps[e].df, LAMBDA x : IsClone(c, x)), y).add : y \in kept}
         IN {[e |-> e, m |-> y] : y \in kept}
            \cup UNION {Deliver(c, y, depth - 1) : y \in moved \cup clones}
Expand(c, e, m) ==
  LET r == Chain(c, SrcChain(c, e), m)
  IN UNION {Deliver(c, y, 4) : y \in r.on \cup r.add}
MsgTime(c, s, f, t) ==
  LET x == Stamp(c, s, f) IN IF t = InitT THEN x ELSE Max2(x, t)
SendMsg(c, s, e, d, t, p, mk) ==
  [n |-> s.mn, t |-> MsgTime(c, s, c.eps[e].f, t), s |-> c.eps[e].key, os |-> c.eps[e].key, d |-> d, od |-> "",
   p |-> p, mk |-> mk, rank |-> c.eps[e].rank, opt |-> FALSE, cl |-> <<>>]
SendDests(c, e, d) ==
  IF d # "" THEN {d} ELSE {c.eps[x].key : x \in RangeOf(c.eps[e].tgt)}
SendResults(c, s, e, d, t, p, mk) ==
  UNION {Expand(c, e, SendMsg(c, s, e, dd, t, p, mk)) : dd \in SendDests(c, e, d)}
SendBad(c, s, e, d, t, p, mk) ==
  IF \E r \in SendResults(c, s, e, d, t, p, mk) : c.eps[r.e].f # c.eps[e].f /\ TooLate(c, s, c.eps[r.e].f, r.m.t, FALSE)
  THEN {"send.past"} ELSE {}
SendDo(c, s, e, d, t, p, mk) ==
  LET R == SendResults(c, s, e, d, t, p, mk)
  IN [s EXCEPT !.mq = [x \in Eps(c) |-> IF c.eps[x].so THEN @[x] ELSE @[x] \cup {r.m : r \in {y \in R : y.e = x}}],
               !.mn = @ + 1]

(* ---- reading ------------------------------------------------------------------------- *)
(* the possible current values of input i under a consumption vector *)
CurVals(c, s, i, vec) ==
  LET have == {p \in SrcSet(c, i) : vec[p] > 0}
  IN IF have = {} THEN {c.ins[i].def}
     ELSE LET mx == MaxS({s.hist[p][vec[p]].s : p \in have})
          IN {s.hist[p][vec[p]].v : p \in {q \in have : s.hist[q][vec[q]].s = mx}}
(* what reading input i (value v, update flag u, last update lt) rules out *)
ReadMatch(c, s, i, v, u, lt) ==
  {r \in s.cons[i] : v \in CurVals(c, s, i, r.v) /\ r.u = u /\ (r.lt = lt \/ (r.lt <= 0 /\ lt <= 0))}
ReadBad(c, s, i, v, u, lt, u2) ==
  (IF ReadMatch(c, s, i, v, u, lt) = {}
   THEN IF \A r \in s.cons[i] : v \notin CurVals(c, s, i, r.v) THEN {"read.value"}
        ELSE IF \A r \in s.cons[i] : v \in CurVals(c, s, i, r.v) => r.u # u THEN {"read.updated"}
        ELSE {"read.lastupdate"}
   ELSE {})
  \cup (IF u2 THEN {"read.clear"} ELSE {})
ReadDo(c, s, i, v, u, lt) ==
  LET m == ReadMatch(c, s, i, v, u, lt)
  IN [s EXCEPT !.cons[i] = {[r EXCEPT !.u = FALSE] : r \in IF m = {} THEN @ ELSE m}]

(* messages drained from endpoint e after a grant; ms: the sequence read *)
MsgKey(m) == [t |-> m.t, s |-> m.s, os |-> m.os, d |-> m.d, od |-> m.od, p |-> m.p]
Visible(s, f, t) == \/ t < s.vis[f].may
                    \/ t = s.vis[f].may /\ s.vis[f].m # "upto"
Required(c, s, f, t) ==
  \/ t < s.vis[f].must - c.fc[f].ind
  \/ t = s.vis[f].must /\ s.vis[f].m = "all" /\ c.fc[f].ind = 0
Matching(s, e, k) == {x \in s.mq[e] : MsgKey(x) = k}
DrainBad(c, s, e, ms, n) ==
  LET f == c.eps[e].f
      keys == [k \in 1..Len(ms) |-> MsgKey(ms[k])]
      got == RangeOf(keys)
      cnt(k) == Cardinality({j \in 1..Len(keys) : keys[j] = k})
  IN (IF \E k \in got : Matching(s, e, k) = {} THEN {"msg.unknown"}
      ELSE IF \E k \in got : cnt(k) > Cardinality(Matching(s, e, k)) THEN {"msg.dup"} ELSE {})
     \cup (IF \E k \in got : ~Visible(s, f, k.t) THEN {"msg.early"} ELSE {})
     \cup (IF \E m \in s.mq[e] : ~m.opt /\ Required(c, s, f, m.t) /\ cnt(MsgKey(m)) < Cardinality({x \in Matching(s, e, MsgKey(m)) : ~x.opt})
           THEN {"msg.lost"} ELSE {})
     \cup (IF \E j \in 1..(Len(ms)-1) :
               LET a == ms[j]
                   b == ms[j+1]
                   ra == {x.rank : x \in Matching(s, e, keys[j])}
                   rb == {x.rank : x \in Matching(s, e, keys[j+1])}
                   na == {x.n : x \in Matching(s, e, keys[j])}
                   nb == {x.n : x \in Matching(s, e, keys[j+1])}
               IN \/ a.t > b.t
                  \* (what was sent before executing mode and during its iterations is stamped alike here)
                  \/ a.t = b.t /\ a.t >= 0 /\ ra # {} /\ rb # {} /\ MinS(ra) > MaxS(rb)
                  \/ /\ a.t = b.t /\ a.os = b.os /\ keys[j] # keys[j+1]
                     /\ na # {} /\ nb # {} /\ MinS(na) > MaxS(nb)
                     /\ (\A x \in Matching(s, e, keys[j]) \cup Matching(s, e, keys[j+1]) : x.cl = <<>>)
           THEN {"msg.order"} ELSE {})
     \cup (IF n # Len(ms) THEN {"msg.count"} ELSE {})
RECURSIVE TakeKeys(_, _)
TakeKeys(q, ks) ==
  IF ks = <<>> THEN q
  ELSE LET m == {x \in q : MsgKey(x) = Head(ks)}
       IN TakeKeys(IF m = {} THEN q ELSE q \ {CHOOSE x \in m : \A y \in m : x.n <= y.n}, Tail(ks))
DrainDo(c, s, e, ms) == [s EXCEPT !.mq[e] = TakeKeys(@, [k \in 1..Len(ms) |-> MsgKey(ms[k])])]

(* an early return of a time request must come with something new to see *)
WakeBad(c, s, f, ups, ms) ==
  IF s.vis[f].wake /\ ~ups /\ ~ms /\ ~\E i \in InsOf(c, f) : c.ins[i].ouc THEN {"grant.empty"} ELSE {}

(* ---- leaving ---------------------------------------------------------------------------- *)
FinDo(c, s, f) == [s EXCEPT !.ph[f] = "fin", !.rq[f] = NoReq]
ErrDo(c, s, f) == [s EXCEPT !.ph[f] = "err", !.rq[f] = NoReq]
BarrierDo(c, s, t) == [s EXCEPT !.bar = t]
===============================================================================
