----------------------------- MODULE SmallBuffer ------------------------------
(* A payload buffer is a byte string that lives in its own storage, in heap      *)
(* memory it owns, or in memory borrowed from its user (a region), and that can  *)
(* be locked against reallocation.  State: s.b[i] the buffers, s.r[k] the        *)
(* contents of the regions.  How far a buffer grows beyond what was asked is     *)
(* left open: the capacity observed is taken, as long as it is sufficient.       *)
EXTENDS Integers, Sequences, FiniteSets

Inline == 64
B0 == [c |-> <<>>, cap |-> Inline, own |-> "in", reg |-> 0, lk |-> FALSE, er |-> 0]
SBInit(run) == [b |-> [i \in 1..3 |-> B0], r |-> [k \in 1..3 |-> [i \in 1..160 |-> 199 + k]]]

Ok(st) == [s |-> st, ex |-> ""]
Fail(st, x) == [s |-> st, ex |-> x]
Prefix(c, n) == SubSeq(c, 1, n)
(* buffer i with room for n bytes, or a record with cap -1 if it may not grow *)
Grown(s, i, n, e) ==
  LET x == s.b[i] IN
  IF n <= x.cap THEN x
  ELSE IF x.lk THEN [x EXCEPT !.cap = -1]
  ELSE [x EXCEPT !.cap = e.b[i].cap, !.own = "heap", !.reg = 0]
(* bytes that appear when i grows to n without a value being given *)
NewBytes(s, i, n, e) ==
  LET x == s.b[i]
      m == Len(x.c)
  IN IF n <= m THEN <<>>
     ELSE IF x.own = "span" /\ n <= x.cap THEN SubSeq(s.r[x.reg], m + 1, n)
     ELSE IF Len(e.b[i].c) = n THEN SubSeq(e.b[i].c, m + 1, n) ELSE [k \in 1..(n - m) |-> -1]
SetC(s, i, d, e) ==
  LET g == Grown(s, i, Len(d), e)
  IN IF g.cap = -1 THEN Fail(s, "bad_alloc") ELSE Ok([s EXCEPT !.b[i] = [g EXCEPT !.c = d]])
App(s, i, d, e) == SetC(s, i, s.b[i].c \o d, e)
Emptied(x) == [x EXCEPT !.c = <<>>, !.cap = Inline, !.own = "in", !.reg = 0, !.lk = FALSE]
Taken(x, y) ==    \* x takes over what y holds
  [x EXCEPT !.c = y.c, !.cap = IF y.own = "in" THEN Inline ELSE y.cap, !.own = y.own, !.reg = y.reg]
Fill(n, v) == [k \in 1..n |-> v]

Eval(s, e) ==
  LET i == e.i
      x == s.b[i]
      n == Len(x.c)
      fresh == [s EXCEPT !.b[i] = B0]
  IN CASE e.o = "new"  -> Ok(fresh)
       [] e.o \in {"newS", "newD"} -> SetC(fresh, i, e.d, e)
       [] e.o = "newN" -> SetC(fresh, i, IF Len(e.b[i].c) = e.n THEN e.b[i].c ELSE [k \in 1..e.n |-> -1], e)
       [] e.o = "newV" -> SetC(fresh, i, Fill(e.n, e.v), e)
       [] e.o = "newC" -> SetC(fresh, i, s.b[e.j].c, e)
       [] e.o = "newM" -> Ok([s EXCEPT !.b[i] = Taken(B0, s.b[e.j]), !.b[e.j] = Emptied(@)])
       [] e.o = "asgC" -> IF i = e.j THEN Ok(s) ELSE SetC(s, i, s.b[e.j].c, e)
       [] e.o = "asgM" ->
            IF x.lk THEN LET r == SetC(s, i, s.b[e.j].c, e)
                         IN IF r.ex = "" THEN r ELSE Ok([s EXCEPT !.b[i].er = 2])
            ELSE Ok([s EXCEPT !.b[i] = [Taken(x, s.b[e.j]) EXCEPT !.lk = s.b[e.j].lk], !.b[e.j] = Emptied(@)])
       [] e.o \in {"asgS", "setN", "setE"} -> SetC(s, i, e.d, e)
       [] e.o = "asgSelf" -> Ok(s)
       [] e.o = "setBad" -> IF e.d = <<>> THEN SetC(s, i, <<>>, e) ELSE Fail(s, "invalid_argument")
       [] e.o = "appBad" -> IF e.d = <<>> THEN Ok(s) ELSE Fail(s, "invalid_argument")
       [] e.o \in {"appN", "appE", "appS"} -> App(s, i, e.d, e)
       [] e.o = "push" -> App(s, i, <<e.v>>, e)
       [] e.o = "pop" -> Ok([s EXCEPT !.b[i].c = Prefix(@, IF n = 0 THEN 0 ELSE n - 1)])
       [] e.o = "resize" -> SetC(s, i, Prefix(x.c, IF e.n < n THEN e.n ELSE n) \o NewBytes(s, i, e.n, e), e)
       [] e.o = "resizeV" -> SetC(s, i, Prefix(x.c, IF e.n < n THEN e.n ELSE n) \o Fill(IF e.n > n THEN e.n - n ELSE 0, e.v), e)
       [] e.o = "huge" -> Fail(s, "bad_alloc")
       [] e.o = "reserve" -> LET g == Grown(s, i, e.n, e) IN IF g.cap = -1 THEN Fail(s, "bad_alloc") ELSE Ok([s EXCEPT !.b[i] = g])
       [] e.o = "clear" -> Ok([s EXCEPT !.b[i].c = <<>>])
       [] e.o = "at" -> IF e.n >= n THEN Fail(s, "out_of_range") ELSE Ok(s)
       [] e.o = "setAt" -> IF e.n >= n THEN Fail(s, "out_of_range") ELSE Ok([s EXCEPT !.b[i].c[e.n + 1] = e.v])
       [] e.o = "idx" -> Ok([s EXCEPT !.b[i].c[e.n + 1] = e.v])
       [] e.o = "nul" ->
            IF x.cap > n THEN (IF x.own = "span" THEN Ok([s EXCEPT !.r[x.reg][n + 1] = 0]) ELSE Ok(s))
            ELSE LET g == Grown(s, i, n + 1, e) IN IF g.cap = -1 THEN Fail(s, "bad_alloc") ELSE Ok([s EXCEPT !.b[i] = g])
       [] e.o = "give" -> Ok([s EXCEPT !.b[i] = [x EXCEPT !.c = e.d, !.cap = e.n, !.own = "heap", !.reg = 0, !.lk = FALSE]])
       [] e.o = "span" -> Ok([s EXCEPT !.b[i] = [x EXCEPT !.c = e.d, !.cap = e.n, !.own = "span", !.reg = e.j, !.lk = FALSE]])
       [] e.o = "rel" -> IF x.own = "in" THEN Ok(s) ELSE Ok([s EXCEPT !.b[i] = Emptied(x)])
       [] e.o = "swap" -> IF i = e.j THEN Ok(s)
                          ELSE Ok([s EXCEPT !.b[i] = Taken(x, s.b[e.j]), !.b[e.j] = Taken(s.b[e.j], x)])
       [] e.o = "lock" -> Ok([s EXCEPT !.b[i].lk = (e.v # 0)])
       [] OTHER -> Ok(s)
(* what a buffer holds is what its borrowed memory holds *)
Written(s) ==
  [s EXCEPT !.r = [k \in 1..3 |->
     LET w == {i \in 1..3 : s.b[i].own = "span" /\ s.b[i].reg = k}
     IN IF w = {} THEN @[k]
        ELSE LET c == s.b[CHOOSE i \in w : TRUE].c IN c \o SubSeq(@[k], Len(c) + 1, 160)]]
SBDo(s, e) == Written(Eval(s, e).s)

SBBad(s, e) ==
  LET r == Eval(s, e)
      t == Written(r.s)
  IN (IF e.ex # r.ex THEN {"buf.exception"} ELSE {})
     \cup (IF \E i \in 1..3 : e.b[i].c # t.b[i].c THEN {"buf.content"} ELSE {})
     \cup (IF \E i \in 1..3 : e.b[i].cap # t.b[i].cap \/ e.b[i].cap < Len(t.b[i].c) THEN {"buf.capacity"} ELSE {})
     \cup (IF \E i \in 1..3 : (e.b[i].lk = 1) # t.b[i].lk THEN {"buf.lock"} ELSE {})
     \cup (IF \E i \in 1..3 : e.b[i].er # t.b[i].er THEN {"buf.error"} ELSE {})
     \cup (IF \E i \in 1..3 : (e.b[i].em = 1) # (t.b[i].c = <<>>) THEN {"buf.empty"} ELSE {})
     \cup (IF \E i \in 1..3 : e.b[i].same # 1 THEN {"buf.views"} ELSE {})
     \cup (IF \E i \in 1..3 : e.b[i].reg # t.b[i].reg THEN {"buf.borrow"} ELSE {})
     \cup (IF \E i, j \in 1..3 : e.eq[(i - 1) * 3 + j] # (IF t.b[i].c = t.b[j].c THEN 1 ELSE 0) THEN {"buf.equal"} ELSE {})
     \cup (IF e.o = "at" /\ e.ex = "" /\ e.got # s.b[e.i].c[e.n + 1] THEN {"buf.content"} ELSE {})
     \cup (IF e.o = "nul" /\ e.ex = "" /\ e.z # 0 THEN {"buf.terminate"} ELSE {})
     \cup (IF e.o \in {"give", "span"} /\ e.ptr # 1 THEN {"buf.borrow"} ELSE {})
     \cup (IF e.o = "rel" /\ e.rg # (IF s.b[e.i].own = "in" THEN -1 ELSE s.b[e.i].reg) THEN {"buf.borrow"} ELSE {})
     \cup (IF e.o = "peek" /\ \E k \in 1..160 : e.r[k] # t.r[e.j][k] THEN {"buf.region"} ELSE {})
===============================================================================
