------------------------------ MODULE Codec ------------------------------
(* Commands on the wire.  A connection is a stream of bytes: commands are framed   *)
(* and concatenated by the sender, the receiver gets arbitrary pieces.              *)
(* s.fly: framed commands sent and not yet extracted, s.rx: bytes delivered and not *)
(* yet consumed, s.pk: commands packed into the current multi-command.              *)
EXTENDS Integers, Sequences
CdInit(run) == [fly |-> <<>>, rx |-> 0, pk |-> <<>>]
RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k] + Sum(q, k - 1)
Sizes(q) == [i \in 1..Len(q) |-> q[i].n]
(* how many frames are complete after b more bytes *)
Ready(s, b) == LET z == Sizes(s.fly) IN
  IF z = <<>> THEN 0 ELSE CHOOSE k \in 0..Len(z) : Sum(z, k) <= s.rx + b /\ (k = Len(z) \/ Sum(z, k + 1) > s.rx + b)
CdDo(s, e) ==
  CASE e.o = "send" -> [s EXCEPT !.fly = Append(@, [m |-> e.m, n |-> e.n])]
    [] e.o = "deliver" -> LET k == Ready(s, e.b) IN
         [s EXCEPT !.fly = SubSeq(@, k + 1, Len(@)), !.rx = @ + e.b - Sum(Sizes(s.fly), k)]
    [] e.o = "pack" -> IF Len(s.pk) < 255 THEN [s EXCEPT !.pk = Append(@, e.m)] ELSE s
    [] e.o = "unpack" -> [s EXCEPT !.pk = <<>>]
    [] OTHER -> s
Framed(how) == how \in {"pkt", "pktj"}
CdBad(s, e) ==
  CASE e.o = "deliver" ->
         LET k == Ready(s, e.b) IN
         (IF e.got # [i \in 1..k |-> s.fly[i].m] THEN {"codec.stream"} ELSE {})
         \cup (IF e.used # SubSeq(Sizes(s.fly), 1, k) THEN {"codec.used"} ELSE {})
    [] e.o = "rt" -> (IF e.got # e.m THEN {"codec.field"} ELSE {})
         \cup (IF e.used # e.n THEN {"codec.used"} ELSE {})
         \cup (IF e.how \in {"str", "vec", "swap", "arr", "arrx"} /\ ~e.js /\ e.n # e.zc THEN {"codec.size"} ELSE {})
    [] e.o = "cut" -> IF \E i \in 1..Len(e.used) : e.used[i] # 0 THEN {"codec.truncated"} ELSE {}
    [] e.o = "small" -> IF e.r # -1 \/ ~e.clean THEN {"codec.overrun"} ELSE {}
    [] e.o = "msg" -> IF e.got # e.m THEN {"codec.message"} ELSE {}
    [] e.o = "pack" -> IF e.r # (IF Len(s.pk) < 255 THEN Len(s.pk) + 1 ELSE -1) THEN {"codec.pack"} ELSE {}
    [] e.o = "unpack" -> IF e.got # s.pk THEN {"codec.unpack"} ELSE {}
    [] e.o = "copy" -> IF e.got # e.m \/ e.src # e.m THEN {"codec.copy"} ELSE {}
    [] OTHER -> {}
=============================================================================
