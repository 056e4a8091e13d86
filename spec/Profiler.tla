------------------------------- MODULE Profiler -------------------------------
(* The profiler log: messages wait in memory and go to the output file, each on  *)
(* a line, once, in order, when it is written and at the latest when the         *)
(* profiler goes away.  s.fs[f]: file contents; s.buf: waiting; s.fn: the file.   *)
EXTENDS Integers, Sequences, FiniteSets
PInit(run) == [fs |-> [f \in {run.files[i] : i \in 1..Len(run.files)} |-> "<none>"], buf |-> <<>>, fn |-> ""]
RECURSIVE Lines(_)
Lines(q) == IF q = <<>> THEN "" ELSE (IF Head(q) = "" THEN "" ELSE Head(q) \o "\n") \o Lines(Tail(q))
Writable(s) == s.fn \in DOMAIN s.fs
Flush(s) ==
  IF ~Writable(s) THEN s
  ELSE [s EXCEPT !.fs[s.fn] = (IF @ = "<none>" THEN "" ELSE @) \o Lines(s.buf), !.buf = <<>>]
PDo(s, e) ==
  CASE e.o = "add" -> [s EXCEPT !.buf = Append(@, e.s)]
    [] e.o = "file" ->
         IF e.f = "" THEN [s EXCEPT !.fn = ""]
         ELSE IF e.app = 1 \/ e.f \notin DOMAIN s.fs THEN [s EXCEPT !.fn = e.f]
         ELSE [s EXCEPT !.fn = e.f, !.fs[e.f] = ""]
    [] e.o = "write" -> Flush(s)
    [] e.o = "renew" -> [(IF s.buf = <<>> THEN s ELSE Flush(s)) EXCEPT !.buf = <<>>, !.fn = ""]
    [] OTHER -> s
PEx(s, e) == CASE e.o = "write" -> ~Writable(s)
               [] e.o = "file" -> e.f # "" /\ e.app = 0 /\ e.f \notin DOMAIN s.fs
               [] OTHER -> FALSE
PBad(s, e) ==
  LET t == PDo(s, e)
  IN (IF (e.ex = 1) # PEx(s, e) THEN {"prof.failure"} ELSE {})
     \cup (IF \E f \in DOMAIN t.fs : e.fs[f] # t.fs[f] THEN {"prof.file"} ELSE {})
===============================================================================
