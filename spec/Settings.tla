------------------------------ MODULE Settings ------------------------------
(* Properties, flags, tags, information strings and interface options: what   *)
(* was set last is what is read, and setting one thing changes no other.      *)
(* s: the value of every setting known so far (a setting never written keeps   *)
(* the value it was first read with).                                         *)
EXTENDS Integers, Sequences
SeInit(run) == [x \in {} |-> 0]
Has(s, k) == k \in DOMAIN s
Put(s, k, v) == [x \in DOMAIN s \cup {k} |-> IF x = k THEN v ELSE s[x]]
Del(s, k) == [x \in DOMAIN s \ {k} |-> s[x]]
Key(e) == <<e.who, e.p>>
(* settings that are two names of one thing, or exclude each other; v: value written *)
Also(s, e, v) ==
  CASE e.p = "source_only" /\ v = 1 /\ e.o = "setFlag" -> Put(s, <<e.who, "observer">>, 0)
    [] e.p = "observer" /\ v = 1 -> Put(s, <<e.who, "source_only">>, 0)
    [] e.p \in {"required", "optional"} -> Del(s, <<e.who, IF e.p = "required" THEN "optional" ELSE "required">>)
    [] e.p \in {"single", "multiple"} -> Put(s, <<e.who, IF e.p = "single" THEN "multiple" ELSE "single">>, 1 - v)
    [] e.p = "receive_only" \/ (e.p = "source_only" /\ e.o = "opt") -> Del(s, <<e.who, IF e.p = "receive_only" THEN "source_only" ELSE "receive_only">>)
    [] e.p = "interruptible" -> Put(s, <<e.who, "uninterruptible">>, 1 - v)
    [] e.p = "uninterruptible" -> Put(s, <<e.who, "interruptible">>, 1 - v)
    (* the flag of the federate is handed to its inputs when it changes *)
    [] e.p = "only_update_on_change" /\ e.o = "setFlag" -> Del(s, <<"i" \o e.who, e.p>>)
    [] OTHER -> s
SeDo(s, e) ==
  IF e.k = "set" THEN Also(Put(s, Key(e), e.v), e, e.v)
  ELSE IF e.k = "get" /\ ~Has(s, Key(e)) THEN Put(s, Key(e), e.v)
  ELSE s
SeBad(s, e) ==
  IF e.k = "get" /\ Has(s, Key(e)) /\ s[Key(e)] # e.v THEN {"setting.value"}
  ELSE IF e.k = "err" THEN {"setting.error"} ELSE {}
=============================================================================
