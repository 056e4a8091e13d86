---- MODULE ConvertTrace ----
(* Checks recorded executions against Convert: each initial state is one trace, every step consumes one event, and the first    *)
(* event that breaks a rule ends the trace with a VERDICT line.                                                            *)
EXTENDS Convert, TLC, Json, IOUtils
VARIABLES tr, l, s, bad, stop

Input == JsonDeserialize(IOEnv.TRACES)
Raw == Input.traces
TRules == {Input.rules[i] : i \in 1..Len(Input.rules)}
Judged(b) == IF "*" \in TRules THEN b ELSE b \cap TRules
TInit == /\ tr \in 1..Len(Raw)
         /\ l = 1
         /\ s = CvInit(Raw[tr].cfg)
         /\ bad = {}
         /\ stop = FALSE
TNext ==
  /\ ~stop
  /\ tr' = tr
  /\ IF l > Len(Raw[tr].ev)
     THEN /\ PrintT(<<"OK", Raw[tr].id, l - 1>>)
          /\ stop' = TRUE
          /\ UNCHANGED <<l, s, bad>>
     ELSE LET e == Raw[tr].ev[l]
              b == Judged(CASE e.k = "end" -> {}
                            [] e.k = "crash" -> {"progress.crash"}
                            [] e.k = "exc" -> {"progress.crash"}
                            [] e.k = "stuck" -> {"progress.stuck"}
                            [] e.k = "down" -> {"progress.down"}
                            [] OTHER -> CvBad(s, e))
          IN /\ bad' = b
             /\ l' = l + 1
             /\ stop' = (b # {})
             /\ IF b # {} THEN PrintT(<<"VERDICT", Raw[tr].id, l, b>>) ELSE TRUE
             /\ s' = IF b # {} \/ e.k \in {"end", "crash", "exc", "stuck", "down"} THEN s ELSE CvDo(s, e)
====
