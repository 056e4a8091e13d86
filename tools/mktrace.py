#!/usr/bin/env python3
"""Writes spec/<M>Trace.tla: the trace checker of component specification M.  (One text per module and not an INSTANCE of a
shared one because TLC evaluates an instance's constant definitions, such as the parsed input, again at every use.)"""
import os
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
T = r"""---- MODULE @M@Trace ----
(* Checks recorded executions against @M@: each initial state is one trace, every step consumes one event, and the first    *)
(* event that breaks a rule ends the trace with a VERDICT line.                                                            *)
EXTENDS @M@, TLC, Json, IOUtils
VARIABLES tr, l, s, bad, stop

Input == JsonDeserialize(IOEnv.TRACES)
Raw == Input.traces
TRules == {Input.rules[i] : i \in 1..Len(Input.rules)}
Judged(b) == IF "*" \in TRules THEN b ELSE b \cap TRules
TInit == /\ tr \in 1..Len(Raw)
         /\ l = 1
         /\ s = @I@(Raw[tr].cfg)
         /\ bad = {}
         /\ stop = FALSE
TNext ==
  /\ ~stop
  /\ tr' = tr
  /\ IF l > Len(Raw[tr].ev)
     THEN /\ PrintT(<<"OK", Raw[tr].id, l - 1>>)
          /\ stop' = TRUE
          /\ UNCHANGED <<l, s, bad>>
     ELSE LET e == Raw[tr].ev[l]
              b == Judged(CASE e.k = "end" -> {}
                            [] e.k = "crash" -> {"progress.crash"}
                            [] e.k = "exc" -> {"progress.crash"}
                            [] e.k = "stuck" -> {"progress.stuck"}
                            [] e.k = "down" -> {"progress.down"}
                            [] OTHER -> @B@(s, e))
          IN /\ bad' = b
             /\ l' = l + 1
             /\ stop' = (b # {})
             /\ IF b # {} THEN PrintT(<<"VERDICT", Raw[tr].id, l, b>>) ELSE TRUE
             /\ s' = IF b # {} \/ e.k \in {"end", "crash", "exc", "stuck", "down"} THEN s ELSE @D@(s, e)
====
"""
MODS = [("SmallBuffer", "SBInit", "SBBad", "SBDo"), ("Unresolved", "UInit", "UBad", "UDo"), ("Profiler", "PInit", "PBad", "PDo"), ("Handles", "HInit", "HBad", "HDo"),
        ("InputQueue", "IQInit", "IQBad", "IQDo"), ("EndpointQueue", "EQInit", "EQBad", "EQDo"), ("Convert", "CvInit", "CvBad", "CvDo"), ("Codec", "CdInit", "CdBad", "CdDo"),
        ("Commands", "CoInit", "CoBad", "CoDo"), ("Queries", "QuInit", "QuBad", "QuDo"), ("Modes", "MoInit", "MoBad", "MoDo"),
        ("Errors", "ErInit", "ErBad", "ErDo"), ("Settings", "SeInit", "SeBad", "SeDo")]
for m, i, b, d in MODS:
    if os.path.exists(os.path.join(SPEC, m + ".tla")):
        open(os.path.join(SPEC, m + "Trace.tla"), "w").write(T.replace("@M@", m).replace("@I@", i).replace("@B@", b).replace("@D@", d))
        open(os.path.join(SPEC, m + "Trace.cfg"), "w").write("INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n")
