-------------------------------- MODULE Federations --------------------------------
EXTENDS Integers, Sequences
(* The federations Federation.tla explores: two federates (a, b) with every mix of *)
(* the timing options below, connected by values one way or both ways, or by       *)
(* messages.                                                                       *)
CONSTANT Shape          \* how they are connected
FOpt(per, off, i, o, un, w) ==
  [period |-> per, offset |-> off, delta |-> 1, ind |-> i, outd |-> o, unint |-> un, wait |-> w,
   maxit |-> 50, late |-> FALSE]
Plain == FOpt(0, 0, 0, 0, FALSE, FALSE)
Opts == { Plain, FOpt(2, 0, 0, 0, FALSE, FALSE), FOpt(2, 1, 0, 0, FALSE, FALSE), FOpt(0, 0, 1, 0, FALSE, FALSE),
          FOpt(0, 0, 0, 1, FALSE, FALSE), FOpt(0, 0, 0, 0, TRUE, FALSE), FOpt(0, 0, 0, 0, FALSE, TRUE) }
Nothing == [x \in {} |-> 0]
Pub(f) == [f |-> f, otc |-> FALSE]
Inp(f, src, ouc) == [f |-> f, src |-> src, ouc |-> ouc, noint |-> FALSE, def |-> 0]
Ept(f, key, r, tg, to) ==
  [f |-> f, key |-> key, rank |-> r, sf |-> <<>>, df |-> <<>>, targets |-> to, tgt |-> to, so |-> FALSE, ro |-> FALSE,
   targeted |-> tg]
Cfg(oa, ob, pubs, ins, eps) ==
  [feds |-> {"a", "b"}, fc |-> [f \in {"a", "b"} |-> IF f = "a" THEN oa ELSE ob],
   pubs |-> pubs, ins |-> ins, eps |-> eps, flt |-> Nothing]
OneWay(oa, ob, ouc) == Cfg(oa, ob, [p \in {"pa"} |-> Pub("a")], [i \in {"ib"} |-> Inp("b", <<"pa">>, ouc)], Nothing)
BothWays(oa, ob) ==
  Cfg(oa, ob, [p \in {"pa", "pb"} |-> IF p = "pa" THEN Pub("a") ELSE Pub("b")],
      [i \in {"ia", "ib"} |-> IF i = "ia" THEN Inp("a", <<"pb">>, FALSE) ELSE Inp("b", <<"pa">>, FALSE)], Nothing)
Messages(oa, ob, tg) ==
  Cfg(oa, ob, Nothing, Nothing,
      [e \in {"ea", "eb"} |-> IF e = "ea" THEN Ept("a", "ea", 1, tg, <<"eb">>) ELSE Ept("b", "eb", 2, tg, <<"ea">>)])
MessagesOne(oa, ob) ==
  Cfg(oa, ob, Nothing, Nothing,
      [e \in {"ea", "eb"} |-> IF e = "ea" THEN Ept("a", "ea", 1, TRUE, <<"eb">>) ELSE Ept("b", "eb", 2, TRUE, <<>>)])
(* two federates that hear from each other cannot both wait for the current time:  *)
(* the library refuses to start them                                               *)
Pairs == {z \in Opts \X Opts : ~(z[1].wait /\ z[2].wait)}
Three(oc) ==
  [feds |-> {"a", "b", "d"}, fc |-> [f \in {"a", "b", "d"} |-> IF f = "d" THEN oc ELSE Plain],
   pubs |-> [p \in {"pa", "pb"} |-> IF p = "pa" THEN Pub("a") ELSE Pub("b")],
   ins |-> [i \in {"ib", "id"} |-> IF i = "ib" THEN Inp("b", <<"pa">>, FALSE) ELSE Inp("d", <<"pb">>, FALSE)],
   eps |-> Nothing, flt |-> Nothing]
Join(oc) ==
  [Three(oc) EXCEPT !.ins = [i \in {"id"} |-> Inp("d", <<"pa", "pb">>, FALSE)]]
Family ==
  CASE Shape = "oneway"   -> {OneWay(x, y, u) : x \in Opts, y \in Opts, u \in BOOLEAN}
    [] Shape = "bothways" -> {BothWays(z[1], z[2]) : z \in Pairs}
    [] Shape = "messages" -> {Messages(z[1], z[2], TRUE) : z \in Pairs}
    [] Shape = "chain"    -> {Three(x) : x \in Opts}
    [] Shape = "join"     -> {Join(x) : x \in {Plain}}
    [] Shape = "msgone"   -> {MessagesOne(x, y) : x \in Opts, y \in Opts}
===============================================================================
