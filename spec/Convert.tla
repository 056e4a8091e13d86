------------------------------- MODULE Convert -------------------------------
(* What a value becomes on its way from a publication call of one type through   *)
(* a publication of another type to a read of a third, as documented in          *)
(* docs/developer-guide/typeConversions.md.  Numbers are in quarters (k = "i":   *)
(* whole integers; "t": quarters of a second).  A value is a record              *)
(*   k: d i c v cv np b s t     n: its numbers      s: its text or name          *)
(*   f: for text, what it denotes: "num", "cx", "vec" (numbers in n) or "word"   *)
(* NoNum stands for "not determined by the documentation": matches everything.   *)
EXTENDS Integers, Sequences, FiniteSets
NoNum == 999999999
Nan == 999999998      \* NaN, the value of a named point that has only a name
AbsI(x) == IF x < 0 THEN -x ELSE x
Ok(ns) == \A j \in 1..Len(ns) : ns[j] # NoNum
RECURSIVE SumSq(_)
SumSq(ns) == IF ns = <<>> THEN 0 ELSE Head(ns) * Head(ns) + SumSq(Tail(ns))
Root(x) == LET r == {y \in 0..1000 : y * y = x} IN IF r = {} THEN NoNum ELSE CHOOSE y \in r : TRUE
Small(ns) == \A j \in 1..Len(ns) : AbsI(ns[j]) <= 1000
Norm(ns) == IF ns = <<>> THEN 0 ELSE IF ~Small(ns) THEN NoNum ELSE Root(SumSq(ns))
CxD(re, im) == IF im = 0 THEN re ELSE Norm(<<re, im>>)
Trunc(q) == IF q = NoNum THEN NoNum ELSE IF q < 0 THEN -((-q) \div 4) ELSE q \div 4
Pairs(ns) == IF Len(ns) % 2 = 1 THEN Append(ns, 0) ELSE ns
RECURSIVE Reals(_)
Reals(ns) == IF ns = <<>> THEN <<>> ELSE <<Head(ns), 0>> \o Reals(Tail(ns))
RECURSIVE Mags(_)
Mags(ns) == IF Len(ns) < 2 THEN <<>> ELSE <<CxD(ns[1], ns[2])>> \o Mags(SubSeq(ns, 3, Len(ns)))
(* ---- text ----------------------------------------------------------------- *)
Digit(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
RECURSIVE Nat2S(_)
Nat2S(x) == IF x < 10 THEN Digit(x) ELSE Nat2S(x \div 10) \o Digit(x % 10)
Int2S(x) == IF x < 0 THEN "-" \o Nat2S(-x) ELSE Nat2S(x)
Frac(r) == <<"", ".25", ".5", ".75">>[r + 1]
Q2S(q) == (IF q < 0 THEN "-" ELSE "") \o Nat2S(AbsI(q) \div 4) \o Frac(AbsI(q) % 4)
(* the fixed six decimals a number gets on its way through a stored value (updateTests.cpp wants them) *)
Fix6(q) == (IF q < 0 THEN "-" ELSE "") \o Nat2S(AbsI(q) \div 4) \o <<".000000", ".250000", ".500000", ".750000">>[(AbsI(q) % 4) + 1]
RECURSIVE Join(_)
Join(ns) == IF ns = <<>> THEN "" ELSE IF Len(ns) = 1 THEN Q2S(ns[1]) ELSE Q2S(ns[1]) \o "," \o Join(Tail(ns))
VecS(ns) == "[" \o Join(ns) \o "]"
CxS(re, im) == IF im = 0 THEN Q2S(re) ELSE VecS(<<re, im>>)
FalseWords == {"0", "00", "0000", "false", "f", "F", "FALSE", "False", "N", "no", "n", "No", "NO", "OFF", "off", "", "-", "disable", "disabled"}
(* ---- building values -------------------------------------------------------- *)
Val(k, ns, st, f) == [k |-> k, n |-> ns, s |-> st, f |-> f]
Any(k) == Val(k, <<NoNum>>, "", "any")
Str(st, f, ns) == Val("s", ns, st, f)
IsAny(x) == x.f = "any" \/ ~Ok(x.n)
(* a named point without a number is its name *)
Bare(x) == IF x.k = "np" /\ x.n = <<Nan>> THEN [x EXCEPT !.k = "s", !.n = <<>>, !.f = IF @ = "" THEN "word" ELSE @] ELSE x
TextOf(x) ==       \* the text of a value, with what it denotes
  CASE x.k = "d" -> Str(Q2S(x.n[1]), "num", x.n)
    [] x.k = "i" -> Str(Int2S(x.n[1]), "num", IF AbsI(x.n[1]) > 100000000 THEN <<NoNum>> ELSE <<4 * x.n[1]>>)
    [] x.k = "b" -> Str(IF x.n[1] # 0 THEN "1" ELSE "0", "num", <<IF x.n[1] # 0 THEN 4 ELSE 0>>)
    [] x.k = "c" -> IF x.n[2] = 0 THEN Str(Q2S(x.n[1]), "num", <<x.n[1]>>) ELSE Str(CxS(x.n[1], x.n[2]), "cx", x.n)
    [] x.k = "v" -> Str(VecS(x.n), "vec", x.n)
    [] x.k = "s" -> x
    [] OTHER -> Any("s")
(* ---- to one number, in quarters ------------------------------------------------ *)
D(x0) ==
  LET x == Bare(x0) IN
  CASE IsAny(x) -> NoNum
    [] x.k \in {"d", "t", "np"} -> x.n[1]
    [] x.k = "b" -> IF x.n[1] # 0 THEN 4 ELSE 0
    [] x.k = "i" -> IF AbsI(x.n[1]) > 100000000 THEN NoNum ELSE 4 * x.n[1]
    [] x.k = "c" -> CxD(x.n[1], x.n[2])
    [] x.k = "v" -> IF Len(x.n) = 1 THEN x.n[1] ELSE Norm(x.n)
    [] x.k = "cv" -> IF Len(x.n) = 2 THEN CxD(x.n[1], x.n[2]) ELSE Norm(x.n)
    [] x.k = "s" -> CASE x.f = "num" -> IF x.n = <<>> THEN NoNum ELSE x.n[1]
                      [] x.f = "cx" -> CxD(x.n[1], x.n[2])
                      [] x.f = "vec" -> IF Len(x.n) = 1 THEN x.n[1] ELSE Norm(x.n)
                      [] OTHER -> NoNum
    [] OTHER -> NoNum
Cx(x0) ==
  LET x == Bare(x0) IN
  CASE IsAny(x) -> <<NoNum>>
    [] x.k = "c" -> x.n
    [] x.k = "v" -> IF x.n = <<>> THEN <<0, 0>> ELSE IF Len(x.n) = 1 THEN <<x.n[1], 0>> ELSE <<x.n[1], x.n[2]>>
    [] x.k = "cv" -> IF x.n = <<>> THEN <<0, 0>> ELSE <<x.n[1], x.n[2]>>
    [] x.k = "s" -> CASE x.f = "num" -> <<x.n[1], 0>>
                      [] x.f = "cx" -> x.n
                      [] x.f = "vec" -> IF Len(x.n) >= 2 THEN <<x.n[1], x.n[2]>> ELSE <<NoNum>>
                      [] OTHER -> <<NoNum>>
    [] OTHER -> <<D(x), 0>>
V(x0, inject) ==
  LET x == Bare(x0) IN
  CASE IsAny(x) -> <<NoNum>>
    [] x.k = "v" -> x.n
    [] x.k = "c" -> IF x.n[2] = 0 THEN <<x.n[1]>> ELSE x.n
    [] x.k = "cv" -> IF ~inject THEN Mags(x.n) ELSE IF Len(x.n) = 2 /\ x.n[2] = 0 THEN <<x.n[1]>> ELSE x.n
    [] x.k = "s" -> IF x.f = "word" THEN <<NoNum>> ELSE x.n
    [] OTHER -> <<D(x)>>
CV(x0, inject) ==
  LET x == Bare(x0) IN
  CASE IsAny(x) -> <<NoNum>>
    [] x.k = "cv" -> x.n
    [] x.k = "c" -> x.n
    [] x.k = "v" -> IF inject THEN Reals(x.n) ELSE Pairs(x.n)
    \* (text in brackets is documented to alternate when read and to be one number each or a pair when sent)
    [] x.k = "s" -> IF x.f = "num" THEN <<x.n[1], 0>> ELSE IF x.f = "word" THEN <<NoNum>> ELSE Pairs(x.n)
    [] OTHER -> <<D(x), 0>>
B(x0, inject) ==
  LET x == Bare(x0) IN
  CASE x.k = "s" -> IF x.f = "any" THEN NoNum ELSE IF x.s \in FalseWords THEN 0 ELSE 1
    [] IsAny(x) -> NoNum
    [] x.k = "np" -> IF x.n[1] = NoNum \/ (~inject /\ x.s # "value") THEN NoNum ELSE IF x.n[1] # 0 THEN 1 ELSE 0
    [] OTHER -> IF \E j \in 1..Len(x.n) : x.n[j] # 0 THEN 1 ELSE 0
I(x0) ==
  LET x == Bare(x0) IN
  CASE IsAny(x) -> NoNum
    [] x.k = "i" -> x.n[1]
    [] x.k = "t" -> IF AbsI(x.n[1]) <= 8 THEN 250000000 * x.n[1] ELSE NoNum
    [] OTHER -> Trunc(D(x))
T(x0) ==      \* quarters of a second
  LET x == Bare(x0) IN
  CASE IsAny(x) -> NoNum
    [] x.k \in {"t", "d", "np"} -> x.n[1]
    [] x.k = "i" -> IF x.n[1] % 250000000 = 0 THEN x.n[1] \div 250000000 ELSE NoNum
    [] x.k = "c" /\ x.n[2] = 0 -> x.n[1]
    [] x.k = "v" /\ Len(x.n) = 1 -> x.n[1]
    [] OTHER -> NoNum
NP(x0, inject) ==
  LET x == IF x0.k = "np" THEN x0 ELSE Bare(x0)
      txt == TextOf(x) IN
  CASE x.k = "np" -> x
    [] IsAny(x) -> Any("np")
    [] x.k \in {"d", "i", "b"} \/ (x.k = "c" /\ x.n[2] = 0) \/ (x.k = "v" /\ Len(x.n) = 1) -> Val("np", <<D(x)>>, "value", "")
    [] x.k = "v" /\ x.n = <<>> -> Any("np")
    [] x.k \in {"c", "v"} -> Val("np", <<Nan>>, txt.s, txt.f)
    [] x.k = "s" /\ (inject \/ (x.f = "word" /\ x.s \notin {"true", "false"})) -> Val("np", <<Nan>>, x.s, x.f)
    [] x.k = "s" /\ x.f = "num" -> Val("np", <<x.n[1]>>, "value", "")
    [] OTHER -> Any("np")
S(x0, inject) ==
  LET x == Bare(x0)
  IN IF IsAny(x) THEN Any("s") ELSE IF inject /\ x.k = "v" /\ Len(x.n) = 1 THEN Str(Q2S(x.n[1]), "num", x.n) ELSE TextOf(x)
(* a named point that is only a name denotes what its text denotes: keep the numbers *)
To(k, x, inject) ==
  CASE x.f = "any" -> Any(k)
    [] k = "d" -> Val("d", <<D(x)>>, "", "")
    [] k = "i" -> Val("i", <<I(x)>>, "", "")
    [] k = "c" -> Val("c", Cx(x), "", "")
    [] k = "v" -> Val("v", V(x, inject), "", "")
    [] k = "cv" -> Val("cv", CV(x, inject), "", "")
    [] k = "b" -> Val("b", <<B(x, inject)>>, "", "")
    [] k = "t" -> Val("t", <<T(x)>>, "", "")
    [] k = "np" -> NP(x, inject)
    [] k = "s" -> S(x, inject)
    [] OTHER -> x
KindOf == [double |-> "d", int |-> "i", complex |-> "c", vector |-> "v", complex_vector |-> "cv", named_point |-> "np",
           bool |-> "b", string |-> "s", time |-> "t", json |-> "json"]
(* json carries any value; one number is always sent as such *)
Json(x) ==
  LET y == Bare(x) IN
  CASE y.k = "c" /\ y.n[2] = 0 -> Val("d", <<y.n[1]>>, "", "")
    [] y.k = "v" /\ Len(y.n) = 1 -> Val("d", y.n, "", "")
    [] y.k = "cv" /\ Len(y.n) = 2 -> IF y.n[2] = 0 THEN Val("d", <<y.n[1]>>, "", "") ELSE Val("c", y.n, "", "")
    [] OTHER -> y
NanName(x) == x.k = "np" /\ x.n = <<Nan>>
(* (a time is sent as the whole number of nanoseconds it stands for) *)
Expect(x0, p, y) ==
  LET x == IF x0.k = "t" THEN Val("i", <<IF AbsI(x0.n[1]) <= 8 THEN 250000000 * x0.n[1] ELSE NoNum>>, "", "") ELSE x0
      a == IF KindOf[p] = "json" THEN Json(x) ELSE To(KindOf[p], x, TRUE)
      hard == \/ x.k = "b" /\ p \in {"named_point", "json"}   \* (a truth value is sent as text)
              \/ NanName(a) /\ y \notin {"np", "s"}      \* its name would have to be read as a number again
              \/ p = "json" /\ (y \in {"s", "np"} \/ (x.k = "np" /\ y = "b"))
  IN IF hard THEN Any(y) ELSE To(y, a, FALSE)
Matches(w, o) ==
  CASE w.f = "any" -> TRUE
    [] w.k = "s" -> ~Ok(w.n) \/ o.s = w.s \/ (w.f = "num" /\ Len(w.n) = 1 /\ o.s = Fix6(w.n[1]))
    [] w.k = "np" -> ~Ok(w.n) \/ (o.n = w.n /\ o.s = w.s)
    [] OTHER -> ~Ok(w.n) \/ o.n = w.n
CvInit(run) == [n |-> 0]
CvDo(s, e) == [s EXCEPT !.n = @ + 1]
CvBad(s, e) ==
  CASE e.o = "conv" -> IF Matches(Expect(e.x, e.p, e.y), e.r) THEN {} ELSE {"conv.value"}
    [] e.o = "same" -> IF e.hin = e.hout THEN {} ELSE {"conv.same"}
    [] OTHER -> {}
===============================================================================
