-------------------------------- MODULE Meta --------------------------------
(* Computations with compile-time values: ratios, limits of the integer types, relations between types, conditions.
   i  the ratio at hand, an index into RATIOS                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Digits
CONSTANTS RATIOS
VARIABLES cfg, i, dead, act
vars == <<cfg, i, dead, act>>
Key == <<i, dead>>
RECURSIVE Gcd(_, _)
Gcd(p, q) == IF q = 0 THEN p ELSE Gcd(q, p % q)
\* lowest terms
Lowest(n, d) == LET a == IF n < 0 THEN 0 - n ELSE n g == Gcd(a, d) IN IF n < 0 THEN <<0 - (a \div g), d \div g>> ELSE <<a \div g, d \div g>>
R == RATIOS[i]
Ratio(op, q) == CASE op = "mul" -> Lowest(R[1] * q[1], R[2] * q[2])
                  [] op = "div" -> Lowest(R[1] * q[2], R[2] * q[1])
                  [] op = "add" -> Lowest(R[1] * q[2] + q[1] * R[2], R[2] * q[2])
At(p) == {j \in 1..Len(RATIOS) : RATIOS[j] = p}
\* ---- integer types
Bits(t) == CASE t \in {"schar", "uchar"} -> 8 [] t \in {"short", "ushort"} -> 16 [] t \in {"int", "uint"} -> 32 [] OTHER -> 64
Neg(t) == t \in {"schar", "short", "int", "long", "llong"}
Ints == {"schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"}
Hex(first, rest, n) == [k \in 1..n |-> IF k = 1 THEN first ELSE rest]
MaxHex(t) == Hex(IF Neg(t) THEN 7 ELSE 15, 15, Bits(t) \div 4)
MinHex(t) == IF Neg(t) THEN Hex(8, 0, Bits(t) \div 4) ELSE <<>>
Limits(t) == [min |-> Text(Neg(t), MinHex(t), 10, FALSE), max |-> Text(FALSE, MaxHex(t), 10, FALSE), digits |-> Bits(t) - (IF Neg(t) THEN 1 ELSE 0),
              \* every number of so many decimal digits is representable
              digits10 |-> Len(Text(FALSE, MaxHex(t), 10, FALSE)) - 1, signed |-> Neg(t), integer |-> TRUE, special |-> TRUE, radix |-> 2, bits |-> Bits(t),
              \* a text of any number fits in length<base>, which wastes little
              fits |-> <<TRUE, TRUE, TRUE>>]
Longest(t, b) == LET m == Len(Text(Neg(t), MinHex(t), b, FALSE)) n == Len(Text(FALSE, MaxHex(t), b, FALSE)) IN IF m > n THEN m ELSE n
\* ---- classes: B is publicly an A, C privately, V virtually, M both B and C
Classes == {"A", "B", "C", "V", "M", "cA", "vA", "vB", "cvM"}
As == {"A", "cA", "vA"}
Bs == {"B", "vB"}
Above(x) == CASE x \in As -> As [] x \in Bs -> As \cup Bs [] x = "C" -> As \cup {"C"} [] x = "V" -> As \cup {"V"} [] x \in {"M", "cvM"} -> As \cup Bs \cup {"C", "M", "cvM"} [] OTHER -> {}
\* neither unions nor fundamental types are bases of anything
BaseOf(x, y) == x \in Above(y)
\* ---- implicit conversions: X from int, Y explicitly from int, K to int, EK explicitly to bool
Arith == {"int", "double", "bool"}
ObjPtr == {"pA", "pB", "pC", "cpA", "pi", "pv", "cpv", "arr"}
Ptr == {"pA", "pB", "pC", "cpA", "pi", "pv", "cpv"}
FromA == {"A", "rA", "crA", "rrA"}
Conv(f, t) ==
  CASE t \in {"void", "cvoid", "vvoid"} -> f \in {"void", "cvoid", "vvoid"}
    [] t = "arr" -> FALSE
    [] f \in {"void", "cvoid", "vvoid"} -> FALSE
    [] t = "bool" /\ f \in ObjPtr -> TRUE
    [] t \in Arith -> f \in Arith \cup {"E", "K"}
    [] t = "X" -> f \in Arith \cup {"E", "X"}
    [] t \in {"E", "EC", "Y", "K", "EK", "B", "C"} -> f = t
    [] t = "A" -> f \in FromA \cup {"B"}
    [] t = "pA" -> f \in {"pA", "pB", "null"}
    [] t = "cpA" -> f \in {"pA", "pB", "cpA", "null"}
    [] t \in {"pB", "pC"} -> f \in {t, "null"}
    [] t = "pi" -> f \in {"pi", "arr", "null"}
    [] t = "pv" -> f \in (ObjPtr \ {"cpA", "cpv"}) \cup {"null"}
    [] t = "cpv" -> f \in ObjPtr \cup {"null"}
    [] t = "null" -> f = "null"
    [] t = "rA" -> f = "rA"
    [] t = "crA" -> f \in FromA \cup {"B"}
    [] t = "rrA" -> f \in {"A", "rrA", "B"}
    [] OTHER -> FALSE
ConvTypes == Arith \cup Ptr \cup FromA \cup {"void", "cvoid", "vvoid", "arr", "E", "EC", "X", "Y", "K", "EK", "B", "C", "null"}
\* ---- conditions: the first false one decides a conjunction, the first true one a disjunction, the last one otherwise
First(s, b) == LET P == {j \in 1..Len(s) : s[j] = b} IN IF P = {} THEN Len(s) ELSE CHOOSE j \in P : \A q \in P : j <= q
All(s) == <<\A j \in 1..Len(s) : s[j], First(s, FALSE)>>
Some(s) == <<\E j \in 1..Len(s) : s[j], First(s, TRUE)>>
\* ---- storage
Up(n, a) == ((n + a - 1) \div a) * a
\* ----
Obs == IF dead THEN [z |-> 1] ELSE [r |-> R]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ i = c /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ i' = c /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ask(op, a, r) == UNCHANGED i /\ Ret(op, a, r)
End == dead' = TRUE /\ UNCHANGED <<cfg, i>> /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\ IF op = "end" THEN End ELSE UNCHANGED <<cfg, dead>> /\
  CASE op \in {"mul", "div", "add"} ->
         /\ op = "div" => RATIOS[a[1]][1] > 0
         /\ LET p == Ratio(op, RATIOS[a[1]]) IN Ret(op, a, p) /\ i' = IF At(p) = {} THEN i ELSE CHOOSE j \in At(p) : TRUE
    [] op = "reduce" -> Ask(op, a, Lowest(a[1], a[2]))
    [] op = "limits" -> Ask(op, a, Limits(a[1]))
    [] op = "base" -> Ask(op, a, BaseOf(a[1], a[2]))
    [] op = "conv" -> Ask(op, a, Conv(a[1], a[2]))
    [] op = "all" -> Ask(op, a, All(a[1]))
    [] op = "some" -> Ask(op, a, Some(a[1]))
    [] op = "store" -> Ask(op, a, <<Up(a[1], a[2]), a[2]>>)
    [] op = "cond" -> Ask(op, a, IF a[1] THEN <<TRUE, TRUE, TRUE>> ELSE <<FALSE, FALSE, FALSE>>)
    [] OTHER -> FALSE
Raw == {<<2, 4>>, <<6, 3>>, <<0, 5>>, <<7, 7>>, <<1000000, 1000>>, <<60, 3600>>, <<1, 1>>, <<0 - 2, 4>>, <<0 - 9, 3>>, <<0 - 1, 2>>}
Bools == {s \in UNION {[1..n -> BOOLEAN] : n \in 0..3} : TRUE}
Next ==
  \/ Do("end", <<>>)
  \/ \E j \in 1..Len(RATIOS), op \in {"mul", "div", "add"} : Do(op, <<j>>)
  \/ i = 1 /\
     \/ \E q \in Raw : Do("reduce", q)
     \/ \E t \in Ints : Do("limits", <<t>>)
     \/ \E x \in Classes \cup {"U", "int"}, y \in Classes \cup {"U", "int"} : Do("base", <<x, y>>)
     \/ \E x \in ConvTypes, y \in ConvTypes : Do("conv", <<x, y>>)
     \/ \E s \in Bools : Do("all", <<s>>) \/ Do("some", <<s>>)
     \/ \E n \in 1..9, m \in {1, 2, 4, 8, 16} : Do("store", <<n, m>>)
     \/ \E b \in BOOLEAN : Do("cond", <<b>>)
TypeOK == i \in 1..Len(RATIOS)
\* reducing never changes the value; product and quotient undo each other
Sane == LET p == Lowest(R[1] * 6, R[2] * 6) IN p = Lowest(R[1], R[2]) /\ (\A j \in 1..Len(RATIOS) : RATIOS[j][1] > 0 =>
          LET p2 == Ratio("mul", RATIOS[j]) IN Lowest(p2[1] * RATIOS[j][2], p2[2] * RATIOS[j][1]) = Lowest(R[1], R[2]))
=============================================================================
