------------------------------ MODULE Calendar ------------------------------
(* Years, months and days as kept (16, 8, 8 bits), the Gregorian rules, and arithmetic on ratios.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Years, Small
VARIABLES cfg, y, m, d, dead, act
vars == <<cfg, y, m, d, dead, act>>
Key == <<cfg, y, m, d, dead>>
Obs == IF dead THEN [z |-> 1] ELSE [y |-> y, m |-> m, d |-> d]
InitCfg(c) == cfg = c /\ y = 0 /\ m = 0 /\ d = 0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ y' = 0 /\ m' = 0 /\ d' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Put(op, a, yy, mm, dd) == yy \in (0 - 32768)..32767 /\ mm \in 0..255 /\ dd \in 0..255
  /\ y' = yy /\ m' = mm /\ d' = dd /\ UNCHANGED <<cfg, dead>> /\ act' = [op |-> op, a |-> a, r |-> 0]
Ask(op, a, r) == UNCHANGED <<cfg, y, m, d, dead>> /\ act' = [op |-> op, a |-> a, r |-> r]
Leap(n) == n % 4 = 0 /\ (n % 100 # 0 \/ n % 400 = 0)
Ok == << y >= 0 - 32767, m \in 1..12, d \in 1..31 >>
\* last day of month m of year y
LastDay == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Last == m \in 1..12 /\ Ask("last", <<>>, <<LastDay, Ok[1] /\ Ok[2]>>)
\* ratio arithmetic, in lowest terms
R == <<<<1, 1>>, <<1, 1000>>, <<2, 4>>, <<6, 1>>, <<5, 7>>, <<4, 6>>, <<3600, 1>>, <<1, 15>>>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Low(n, dn) == <<n \div Gcd(n, dn), dn \div Gcd(n, dn)>>
Rat(o, i, j) == i \in 1..8 /\ j \in 1..8 /\ Ask("rat", <<o, i, j>>,
  CASE o = "mul" -> Low(R[i][1] * R[j][1], R[i][2] * R[j][2]) [] o = "div" -> Low(R[i][1] * R[j][2], R[i][2] * R[j][1])
    [] o = "add" -> Low(R[i][1] * R[j][2] + R[j][1] * R[i][2], R[i][2] * R[j][2]) [] o = "gcd" -> <<Gcd(R[i][1] * R[j][2], R[j][1] * R[i][2]), 0>>
    [] o = "lcm" -> <<(R[i][2] * R[j][2]) \div Gcd(R[i][2], R[j][2]), 0>> [] OTHER -> <<0, 0>>)
End == dead' = TRUE /\ UNCHANGED <<cfg, y, m, d>> /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Do(op, x) == ~dead /\
  CASE op = "set" -> Put("set", x, x[1], x[2], x[3])
    [] op = "addy" -> Put("addy", x, y + x[1], m, d) [] op = "suby" -> Put("suby", x, y - x[1], m, d)
    [] op = "addm" -> Put("addm", x, y, m + x[1], d) [] op = "addd" -> Put("addd", x, y, m, d + x[1])
    [] op = "plus" -> y + x[1] \in (0 - 32768)..32767 /\ Ask("plus", x, <<y + x[1], y + x[1]>>)
    [] op = "leap" -> Ask("leap", <<>>, Leap(y)) [] op = "ok" -> Ask("ok", <<>>, <<Ok[1], Ok[2], Ok[3], Ok[1] /\ Ok[2] /\ Ok[3]>>)
    [] op = "last" -> Last [] op = "rat" -> Rat(x[1], x[2], x[3]) [] op = "end" -> End [] OTHER -> FALSE
Next == \/ \E op \in {"end", "leap", "ok", "last"} : Do(op, <<>>)
        \/ y = 0 /\ m = 0 /\ d = 0 /\ \E a \in Years, b \in 0..13, c \in {0, 1, 31, 32} : Do("set", <<a, b, c>>)
        \/ Do("set", <<0, 0, 0>>)
        \/ y \in Years /\ \E k \in Small, op \in {"addy", "suby", "plus"} : Do(op, <<k>>)
        \/ y = 0 /\ m = 0 /\ d = 0 /\ \E o \in {"mul", "div", "add", "gcd", "lcm"}, i \in 1..8, j \in 1..8 : Do("rat", <<o, i, j>>)
TypeOK == y \in (0 - 32768)..32767 /\ m \in 0..255 /\ d \in 0..255
\* four hundred years have ninety-seven leap years
ASSUME \A b \in {0 - 400, 0, 1970} : Cardinality({i \in b..(b + 399) : Leap(i)}) = 97
=============================================================================
