-------------------------------- MODULE StrTo --------------------------------
(* Whole strings to numbers: stol, stoul, stoi of a null-terminated string.
   cfg = <<kind>>: "l1", "l1w" (layer1, small and wide), "l2".
   White space, a sign, 0x for base 16, then the longest run of digits; base 0 takes the base from
   the digits (0x 16, 0 8, otherwise 10).  The value saturates (stoul: a minus negates modulo 2^64);
   with no digit at all it is 0 and nothing is consumed.  stoi is claimed within int only.          *)
EXTENDS Integers, Sequences, TLC, Wide
CONSTANTS Alphabet, MaxLen, Bases
VARIABLES cfg, dead, act
vars == <<cfg, dead, act>>
Key == <<cfg, dead>>
Space(c) == c = 32 \/ c \in 9..13
Value(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..90 THEN c - 55 ELSE IF c \in 97..122 THEN c - 87 ELSE 99
At(T, i) == IF i \in 1..Len(T) THEN T[i] ELSE 0
RECURSIVE SkipSpace(_, _)
SkipSpace(T, i) == IF Space(At(T, i)) THEN SkipSpace(T, i + 1) ELSE i
RECURSIVE Run(_, _, _)
Run(T, i, b) == IF Value(At(T, i)) < b THEN Run(T, i + 1, b) ELSE i
RECURSIVE Num(_, _, _, _, _)
Num(T, i, j, b, w) == IF i = j THEN w ELSE Num(T, i + 1, j, b, WAdd(WMul(w, b), Of(Value(T[i]))))
\* <<value without limits, characters consumed, anything?>>
Parse(T, b0) ==
  LET i == SkipSpace(T, 1)
      neg == At(T, i) = 45
      j == IF At(T, i) \in {43, 45} THEN i + 1 ELSE i
      hex == b0 \in {0, 16} /\ At(T, j) = 48 /\ At(T, j + 1) \in {88, 120} /\ Value(At(T, j + 2)) < 16
      b == IF b0 # 0 THEN b0 ELSE IF hex THEN 16 ELSE IF At(T, j) = 48 THEN 8 ELSE 10
      k == IF hex THEN j + 2 ELSE j
      e == Run(T, k, b)
      w == Num(T, k, e, b, WZero)
  IN IF e = k THEN <<WZero, 0>> ELSE <<IF neg THEN WNeg(w) ELSE w, e - 1>>
Long == <<TRUE, 64>>
ULong == <<FALSE, 64>>
IntRep == <<TRUE, 32>>
Sat(w, rep) == IF WFits(w, rep) THEN w ELSE IF w[1] = 1 THEN WMin(rep) ELSE WMax(rep)
USat(w) == IF WLess(WAbs(w), WPow2(64)) THEN (IF w[1] = 1 THEN WAdd(w, WPow2(64)) ELSE w) ELSE WMax(ULong)
Obs == IF dead THEN [z |-> 1] ELSE [zz |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Cap == IF cfg[1] = "l1" THEN 15 ELSE 100
\* a = <<text, base, whether the position is asked for>>
To(op, a) ==
  LET p == Parse(a[1], a[2])
      v == IF op = "stol" THEN Sat(p[1], Long) ELSE IF op = "stoul" THEN USat(p[1]) ELSE p[1]
  IN /\ Len(a[1]) <= Cap /\ (op = "stoi" => WFits(p[1], IntRep))
     /\ UNCHANGED <<cfg, dead>>
     /\ Ret(op, a, <<v, IF a[3] THEN p[2] ELSE -1, a[1]>>)   \* the string itself stays as it was
End == dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)
Do(op, a) == ~dead /\
  CASE op \in {"stol", "stoul", "stoi"} -> To(op, a)
    [] op = "end" -> End
    [] OTHER -> FALSE
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Next ==
  \/ \E T \in Texts, b \in Bases, op \in {"stol", "stoul", "stoi"} : Do(op, <<T, b, TRUE>>)
  \/ \E T \in {<<45, 49>>, <<>>}, op \in {"stol", "stoul", "stoi"} : Do(op, <<T, 10, FALSE>>)
  \/ Do("end", <<>>)
TypeOK == dead \in BOOLEAN
Consumes == [][act'.op \in {"stol", "stoul", "stoi"} => act'.r[2] <= Len(act'.a[1])]_vars
=============================================================================
