-------------------------------- MODULE Ctype --------------------------------
(* Classes of characters and their values as digits, by ASCII.
   cfg = <<"char", code>>: one character, 0..255, as ctype, cctype and cbase see it;
   cfg = <<"value", v>>: one digit's value, as cbase writes it.
   A base is compiled in (b) and may be narrowed at run time (rb <= b, on the same side of 10). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Masks
VARIABLES cfg, dead, act
vars == <<cfg, dead, act>>
Key == <<cfg, dead>>
Kind == cfg[1]
C == cfg[2]
Obs == IF dead THEN [z |-> 1] ELSE [c |-> C]
InitCfg(c) == cfg = c /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ask(op, a, r) == UNCHANGED <<cfg, dead>> /\ act' = [op |-> op, a |-> a, r |-> r]

Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Alpha(c) == Upper(c) \/ Lower(c)
Space(c) == c \in 9..13 \/ c = 32
XDigit(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
Punct(c) == c \in 33..126 /\ ~Digit(c) /\ ~Alpha(c)
\* what a character counts as a digit; -1 for none
Val(c) == IF Digit(c) THEN c - 48 ELSE IF Upper(c) THEN c - 55 ELSE IF Lower(c) THEN c - 87 ELSE 0 - 1
Dig(v, up) == IF v < 10 THEN 48 + v ELSE IF up THEN 55 + v ELSE 87 + v

Names == <<"space", "digit", "alpha", "punct", "upper", "lower", "xdigit", "alnum", "graph">>
InClass(k, c) ==
  CASE k = "space" -> Space(c) [] k = "digit" -> Digit(c) [] k = "alpha" -> Alpha(c) [] k = "punct" -> Punct(c)
    [] k = "upper" -> Upper(c) [] k = "lower" -> Lower(c) [] k = "xdigit" -> XDigit(c)
    [] k = "alnum" -> Alpha(c) \/ Digit(c) [] k = "graph" -> Alpha(c) \/ Digit(c) \/ Punct(c)
\* ctype: any of several classes
Is(ks) == Kind = "char" /\ (\A i \in 1..Len(ks) : \E j \in 1..Len(Names) : Names[j] = ks[i])
  /\ Ask("is", ks, \E i \in 1..Len(ks) : InClass(ks[i], C))
Asks == {"isspace", "isupper", "islower", "lspace", "widen", "cspace", "cupper", "clower", "calpha", "cdigit"}
One(op) == Kind = "char" /\ op \in Asks
  /\ Ask(op, <<>>, CASE op \in {"isspace", "lspace", "cspace"} -> Space(C) [] op \in {"isupper", "cupper"} -> Upper(C)
       [] op \in {"islower", "clower"} -> Lower(C) [] op = "calpha" -> Alpha(C) [] op = "cdigit" -> Digit(C) [] op = "widen" -> C)
Bases == {2, 8, 10, 11, 16, 36}
Narrow(b) == IF b <= 10 THEN 2..b ELSE 11..b
InBase(c, b) == Val(c) \in 0..(b - 1)
In(b, rb) == Kind = "char" /\ b \in Bases /\ rb \in Narrow(b) /\ Ask("in", <<b, rb>>, InBase(C, rb))
From(b, rb) == Kind = "char" /\ b \in Bases /\ rb \in Narrow(b) /\ Ask("from", <<b, rb>>, IF InBase(C, rb) THEN Val(C) ELSE 0 - 1)
\* without checking: only for what is in the base
Raw(b) == Kind = "char" /\ b \in Bases /\ InBase(C, b) /\ Ask("raw", <<b>>, Val(C))
To(b, cs) == Kind = "value" /\ b \in Bases /\ C \in 0..(b - 1) /\ cs \in {"lower", "upper", "dlower", "dupper"}
  /\ Ask("to", <<b, cs>>, Dig(C, cs \in {"upper", "dupper"}))
End == ~dead /\ dead' = TRUE /\ UNCHANGED cfg /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]

Do(op, a) ==
  /\ ~dead
  /\ CASE op = "is" -> Is(a) [] op \in Asks -> One(op) [] op = "in" -> In(a[1], a[2]) [] op = "from" -> From(a[1], a[2])
       [] op = "raw" -> Raw(a[1]) [] op = "to" -> To(a[1], a[2]) [] op = "end" -> End [] OTHER -> FALSE
Next == ~dead /\ (End \/ (\E m \in Masks : Is(m)) \/ (\E op \in Asks : One(op))
  \/ (\E b \in Bases : Raw(b) \/ (\E rb \in Narrow(b) : In(b, rb) \/ From(b, rb)) \/ (\E cs \in {"lower", "upper", "dlower", "dupper"} : To(b, cs))))
\* what is written is read back, and nothing else is
RoundTrip == Kind = "value" /\ C \in 0..35 => \A up \in BOOLEAN : Val(Dig(C, up)) = C /\ InBase(Dig(C, up), C + 1) /\ ~InBase(Dig(C, up), C)
\* every ASCII character is exactly one of control, space, digit, upper, lower, punct
Partition == Kind = "char" /\ C \in 32..126 => Cardinality({i \in {1, 2, 4, 5, 6} : InClass(Names[i], C)}) = 1
TypeOK == Kind \in {"char", "value"} /\ C \in 0..255
=============================================================================
