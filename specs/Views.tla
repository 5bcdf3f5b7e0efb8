-------------------------------- MODULE Views --------------------------------
(* Spans and arrays over n elements of two bytes.
   cfg = <<kind, n>>: a span "dyn" of elements, "cdyn" of constant elements (the current window is
   off, off+len); arrays "arr", "un" (elements not constructed), "l2" (pointer to a buffer of known
   size), "l3" (pointer and size) - their window is everything.                                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals
VARIABLES cfg, b, off, len, dead, act
vars == <<cfg, b, off, len, dead, act>>
Key == <<cfg, b, off, len, dead>>
Kind == cfg[1]
N == cfg[2]
IsSpan == Kind \in {"dyn", "cdyn"}
Writes == Kind # "cdyn"
Win == SubSeq(b, off + 1, off + len)
Bytes(t) == [i \in 1..(2 * Len(t)) |-> IF i % 2 = 1 THEN t[(i + 1) \div 2] % 256 ELSE t[i \div 2] \div 256]
Obs == IF dead THEN [z |-> 1] ELSE
  IF N > 1000 THEN LET w == IF len = 0 THEN <<>> ELSE <<b[off + 1], b[off + 1 + len \div 2], b[off + len]>> IN [ n |-> len, e |-> (len = 0), at |-> w, it |-> w, off |-> off, by |-> 2 * len ]
  ELSE [ n |-> len, e |-> (len = 0), at |-> Win, it |-> Win, cit |-> Win, off |-> (IF IsSpan THEN off ELSE 0),
    by |-> IF IsSpan THEN Bytes(Win) ELSE <<>>,
    f |-> IF IsSpan THEN 0 ELSE b[1], l |-> IF Kind \in {"arr", "un", "l3"} THEN b[N] ELSE 0, buf |-> b ]
B0(c) == [i \in 1..c[2] |-> i % 65536]
InitCfg(c) == cfg = c /\ b = B0(c) /\ off = 0 /\ len = c[2] /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ b' = B0(c) /\ off' = 0 /\ len' = c[2] /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Go(op, a, o, n) == IsSpan /\ off' = o /\ len' = n /\ UNCHANGED <<cfg, b, dead>> /\ act' = [op |-> op, a |-> a, r |-> 0]
Wr(op, a, new) == Writes /\ b' = new /\ UNCHANGED <<cfg, off, len, dead>> /\ act' = [op |-> op, a |-> a, r |-> 0]
Ask(op, a, r) == UNCHANGED <<cfg, b, off, len, dead>> /\ act' = [op |-> op, a |-> a, r |-> r]
First(op, n) == n \in 0..len /\ Go(op, <<n>>, off, n)
Sub(o, n) == o \in 0..len /\ n \in 0..(len - o) /\ Go("sub", <<o, n>>, off + o, n)
SubRest(o) == o \in 0..len /\ Go("subd", <<o>>, off + o, len - o)
\* another span made from this one, or from two pointers, or a pointer and a count, or assigned
Via(f) == f \in {"copy", "ptrs", "count", "assign"} /\ Go("via", <<f>>, off, len)
\* everything again: from the array, or a span of fixed size
Whole(f) == f \in {"array", "fixed", "ffirst"} /\ Go("whole", <<f>>, 0, N)
Set(i, v) == i \in 0..(len - 1) /\ Wr("wr", <<i, v>>, [b EXCEPT ![off + i + 1] = v])
SetByte(i, v) == Kind = "dyn" /\ i \in 0..(2 * len - 1) /\ v \in 0..255
  /\ Wr("wrb", <<i, v>>, [b EXCEPT ![off + (i \div 2) + 1] = IF i % 2 = 0 THEN 256 * (@ \div 256) + v ELSE 256 * v + (@ % 256)])
FrontW(v) == ~IsSpan /\ Wr("front", <<v>>, [b EXCEPT ![1] = v])
BackW(v) == Kind \in {"arr", "un", "l3"} /\ Wr("back", <<v>>, [b EXCEPT ![N] = v])
FillW(v) == Kind \in {"arr", "un"} /\ Wr("fill", <<v>>, [i \in 1..N |-> v])
Eq(t) == Kind \in {"arr", "un"} /\ Len(t) = N /\ Ask("eq", <<t>>, t = b)
\* arrays are values: a copy changes and this one does not
Copy(i, v) == Kind \in {"arr", "un"} /\ i \in 0..(N - 1) /\ Ask("copy", <<i, v>>, [b EXCEPT ![i + 1] = v])
Assign(t) == Kind \in {"arr", "un"} /\ Len(t) = N /\ Wr("assign", <<t>>, t)
FromC(t) == Kind = "arr" /\ Len(t) = N /\ Wr("toarray", <<t>>, t)
End == dead' = TRUE /\ UNCHANGED <<cfg, b, off, len>> /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Do(op, x) == ~dead /\
  CASE op \in {"first", "tfirst"} -> First(op, x[1]) [] op = "sub" -> Sub(x[1], x[2]) [] op = "subd" -> SubRest(x[1]) [] op = "via" -> Via(x[1]) [] op = "whole" -> Whole(x[1])
    [] op = "wr" -> Set(x[1], x[2]) [] op = "wrb" -> SetByte(x[1], x[2]) [] op = "front" -> FrontW(x[1]) [] op = "back" -> BackW(x[1]) [] op = "fill" -> FillW(x[1])
    [] op = "eq" -> Eq(x[1]) [] op = "copy" -> Copy(x[1], x[2]) [] op = "assign" -> Assign(x[1]) [] op = "toarray" -> FromC(x[1]) [] op = "end" -> End [] OTHER -> FALSE
P == 0..N
Ts == [1..N -> Vals]
Next == \/ Do("end", <<>>)
        \/ \E n \in P : Do("first", <<n>>) \/ Do("tfirst", <<n>>) \/ Do("subd", <<n>>) \/ \E m \in P : Do("sub", <<n, m>>)
        \/ \E f \in {"copy", "ptrs", "count", "assign"} : Do("via", <<f>>)
        \/ \E f \in {"array", "fixed", "ffirst"} : Do("whole", <<f>>)
        \/ \E i \in P, v \in Vals : Do("wr", <<i, v>>) \/ Do("copy", <<i, v>>)
        \/ \E i \in {0, 1, 2 * N - 1} : Do("wrb", <<i, 1>>)
        \/ \E v \in Vals, op \in {"front", "back", "fill"} : Do(op, <<v>>)
        \/ \E t \in Ts, op \in {"eq", "assign", "toarray"} : Do(op, <<t>>)
TypeOK == off \in 0..N /\ len \in 0..(N - off) /\ (~IsSpan => off = 0 /\ len = N)
\* nothing outside the window changes
Inside == [][act'.op # "reset" => \A i \in 1..N : b'[i] # b[i] => i > off /\ i <= off + len]_vars
=============================================================================
