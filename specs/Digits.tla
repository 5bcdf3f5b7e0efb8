------------------------------- MODULE Digits -------------------------------
\* numerals of any size, given by their hexadecimal digits
EXTENDS Integers, Sequences
RECURSIVE Twice(_, _, _)
Twice(s, b, c) == IF s = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                  ELSE LET q == 2 * s[Len(s)] + c IN Append(Twice(SubSeq(s, 1, Len(s) - 1), b, q \div b), q % b)
RECURSIVE ToBase(_, _)
\* from hexadecimal digits, without leading zeros
ToBase(h, b) == IF h = <<>> THEN <<>> ELSE
  LET v == h[Len(h)] s == ToBase(SubSeq(h, 1, Len(h) - 1), b)
  IN Twice(Twice(Twice(Twice(s, b, (v \div 8) % 2), b, (v \div 4) % 2), b, (v \div 2) % 2), b, v % 2)
Char(v, u) == IF v < 10 THEN 48 + v ELSE IF u THEN 55 + v ELSE 87 + v
Text(neg, h, b, u) == LET s == ToBase(h, b)
                          t == IF s = <<>> THEN <<48>> ELSE [i \in 1..Len(s) |-> Char(s[i], u)] IN
                      IF neg /\ s # <<>> THEN <<45>> \o t ELSE t
Rep(n, c) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Pad(t, w, f, l) == IF l THEN t \o Rep(w - Len(t), f) ELSE Rep(w - Len(t), f) \o t
=============================================================================
