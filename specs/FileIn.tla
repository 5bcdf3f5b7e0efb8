------------------------------- MODULE FileIn -------------------------------
(* A file read through the stream over it, its buffer, the virtual buffer over that, and by C code
   besides.  cfg = <<kind, text>>: "file", "pipe" (which comes in pieces and does not seek), "none" (no buffer of its own).
   pos is the position of the file itself: whoever reads, each byte is read once, in order.
   st is the state: 1 bad, 2 fail, 4 eof; -1 is end of file.  Unformatted reads give gcount() too.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN
VARIABLES cfg, pos, st, dead, act
vars == <<cfg, pos, st, dead, act>>
T == cfg[2]
Key == <<cfg, pos, st, dead>>
Left == Len(T) - pos
Cur == IF Left > 0 THEN T[pos + 1] ELSE 0 - 1
Min(p, q) == IF p < q THEN p ELSE q
Bit(s, b) == (s \div b) % 2 = 1
Or(s, t) == (IF Bit(s, 1) \/ Bit(t, 1) THEN 1 ELSE 0) + (IF Bit(s, 2) \/ Bit(t, 2) THEN 2 ELSE 0) + (IF Bit(s, 4) \/ Bit(t, 4) THEN 4 ELSE 0)
Less(s, t) == s - (IF Bit(s, 1) /\ Bit(t, 1) THEN 1 ELSE 0) - (IF Bit(s, 2) /\ Bit(t, 2) THEN 2 ELSE 0) - (IF Bit(s, 4) /\ Bit(t, 4) THEN 4 ELSE 0)
Good == st = 0
Space(c) == c \in {32, 9, 10, 11, 12, 13}
Obs == IF dead THEN [z |-> 1] ELSE
  [ pos |-> pos, st |-> st, good |-> Good, fail |-> Bit(st, 2) \/ Bit(st, 1), bad |-> Bit(st, 1), eof |-> Bit(st, 4), ok |-> ~(Bit(st, 2) \/ Bit(st, 1)) ]
InitCfg(c) == cfg = c /\ pos = 0 /\ st = 0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ pos' = 0 /\ st' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Go(op, x, p, s, r) == pos' = p /\ st' = s /\ UNCHANGED <<cfg, dead>> /\ act' = [op |-> op, a |-> x, r |-> r]
Get == IF Left > 0 THEN Go("get", <<>>, pos + 1, st, <<Cur, 1>>) ELSE Go("get", <<>>, pos, Or(st, 6), <<0 - 1, 0>>)
Peek == Go("peek", <<>>, pos, st, <<IF Good THEN Cur ELSE 0 - 1, 0>>)
Read(n) == LET k == Min(n, Left) IN
           Go("read", <<n>>, pos + k, IF k < n THEN Or(st, 6) ELSE st, <<SubSeq(T, pos + 1, pos + k), k>>)
\* the first place at or after p where the delimiter is, else the end
RECURSIVE Find(_, _)
Find(p, c) == IF p >= Len(T) \/ T[p + 1] = c THEN p ELSE Find(p + 1, c)
\* n is the room including the terminator
GetLine(n, c) ==
  LET e == Find(pos, c)
      k == Min(e - pos, n - 1)               \* stored
      full == k < e - pos
      delim == ~full /\ e < Len(T)
      x == IF delim THEN k + 1 ELSE k
      s1 == IF ~full /\ ~delim THEN Or(st, 4) ELSE IF full THEN Or(st, 2) ELSE st
      s2 == IF x = 0 THEN Or(s1, 2) ELSE s1 IN
  n >= 1 /\ Go("getline", <<n, c>>, pos + x, s2, <<SubSeq(T, pos + 1, pos + k), x>>)
\* c = -1: no delimiter
Ignore(n, c) ==
  LET e == IF c = 0 - 1 THEN Len(T) ELSE Find(pos, c)
      want == IF e < Len(T) THEN e + 1 - pos ELSE n
      k == Min(n, Min(want, Left)) IN
  Go("ignore", <<n, c>>, pos + k, IF k < Min(n, want) THEN Or(st, 4) ELSE st, k)
Clear(s) == Go("clear", <<s>>, pos, s, 0)
\* ---- formatted
RECURSIVE Skip(_)
Skip(p) == IF p < Len(T) /\ Space(T[p + 1]) THEN Skip(p + 1) ELSE p
Ws == Go("ws", <<>>, IF Good THEN Skip(pos) ELSE pos, st, 0)
Char == IF ~Good THEN Go("char", <<>>, pos, Or(st, 2), 0 - 1)
        ELSE LET p == Skip(pos) IN
             IF p < Len(T) THEN Go("char", <<>>, p + 1, st, T[p + 1]) ELSE Go("char", <<>>, p, Or(st, 6), 0 - 1)
RECURSIVE Word(_)
Word(p) == IF p < Len(T) /\ ~Space(T[p + 1]) THEN Word(p + 1) ELSE p
\* a number: what else is in the state is kept
RECURSIVE Digits(_)
Digits(p) == IF p < Len(T) /\ T[p + 1] \in 48..57 THEN Digits(p + 1) ELSE p
RECURSIVE Value(_, _)
Value(p, q) == IF q = p THEN 0 ELSE 10 * Value(p, q - 1) + (T[q] - 48)
Num == IF ~Good THEN Go("num", <<>>, pos, Or(st, 2), 0 - 1)
       ELSE LET b == Skip(pos) e == Digits(b) IN
            /\ e - b <= 8 /\ (b < Len(T) => T[b + 1] # 45)
            /\ IF e = b THEN Go("num", <<>>, b, Or(st, IF b = Len(T) THEN 6 ELSE 2), 0 - 1)
               ELSE Go("num", <<>>, e, IF e = Len(T) THEN Or(st, 4) ELSE st, Value(b, e))
\* an iterator from here to the end
Loop == Left > 0 /\ Go("loop", <<>>, Len(T), st, SubSeq(T, pos + 1, Len(T)))
\* ---- the buffer itself, and the file read by others
SGet == Go("sgetc", <<>>, pos, st, Cur)
Bump == Go("sbumpc", <<>>, IF Left > 0 THEN pos + 1 ELSE pos, st, Cur)
Nextc == Go("snextc", <<>>, IF Left > 0 THEN pos + 1 ELSE pos, st, IF Left > 1 THEN T[pos + 2] ELSE 0 - 1)
Sgetn(n) == LET k == Min(n, Left) IN Go("sgetn", <<n>>, pos + k, st, SubSeq(T, pos + 1, pos + k))
Cget == Go("fgetc", <<>>, IF Left > 0 THEN pos + 1 ELSE pos, st, Cur)
Vgetn(n) == LET k == Min(n, Left) IN Go("vgetn", <<n>>, pos + k, st, SubSeq(T, pos + 1, pos + k))
Sync == Go("sync", <<>>, pos, st, 0)
End == pos' = 0 /\ st' = 0 /\ dead' = TRUE /\ cfg' = cfg /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Do(op, x) == ~dead /\
  CASE op = "get" -> Get [] op = "peek" -> Peek [] op = "read" -> Read(x[1])
    [] op = "getline" -> GetLine(x[1], x[2]) [] op = "ignore" -> Ignore(x[1], x[2]) [] op = "clear" -> Clear(x[1]) [] op = "ws" -> Ws [] op = "char" -> Char
    [] op = "num" -> Num [] op = "sync" -> Sync [] op = "sgetc" -> SGet [] op = "sbumpc" -> Bump [] op = "snextc" -> Nextc [] op = "sgetn" -> Sgetn(x[1])
    [] op = "fgetc" -> Cget [] op = "loop" -> Loop [] op = "vgetn" -> Vgetn(x[1]) [] op = "end" -> End [] OTHER -> FALSE
Next == \/ \E op \in {"get", "peek", "ws", "char", "num", "sync", "sgetc", "sbumpc", "snextc", "fgetc", "loop", "end"} : Do(op, <<>>)
        \/ \E n \in 0..MaxN, op \in {"read", "sgetn", "vgetn"} : Do(op, <<n>>)
        \/ \E n \in 1..MaxN, c \in {10, 97, 255} : Do("getline", <<n, c>>)
        \/ \E n \in 0..MaxN, c \in {0 - 1, 97, 255} : Do("ignore", <<n, c>>)
        \/ Do("clear", <<0>>)
TypeOK == pos \in 0..Len(T) /\ st \in 0..7
Monotone == [][act'.op \notin {"reset", "end"} => pos' >= pos]_vars
Sticky == [][act'.op \notin {"reset", "clear", "end"} => Or(st, st') = st']_vars
\* what an unformatted read returns and counts is what it consumed
Counted == [][act'.op \in {"read"} => act'.r[2] = pos' - pos /\ act'.r[1] = SubSeq(T, pos + 1, pos')]_vars
=============================================================================
