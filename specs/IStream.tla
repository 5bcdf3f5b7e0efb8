------------------------------- MODULE IStream -------------------------------
(* An input stream over a character sequence.  cfg = <<kind, text>>: "l1", "l1n" (layer1 string buffers),
   "l2" (layer2 C string), "span", "nosync" (a span which cannot be synchronized).  Characters are codes 0..255; a result of -1 is end of file.
   st is the state: 1 bad, 2 fail, 4 eof.  Results of unformatted reads carry gcount().      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN
VARIABLES cfg, pos, st, dead, act
vars == <<cfg, pos, st, dead, act>>
T == cfg[2]
Key == <<cfg, pos, st, dead>>
Left == Len(T) - pos
Cur == IF Left > 0 THEN T[pos + 1] ELSE 0 - 1
Min(p, q) == IF p < q THEN p ELSE q
Bit(s, b) == (s \div b) % 2 = 1
Or(s, t) == (IF Bit(s, 1) \/ Bit(t, 1) THEN 1 ELSE 0) + (IF Bit(s, 2) \/ Bit(t, 2) THEN 2 ELSE 0) + (IF Bit(s, 4) \/ Bit(t, 4) THEN 4 ELSE 0)
Less(s, t) == s - (IF Bit(s, 1) /\ Bit(t, 1) THEN 1 ELSE 0) - (IF Bit(s, 2) /\ Bit(t, 2) THEN 2 ELSE 0) - (IF Bit(s, 4) /\ Bit(t, 4) THEN 4 ELSE 0)
Good == st = 0
Space(c) == c \in {32, 9, 10, 11, 12, 13}
Obs == IF dead THEN [z |-> 1] ELSE
  [ left |-> Left, st |-> st, good |-> Good, fail |-> Bit(st, 2) \/ Bit(st, 1), bad |-> Bit(st, 1), eof |-> Bit(st, 4), ok |-> ~(Bit(st, 2) \/ Bit(st, 1)) ]
InitCfg(c) == cfg = c /\ pos = 0 /\ st = 0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ pos' = 0 /\ st' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Go(op, x, p, s, r) == pos' = p /\ st' = s /\ UNCHANGED <<cfg, dead>> /\ act' = [op |-> op, a |-> x, r |-> r]
Get == IF Left > 0 THEN Go("get", <<>>, pos + 1, st, <<Cur, 1>>) ELSE Go("get", <<>>, pos, Or(st, 6), <<0 - 1, 0>>)
Peek == Go("peek", <<>>, pos, st, <<IF Good THEN Cur ELSE 0 - 1, 0>>)
Unget == IF pos > 0 THEN Go("unget", <<>>, pos - 1, Less(st, 4), 0) ELSE Go("unget", <<>>, pos, Or(Less(st, 4), 1), 0)
Read(n) == LET k == Min(n, Left) IN
           Go("read", <<n>>, pos + k, IF k < n THEN Or(st, 6) ELSE st, <<SubSeq(T, pos + 1, pos + k), k>>)
ReadSome(n) == IF Left = 0 THEN Go("readsome", <<n>>, pos, Or(st, 4), <<<<>>, 0>>)
               ELSE LET k == Min(n, Left) IN Go("readsome", <<n>>, pos + k, st, <<SubSeq(T, pos + 1, pos + k), k>>)
\* the first place at or after p where the delimiter is, else the end
RECURSIVE Find(_, _)
Find(p, c) == IF p >= Len(T) \/ T[p + 1] = c THEN p ELSE Find(p + 1, c)
\* n is the room including the terminator
GetLine(n, c) ==
  LET e == Find(pos, c)
      k == Min(e - pos, n - 1)               \* stored
      full == k < e - pos
      delim == ~full /\ e < Len(T)
      x == IF delim THEN k + 1 ELSE k
      s1 == IF ~full /\ ~delim THEN Or(st, 4) ELSE IF full THEN Or(st, 2) ELSE st
      s2 == IF x = 0 THEN Or(s1, 2) ELSE s1 IN
  n >= 1 /\ Go("getline", <<n, c>>, pos + x, s2, <<SubSeq(T, pos + 1, pos + k), x>>)
\* c = -1: no delimiter
Ignore(n, c) ==
  LET e == IF c = 0 - 1 THEN Len(T) ELSE Find(pos, c)
      want == IF e < Len(T) THEN e + 1 - pos ELSE n
      k == Min(n, Min(want, Left)) IN
  Go("ignore", <<n, c>>, pos + k, IF k < Min(n, want) THEN Or(st, 4) ELSE st, k)
Seek(off, dir) == LET t == (IF dir = 0 THEN 0 ELSE IF dir = 1 THEN Len(T) ELSE pos) + off
                      s == Less(st, 6) IN
                  IF t \in 0..Len(T) THEN Go("seekg", <<off, dir>>, t, s, 0) ELSE Go("seekg", <<off, dir>>, pos, Or(s, 2), 0)
Clear(s) == Go("clear", <<s>>, pos, s, 0)
SetState(s) == Go("setstate", <<s>>, pos, Or(st, s), 0)
\* ---- formatted
RECURSIVE Skip(_)
Skip(p) == IF p < Len(T) /\ Space(T[p + 1]) THEN Skip(p + 1) ELSE p
Ws == Go("ws", <<>>, IF Good THEN Skip(pos) ELSE pos, st, 0)
Char == IF ~Good THEN Go("char", <<>>, pos, Or(st, 2), 0 - 1)
        ELSE LET p == Skip(pos) IN
             IF p < Len(T) THEN Go("char", <<>>, p + 1, st, T[p + 1]) ELSE Go("char", <<>>, p, Or(st, 6), 0 - 1)
RECURSIVE Word(_)
Word(p) == IF p < Len(T) /\ ~Space(T[p + 1]) THEN Word(p + 1) ELSE p
\* into a string which holds n
Str(n) == IF ~Good THEN Go("str", <<n>>, pos, Or(st, 2), <<[i \in 1..n |-> 63]>>)
          ELSE LET b == Skip(pos)
                   e == Min(Word(b), b + n)
                   end == e = Len(T) IN
               Go("str", <<n>>, e, IF ~end THEN st ELSE IF e = b THEN Or(st, 6) ELSE Or(st, 4), <<SubSeq(T, b + 1, e)>>)
Sync == Go("sync", <<>>, pos, IF cfg[1] = "nosync" THEN Or(st, 1) ELSE st, 0)
End == pos' = 0 /\ st' = 0 /\ dead' = TRUE /\ cfg' = cfg /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Do(op, x) == ~dead /\
  CASE op = "get" -> Get [] op = "peek" -> Peek [] op = "unget" -> Unget [] op = "read" -> Read(x[1]) [] op = "readsome" -> ReadSome(x[1])
    [] op = "getline" -> GetLine(x[1], x[2]) [] op = "ignore" -> Ignore(x[1], x[2]) [] op = "seekg" -> Seek(x[1], x[2])
    [] op = "clear" -> Clear(x[1]) [] op = "setstate" -> SetState(x[1]) [] op = "ws" -> Ws [] op = "char" -> Char
    [] op = "str" -> Str(x[1]) [] op = "sync" -> Sync [] op = "end" -> End [] OTHER -> FALSE
StrN == {3, 7}
Next == \/ \E op \in {"get", "peek", "unget", "ws", "char", "sync", "end"} : Do(op, <<>>)
        \/ \E n \in 0..MaxN, op \in {"read", "readsome"} : Do(op, <<n>>)
        \/ \E n \in 1..MaxN, c \in {10, 97, 255} : Do("getline", <<n, c>>)
        \/ \E n \in 0..MaxN, c \in {0 - 1, 97, 255} : Do("ignore", <<n, c>>)
        \/ \E off \in (0 - MaxN)..MaxN, d \in 0..2 : Do("seekg", <<off, d>>)
        \/ \E n \in StrN : Do("str", <<n>>)
        \/ \E s \in {0, 1, 2, 4} : Do("clear", <<s>>)
        \/ \E s \in {1, 2, 4} : Do("setstate", <<s>>)
TypeOK == pos \in 0..Len(T) /\ st \in 0..7
\* only unget and seekg go back; error states are only ever cleared by clear, unget (eof) and seekg
Monotone == [][~dead' /\ act'.op \notin {"reset", "unget", "seekg", "end"} => pos' >= pos]_vars
Sticky == [][~dead' /\ act'.op \notin {"reset", "clear", "seekg", "unget", "end"} => Or(st, st') = st']_vars
\* what an unformatted read returns and counts is what it consumed
Counted == [][act'.op \in {"read", "readsome"} => act'.r[2] = pos' - pos /\ act'.r[1] = SubSeq(T, pos + 1, pos')]_vars
=============================================================================
