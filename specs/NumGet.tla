------------------------------- MODULE NumGet -------------------------------
(* Reading numbers from characters.  Four forms:
   cfg = <<"iter", type, base>>   the incremental parser, fed one character at a time
   cfg = <<"range", text>>        num_get over a character range
   cfg = <<"chars", text>>        from_chars over a character range, in any base
   cfg = <<kind, text>>           operator>> of an input stream ("l1", "l2", "span")
   Types: i8..i64, u8..u64, b (bool), f, d.  A number is <<negative, digits>> in its base
   without leading zeros, so any width fits.  Errors: 2 fail, 4 end of input.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Feed, ReadTypes, FromTypes, Bases
VARIABLES cfg, pos, st, base, alpha, ph, neg, dig, dead, act
vars == <<cfg, pos, st, base, alpha, ph, neg, dig, dead, act>>
Key == <<cfg, pos, st, base, alpha, ph, neg, dig, dead>>
Iter == cfg[1] = "iter"
Range == cfg[1] = "range"
Chars == cfg[1] = "chars"
Stream == ~Iter /\ ~Range /\ ~Chars
Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
Bits == [i8 |-> 8, u8 |-> 8, i16 |-> 16, u16 |-> 16, i32 |-> 32, u32 |-> 32, i64 |-> 64, u64 |-> 64]
Signed(t) == t \in {"i8", "i16", "i32", "i64", "f", "d"}
\* ---- digit sequences, most significant first
RECURSIVE Twice(_, _, _)
Twice(s, b, c) == IF s = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                  ELSE LET x == 2 * s[Len(s)] + c IN Append(Twice(SubSeq(s, 1, Len(s) - 1), b, x \div b), x % b)
RECURSIVE Pow2(_, _)
Pow2(n, b) == IF n = 0 THEN <<1>> ELSE Twice(Pow2(n - 1, b), b, 0)
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> \/ s[1] # 0 THEN s ELSE Strip(Tail(s))
RECURSIVE Less1(_, _)
Less1(s, b) == IF s[Len(s)] > 0 THEN [s EXCEPT ![Len(s)] = @ - 1] ELSE Append(Less1(SubSeq(s, 1, Len(s) - 1), b), b - 1)
Limit == [t \in Types |-> [b \in {2, 8, 10, 16, 36} |-> [n \in BOOLEAN |->
            LET p == Pow2(IF Signed(t) THEN Bits[t] - 1 ELSE Bits[t], b) IN IF n THEN p ELSE Strip(Less1(p, b)) ]]]
RECURSIVE SeqLess(_, _)
SeqLess(s, t) == IF s = <<>> THEN FALSE ELSE IF s[1] # t[1] THEN s[1] < t[1] ELSE SeqLess(Tail(s), Tail(t))
Fits(d, t, b, n) == LET m == Limit[t][b][n] IN Len(d) < Len(m) \/ (Len(d) = Len(m) /\ ~SeqLess(m, d))
Value(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..90 THEN c - 55 ELSE IF c \in 97..122 THEN c - 87 ELSE 99
Digit(c, b) == Value(c) < b
Push(d, v) == IF d = <<>> /\ v = 0 THEN <<>> ELSE Append(d, v)
\* ---- one character of an integer: the phase is start, sign, digits, over; result: next phase, negative,
\*      digits, done, fail
Step(p, n, d, c, t, b) ==
  IF p = "start" /\ c = 45 /\ Signed(t) THEN <<"sign", TRUE, <<>>, FALSE, FALSE>>
  ELSE IF ~Digit(c, b) THEN <<p, n, d, TRUE, p \in {"start", "sign"}>>
  ELSE IF p = "over" THEN <<p, n, d, FALSE, FALSE>>
  ELSE LET e == Push(d, Value(c)) IN
       IF Fits(e, t, b, n) THEN <<"digits", n, e, FALSE, FALSE>> ELSE <<"over", n, Limit[t][b][n], FALSE, TRUE>>
Num(n, d) == <<n /\ d # <<>>, d>>
\* ---- a whole field of text T from position p: <<number, error, position>>
RECURSIVE Field(_, _, _, _, _, _, _, _)
Field(T, q, t, b, p, n, d, e) ==
  IF q = Len(T) THEN <<Num(n, d), 4 + (IF e \/ p \in {"start", "sign"} THEN 2 ELSE 0), q>>
  ELSE LET s == Step(p, n, d, T[q + 1], t, b) IN
       IF s[4] THEN <<Num(s[2], s[3]), IF e \/ s[5] THEN 2 ELSE 0, q>>
       ELSE Field(T, q + 1, t, b, s[1], s[2], s[3], e \/ s[5])
\* ---- floating point: value * 10^(decimals)
RECURSIVE Float(_, _, _, _, _, _, _)
Float(T, q, n, any, dot, v, first) ==
  IF q = Len(T) THEN <<IF n THEN 0 - v ELSE v, IF any THEN 4 ELSE 6, q>>
  ELSE LET c == T[q + 1] IN
       IF first /\ c = 45 THEN Float(T, q + 1, TRUE, FALSE, FALSE, 0, FALSE)
       ELSE IF Digit(c, 10) THEN Float(T, q + 1, n, TRUE, dot, 10 * v + Value(c), FALSE)
       ELSE IF c = 46 /\ ~dot THEN Float(T, q + 1, n, any, TRUE, v, FALSE)
       ELSE <<IF n THEN 0 - v ELSE v, IF any THEN 0 ELSE 2, q>>
Digits(T, q) == Len(SelectSeq(SubSeq(T, q + 1, Len(T)), LAMBDA c : Digit(c, 10)))
\* ---- bool
BoolNum(T, q) == IF q = Len(T) THEN <<FALSE, 6, q>>
                 ELSE IF T[q + 1] \in {48, 49} THEN <<T[q + 1] = 49, 0, q + 1>> ELSE <<TRUE, 2, q>>
Names == << <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>> >>
RECURSIVE Match(_, _, _, _)
Match(T, q, m, i) == IF i = Len(m) THEN <<m = Names[1], 0, q>>
                     ELSE IF q = Len(T) THEN <<FALSE, 6, q>>
                     ELSE IF T[q + 1] = m[i + 1] THEN Match(T, q + 1, m, i + 1) ELSE <<FALSE, 2, q>>
BoolName(T, q) == IF q = Len(T) THEN <<FALSE, 6, q>>
                  ELSE IF T[q + 1] = 116 THEN Match(T, q, Names[1], 0) ELSE IF T[q + 1] = 102 THEN Match(T, q, Names[2], 0) ELSE <<FALSE, 2, q>>
Parse(T, q, t) == IF t = "b" THEN (IF alpha THEN BoolName(T, q) ELSE BoolNum(T, q))
                  ELSE IF t \in {"f", "d"} THEN Float(T, q, FALSE, FALSE, FALSE, 0, TRUE)
                  ELSE Field(T, q, t, base, "start", FALSE, <<>>, FALSE)
\* ---------------------------------------------------------------- state
T == IF Iter THEN <<>> ELSE cfg[2]
Or(s, t) == (IF s % 2 = 1 \/ t % 2 = 1 THEN 1 ELSE 0) + (IF (s \div 2) % 2 = 1 \/ (t \div 2) % 2 = 1 THEN 2 ELSE 0) + (IF s \div 4 = 1 \/ t \div 4 = 1 THEN 4 ELSE 0)
Obs == IF dead THEN [z |-> 1]
       ELSE IF Iter THEN [v |-> Num(neg, dig)]
       ELSE [left |-> Len(T) - pos, st |-> st]
Start(c) == cfg' = c /\ pos' = 0 /\ st' = 0 /\ base' = 10 /\ alpha' = FALSE /\ ph' = "start" /\ neg' = FALSE /\ dig' = <<>> /\ dead' = FALSE
InitCfg(c) == cfg = c /\ pos = 0 /\ st = 0 /\ base = 10 /\ alpha = FALSE /\ ph = "start" /\ neg = FALSE /\ dig = <<>> /\ dead = FALSE
              /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == Start(c) /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ev(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Keep == UNCHANGED <<cfg, ph, neg, dig, dead>>
\* incremental: feed a character; done ends the number
FeedC(c) == /\ Iter /\ ph # "done"
            /\ LET s == Step(ph, neg, dig, c, cfg[2], cfg[3]) IN
               /\ ph' = (IF s[4] THEN "done" ELSE s[1]) /\ neg' = s[2] /\ dig' = s[3]
               /\ Ev("feed", <<c>>, <<s[4], s[5]>>)
            /\ UNCHANGED <<cfg, pos, st, base, alpha, dead>>
Again == Iter /\ ph' = "start" /\ neg' = FALSE /\ dig' = <<>> /\ Ev("again", <<>>, 0) /\ UNCHANGED <<cfg, pos, st, base, alpha, dead>>
SetBase(b) == ~Iter /\ ~Chars /\ base' = b /\ Ev("base", <<b>>, 0) /\ Keep /\ UNCHANGED <<pos, st, alpha>>
SetAlpha(f) == ~Iter /\ ~Chars /\ alpha' = f /\ Ev("alpha", <<f>>, 0) /\ Keep /\ UNCHANGED <<pos, st, base>>
Clear == Stream /\ st' = 0 /\ Ev("clear", <<>>, 0) /\ Keep /\ UNCHANGED <<pos, base, alpha>>
Skip == ~Iter /\ pos < Len(T) /\ pos' = pos + 1 /\ Ev("skip", <<>>, 0) /\ Keep /\ UNCHANGED <<st, base, alpha>>
Space(c) == c \in {32, 9, 10, 11, 12, 13}
RECURSIVE Ws(_)
Ws(q) == IF q < Len(T) /\ Space(T[q + 1]) THEN Ws(q + 1) ELSE q
Read(t) ==
  /\ ~Iter /\ ~Chars /\ (t \in {"f", "d"} => Digits(T, pos) <= 6 /\ base = 10)
  /\ IF Range THEN LET f == Parse(T, pos, t) IN pos' = f[3] /\ UNCHANGED st /\ Ev("read", <<t>>, <<f[1], f[2]>>)
     ELSE IF st # 0 THEN pos' = pos /\ st' = Or(st, 2) /\ Ev("read", <<t>>, <<"none">>)
     ELSE LET q == Ws(pos)
              f == Parse(T, q, t) IN
          IF q = Len(T) THEN pos' = q /\ st' = 6 /\ Ev("read", <<t>>, <<"none">>)
          ELSE pos' = f[3] /\ st' = f[2] /\ Ev("read", <<t>>, <<f[1]>>)
  /\ Keep /\ UNCHANGED <<base, alpha>>
\* from_chars leaves the range alone and says where it stopped
From(t, b) ==
  /\ Chars /\ UNCHANGED <<cfg, pos, st, base, alpha, ph, neg, dig, dead>>
  /\ LET f == Field(T, pos, t, b, "start", FALSE, <<>>, FALSE)
         none == f[3] = pos \/ (f[3] = pos + 1 /\ T[pos + 1] = 45) IN
     Ev("from", <<t, b>>, IF none THEN <<1, TRUE, 0>> ELSE IF (f[2] \div 2) % 2 = 1 THEN <<2, TRUE, f[3] - pos>> ELSE <<0, f[1], f[3] - pos>>)
End == dead' = TRUE /\ UNCHANGED <<cfg, pos, st, base, alpha, ph, neg, dig>> /\ Ev("end", <<>>, 0)
Do(op, x) == ~dead /\
  CASE op = "feed" -> FeedC(x[1]) [] op = "again" -> Again [] op = "base" -> SetBase(x[1]) [] op = "alpha" -> SetAlpha(x[1])
    [] op = "clear" -> Clear [] op = "skip" -> Skip [] op = "read" -> Read(x[1]) [] op = "from" -> From(x[1], x[2]) [] op = "end" -> End [] OTHER -> FALSE
Next == \/ \E c \in Feed : Do("feed", <<c>>)
        \/ \E op \in {"again", "clear", "skip", "end"} : Do(op, <<>>)
        \/ \E b \in {8, 10, 16} : Do("base", <<b>>)
        \/ \E f \in BOOLEAN : Do("alpha", <<f>>)
        \/ \E t \in ReadTypes : Do("read", <<t>>)
        \/ \E t \in FromTypes, b \in Bases : Do("from", <<t, b>>)
TypeOK == pos \in 0..Len(T) /\ st \in 0..7 /\ (Iter => Fits(dig, cfg[2], cfg[3], neg))
\* a value is only ever replaced by a larger one of the same sign; what is left only shrinks; only clear clears
Grows == [][act'.op = "feed" /\ Iter => Len(dig') >= Len(dig) /\ (neg => neg')]_vars
Forward == [][act'.op # "reset" => pos' >= pos]_vars
Sticky == [][act'.op \notin {"reset", "clear"} => Or(st, st') = st']_vars
\* something was read exactly when it did not fail
ReadsOrFails == [][act'.op = "read" /\ ~dead /\ Stream /\ st = 0 /\ pos' = pos => st' # 0]_vars
=============================================================================
