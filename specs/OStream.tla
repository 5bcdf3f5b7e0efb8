------------------------------- MODULE OStream -------------------------------
(* Writing text and numbers.
   cfg = <<kind, cap>>: output streams "l1" (layer1 string of capacity cap), "span" (cap characters,
   text up to the put position pp), "sink" (a device of cap characters which must be flushed);
   "conv": to_chars, to_string and num_put.
   A number is <<type, negative, hexadecimal digits>>.                                   *)
EXTENDS Integers, Sequences, TLC, Digits
CONSTANTS Nums, Texts, Widths, Fills, Rooms, ToBases, Bases, Flags
VARIABLES cfg, d, pp, width, fill, base, up, left, unit, brk, st, dead, act
vars == <<cfg, d, pp, width, fill, base, up, left, unit, brk, st, dead, act>>
Key == <<cfg, d, pp, width, fill, base, up, left, unit, brk, st, dead>>
Kind == cfg[1]
Cap == cfg[2]
Conv == Kind = "conv"
Span == Kind = "span"
Obs == IF dead THEN [z |-> 1] ELSE IF Conv THEN [c |-> 1] ELSE
  [ d |-> d, pp |-> IF Span THEN pp ELSE Len(d), w |-> width, f |-> fill, fail |-> st # 0, good |-> st = 0,
    pend |-> IF unit /\ st = 0 THEN 0 ELSE 0 - 1 ]
D0(c) == IF c[1] = "span" THEN Rep(c[2], 238) ELSE <<>>
InitCfg(c) == cfg = c /\ d = D0(c) /\ pp = 0 /\ width = 0 /\ fill = 32 /\ base = 10 /\ up = FALSE /\ left = FALSE /\ unit = FALSE /\ brk = FALSE
              /\ st = 0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ d' = D0(c) /\ pp' = 0 /\ width' = 0 /\ fill' = 32 /\ base' = 10 /\ up' = FALSE /\ left' = FALSE /\ unit' = FALSE /\ brk' = FALSE
              /\ st' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ev(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Min(p, q) == IF p < q THEN p ELSE q
Room == Cap - (IF Span THEN pp ELSE Len(d))
\* what fits is stored; what does not fails; unit buffering flushes, which a broken sink refuses
Put(op, a, t, w) ==
  LET k == Min(Len(t), Room)
      s == SubSeq(t, 1, k) IN
  /\ ~Conv
  /\ d' = (IF Span THEN [i \in 1..Cap |-> IF i > pp /\ i <= pp + k THEN s[i - pp] ELSE d[i]] ELSE d \o s)
  /\ pp' = (IF Span THEN pp + k ELSE pp)
  /\ st' = (IF st = 0 /\ k = Len(t) /\ ~(unit /\ brk) THEN 0 ELSE 1)
  /\ width' = w /\ UNCHANGED <<cfg, fill, base, up, left, unit, brk, dead>>
  /\ Ev(op, a, 0)
Num(n) == Put("num", n, Pad(Text(n[2], n[3], base, up), width, fill, left), 0)
CharOut(c) == Put("char", <<c>>, Pad(<<c>>, width, fill, left), 0)
Str(k, t) == Put("str", <<k, t>>, t, width)
Write(t) == Put("write", t, t, width)
PutC(c) == Put("put", <<c>>, <<c>>, width)
Ptr(h) == Put("ptr", h, Text(FALSE, h, 16, TRUE), width)
\* endl writes and flushes
Endl == /\ ~Conv
        /\ LET k == Min(1, Room) IN
           /\ d' = (IF Span THEN [d EXCEPT ![pp + 1] = IF k = 1 THEN 10 ELSE @] ELSE IF k = 1 THEN Append(d, 10) ELSE d)
           /\ pp' = (IF Span THEN pp + k ELSE pp)
           /\ st' = (IF st = 0 /\ k = 1 /\ ~brk THEN 0 ELSE 1)
        /\ UNCHANGED <<cfg, width, fill, base, up, left, unit, brk, dead>> /\ Ev("endl", <<>>, 0)
Flush == ~Conv /\ st' = (IF brk THEN 1 ELSE st) /\ UNCHANGED <<cfg, d, pp, width, fill, base, up, left, unit, brk, dead>>
         /\ Ev("flush", <<>>, 0)
Set(op, a, w, f, b, u, l, n, k, s) == ~Conv /\ width' = w /\ fill' = f /\ base' = b /\ up' = u /\ left' = l /\ unit' = n /\ brk' = k /\ st' = s
                                 /\ UNCHANGED <<cfg, d, pp, dead>> /\ Ev(op, a, 0)
SetW(n) == Set("setw", <<n>>, n, fill, base, up, left, unit, brk, st)
SetFill(c) == Set("fill", <<c>>, width, c, base, up, left, unit, brk, st)
SetBase(b) == Set("base", <<b>>, width, fill, b, up, left, unit, brk, st)
SetUp(u) == Set("upper", <<u>>, width, fill, base, u, left, unit, brk, st)
SetLeft(l) == Set("left", <<l>>, width, fill, base, up, l, unit, brk, st)
\* turning unit buffering on flushes what there is (the driver does)
SetUnit(n) == ~brk /\ Set("unit", <<n>>, width, fill, base, up, left, n, brk, st)
Break(k) == Kind = "sink" /\ Set("break", <<k>>, width, fill, base, up, left, unit, k, st)
Clear == Set("clear", <<>>, width, fill, base, up, left, unit, brk, 0)
Seek(off, dir) == LET t == (IF dir = 0 THEN 0 ELSE IF dir = 1 THEN Cap ELSE pp) + off
                      ok == st = 0 /\ t \in 0..Cap IN
                  /\ Span /\ pp' = (IF ok THEN t ELSE pp) /\ st' = (IF ok THEN 0 ELSE 1)
                  /\ UNCHANGED <<cfg, d, width, fill, base, up, left, unit, brk, dead>> /\ Ev("seekp", <<off, dir>>, 0)
Tell == ~Conv /\ UNCHANGED <<cfg, d, pp, width, fill, base, up, left, unit, brk, st, dead>>
        /\ Ev("tellp", <<>>, IF st # 0 THEN 0 - 1 ELSE IF Span THEN pp ELSE Len(d))
\* ---- conversions
Still == Conv /\ UNCHANGED <<cfg, d, pp, width, fill, base, up, left, unit, brk, st, dead>>
Res(op, a, t, room) == Still /\ Ev(op, a, IF Len(t) <= room THEN <<TRUE, t>> ELSE <<FALSE, <<>>>>)
Forms == {"chars", "opt", "upper", "exp"}
To(f, n, b, room) == Res("to", <<f, n, b, room>>, Text(n[2], n[3], b, f = "upper"), room)
\* into a string of its own, a string given, a character array
ToStr(f, n) == f \in {"str", "into"} /\ Res("tostr", <<f, n>>, Text(n[2], n[3], 10, FALSE), 99)
ToArr(n, b, room) == room \in {3, 12, 69} /\ Res("toarr", <<n, b, room>>, Text(n[2], n[3], b, FALSE), room)
NumPut(n, b, u, w, f, l) == Res("numput", <<n, b, u, w, f, l>>, Pad(Text(n[2], n[3], b, u), w, f, l), 99)
BoolPut(v, al) == Res("boolput", <<v, al>>, IF al THEN (IF v THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>) ELSE <<IF v THEN 49 ELSE 48>>, 99)
End == dead' = TRUE /\ UNCHANGED <<cfg, d, pp, width, fill, base, up, left, unit, brk, st>> /\ Ev("end", <<>>, 0)
Do(op, x) == ~dead /\
  CASE op = "num" -> Num(x) [] op = "char" -> CharOut(x[1]) [] op = "str" -> Str(x[1], x[2]) [] op = "write" -> Write(x) [] op = "put" -> PutC(x[1])
    [] op = "ptr" -> Ptr(x) [] op = "endl" -> Endl [] op = "flush" -> Flush [] op = "setw" -> SetW(x[1]) [] op = "fill" -> SetFill(x[1])
    [] op = "base" -> SetBase(x[1]) [] op = "upper" -> SetUp(x[1]) [] op = "left" -> SetLeft(x[1]) [] op = "unit" -> SetUnit(x[1])
    [] op = "break" -> Break(x[1]) [] op = "clear" -> Clear [] op = "seekp" -> Seek(x[1], x[2]) [] op = "tellp" -> Tell
    [] op = "to" -> To(x[1], x[2], x[3], x[4]) [] op = "tostr" -> ToStr(x[1], x[2]) [] op = "toarr" -> ToArr(x[1], x[2], x[3])
    [] op = "numput" -> NumPut(x[1], x[2], x[3], x[4], x[5], x[6]) [] op = "boolput" -> BoolPut(x[1], x[2]) [] op = "end" -> End [] OTHER -> FALSE
StrKinds == {"c", "l1", "l2", "l3"}
Next == \/ \E op \in {"endl", "flush", "clear", "tellp", "end"} : Do(op, <<>>)
        \/ ~Conv /\ \E n \in Nums : Do("num", n)
        \/ ~Conv /\ \E c \in {97, 255} : Do("char", <<c>>) \/ Do("put", <<c>>)
        \/ ~Conv /\ \E t \in Texts : Do("write", t) \/ \E k \in StrKinds : Do("str", <<k, t>>)
        \/ ~Conv /\ Do("ptr", <<10, 1>>)
        \/ ~Conv /\ \E n \in Widths : Do("setw", <<n>>)
        \/ ~Conv /\ \E c \in Fills : Do("fill", <<c>>)
        \/ ~Conv /\ \E b \in Bases : Do("base", <<b>>)
        \/ ~Conv /\ \E f \in BOOLEAN, op \in Flags : Do(op, <<f>>)
        \/ Span /\ \E o \in (0 - 2)..2, q \in 0..2 : Do("seekp", <<o, q>>)
        \/ Conv /\ \E n \in Nums, b \in ToBases, r \in Rooms, f \in Forms : Do("to", <<f, n, b, r>>)
        \/ Conv /\ \E n \in Nums, f \in {"str", "into"} : Do("tostr", <<f, n>>)
        \/ Conv /\ \E n \in Nums, b \in ToBases, r \in {3, 12, 69} : Do("toarr", <<n, b, r>>)
        \/ Conv /\ \E n \in Nums, b \in {8, 10, 16}, u \in BOOLEAN, l \in BOOLEAN, w \in Widths : Do("numput", <<n, b, u, w, 42, l>>)
        \/ Conv /\ \E v \in BOOLEAN, al \in BOOLEAN : Do("boolput", <<v, al>>)
TypeOK == pp \in 0..Cap /\ (~Conv => Len(d) <= Cap) /\ width >= 0
\* text only grows; a failure stays until cleared; nothing is ever lost without the stream failing
Grows == [][act'.op # "reset" /\ ~Span => SubSeq(d', 1, Len(d)) = d]_vars
Sticky == [][act'.op \notin {"reset", "clear"} => st' >= st]_vars
NoLoss == [][act'.op \in {"str"} /\ st' = 0 => LET n == Len(act'.a[2]) IN (IF Span THEN pp' - pp ELSE Len(d') - Len(d)) = n]_vars
=============================================================================
