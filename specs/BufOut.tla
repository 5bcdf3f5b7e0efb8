------------------------------- MODULE BufOut -------------------------------
(* Buffered output stream buffers over a sink which takes only as many characters as it has
   room for.  cfg = <<kind, size, room, modulus, per, err>>: kind "s" a string buffer of `size`
   characters, "b1"/"b3" a bipartite ring buffer of `size` bytes held inside / outside.

   The sink takes at most `per` characters in one write (a sink of 1000 or more may be asked
   again within a write), and answers `err` (0 or -1) when it has no room at all.

   Characters written are numbered in sequence (ctr, mapped through Alpha), so loss,
   duplication and reordering show.  st = the buffer (regions a at off, and b) and the
   sink's room; del = what the sink received during the operation.                      *)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, off, a, b, bin, room, ctr, dead, act
vars == <<cfg, off, a, b, bin, room, ctr, dead, act>>
Kind == cfg[1]
Size == cfg[2]
M == cfg[4]
Per == cfg[5]
MaxRoom == Size + 2
Alpha == <<97, 255, 0, 98, 10, 128, 99>>
Ch(i) == Alpha[(i % M) + 1]
Min2(p, q) == IF p < q THEN p ELSE q
Key == <<cfg, off, a, b, bin, room, ctr, dead>>
St == [off |-> off, a |-> a, b |-> b, bin |-> bin, room |-> room, del |-> <<>>]
Unused(s) == IF s.bin THEN s.off - Len(s.b) ELSE Size - (s.off + Len(s.a))
Turn(s) == [s EXCEPT !.bin = @ \/ (Kind # "s" /\ Size - (s.off + Len(s.a)) < s.off - Len(s.b))]
Held(s) == s.a \o s.b
\* place characters which fit
Put(s, w) == IF w = <<>> THEN s
             ELSE Turn(IF s.bin THEN [s EXCEPT !.b = @ \o w] ELSE [s EXCEPT !.a = @ \o w])
\* n characters of region A go to the sink
Deliver(s, n) ==
  LET t == [s EXCEPT !.room = @ - n, !.del = @ \o SubSeq(s.a, 1, n)] IN
  IF Kind = "s" THEN [t EXCEPT !.a = SubSeq(s.a, n + 1, Len(s.a))]
  ELSE IF n < Len(s.a) THEN Turn([t EXCEPT !.a = SubSeq(s.a, n + 1, Len(s.a)), !.off = @ + n])
  ELSE [t EXCEPT !.a = s.b, !.b = <<>>, !.off = 0, !.bin = FALSE]
RECURSIVE Sync(_)
Sync(s) == IF s.a = <<>> \/ s.room = 0 THEN s
           ELSE LET t == Deliver(s, Min2(IF Per < 1000 THEN Per ELSE Len(s.a), Min2(s.room, Len(s.a)))) IN
                \* a string buffer asks once, a ring until the sink takes no more
                IF Kind = "s" THEN t ELSE Sync(t)
\* one more character, flushing only when full.  r = stored?
Over(s, w) == LET t == IF Unused(s) = 0 THEN Sync(s) ELSE s IN
              IF Unused(t) = 0 THEN [s |-> t, ok |-> FALSE] ELSE [s |-> Put(t, w), ok |-> TRUE]
Word(i, n) == [j \in 1..n |-> Ch(i + j - 1)]
\* as much as fits; then one at a time makes room, for as long as that works
RECURSIVE Puts(_, _, _, _)
Puts(s, i, n, done) ==
  LET k == Min2(n - done, Unused(s))
      t == Put(s, Word(i + done, k))
      d == done + k IN
  IF d = n THEN [s |-> t, n |-> d]
  ELSE LET o == Over(t, Word(i + d, 1)) IN
       IF o.ok THEN Puts(o.s, i, n, d + 1) ELSE [s |-> o.s, n |-> d]
Set(s) == off' = s.off /\ a' = s.a /\ b' = s.b /\ bin' = s.bin /\ room' = s.room
Ret(op, x, r) == act' = [op |-> op, a |-> x, r |-> r]
Fresh(c) == [off |-> 0, a |-> <<>>, b |-> <<>>, bin |-> FALSE, room |-> c[3]]
InitCfg(c) == /\ cfg = c /\ off = 0 /\ a = <<>> /\ b = <<>> /\ bin = FALSE /\ room = c[3] /\ ctr = 0 /\ dead = FALSE
              /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ Set(Fresh(c)) /\ ctr' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Obs == IF dead THEN [z |-> 1] ELSE [ room |-> room, avail |-> Unused(St), bad |-> 0 ]
Sputc == LET o == Over(St, Word(ctr, 1)) IN Set(o.s) /\ ctr' = (IF o.ok THEN (ctr + 1) % M ELSE ctr) /\ Ret("sputc", <<>>, <<o.ok, o.s.del>>)
Flush == LET o == Over(St, <<>>) IN Set(o.s) /\ ctr' = ctr /\ Ret("overflow", <<>>, <<o.ok, o.s.del>>)
Sputn(n) == LET o == Puts(St, ctr, n, 0) IN Set(o.s) /\ ctr' = (ctr + o.n) % M /\ Ret("sputn", <<n>>, <<o.n, o.s.del>>)
PubSync == LET t == Sync(St) IN Set(t) /\ ctr' = ctr /\ Ret("sync", <<>>, <<IF Held(t) = <<>> THEN 0 ELSE 0 - 1, t.del>>)
Room(n) == room + n <= MaxRoom /\ Set([St EXCEPT !.room = @ + n]) /\ ctr' = ctr /\ Ret("room", <<n>>, 0)
End == off' = 0 /\ a' = <<>> /\ b' = <<>> /\ bin' = FALSE /\ room' = 0 /\ ctr' = 0 /\ dead' = TRUE /\ cfg' = cfg /\ Ret("end", <<>>, 0)
Do(op, x) == ~dead /\
  IF op = "end" THEN End ELSE
  /\ UNCHANGED <<cfg, dead>>
  /\ CASE op = "sputc" -> Sputc [] op = "overflow" -> Flush [] op = "sputn" -> Sputn(x[1]) [] op = "sync" -> PubSync
       [] op = "room" -> Room(x[1]) [] OTHER -> FALSE
Next == \/ \E op \in {"sputc", "overflow", "sync", "end"} : Do(op, <<>>)
        \/ \E n \in 0..2 * Size + 1 : Do("sputn", <<n>>)
        \/ \E n \in 1..MaxRoom : Do("room", <<n>>)
TypeOK == /\ off + Len(a) <= Size /\ (b # <<>> => bin) /\ (bin => Len(b) <= off) /\ (a = <<>> => b = <<>> /\ off = 0)
          /\ room \in 0..MaxRoom /\ (Kind = "s" => off = 0 /\ b = <<>>)
\* what was accepted is delivered or held, once, in order
Accepted == CASE act'.op = "sputc" -> IF act'.r[1] THEN Word(ctr, 1) ELSE <<>>
              [] act'.op = "sputn" -> Word(ctr, act'.r[1]) [] OTHER -> <<>>
Conserved == [][/\ act'.op \in {"sputc", "sputn", "overflow", "sync"} =>
                     act'.r[2] \o a' \o b' = a \o b \o Accepted
                \* nothing is refused while the sink has room and nothing is left behind by a sync which claims success
                /\ act'.op = "sputc" /\ ~act'.r[1] => room' = 0
                /\ act'.op = "sync" /\ act'.r[1] = 0 => a' = <<>> ]_vars
=============================================================================
