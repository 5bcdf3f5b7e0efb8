------------------------------ MODULE FileOut ------------------------------
(* A file written through the stream over it, its buffer, and by C code besides.  cfg = <<kind, room>>:
   "full" (the file buffers), "none" (it does not), "vfull", "vnone" (through a virtual buffer over its buffer),
   "vstr" (a virtual buffer over a string buffer), "vhic" (as vnone; the device refuses once, at room, then takes any).  room: bytes the device takes, then it fails.
   out: bytes accepted, in order; dev: how many of them have reached the device; unit: the stream was
   asked to flush after every output.                                                                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxL
VARIABLES cfg, out, dev, good, lost, hic, unit, dead, act
vars == <<cfg, out, dev, good, lost, hic, unit, dead, act>>
Key == <<cfg, out, dev, good, lost, hic, unit, dead>>
Kind == cfg[1]
Room == cfg[2]
Buffered == Kind \in {"full", "vfull"}
Direct == Kind \in {"full", "none"}
Obs == IF dead THEN [z |-> 1] ELSE IF lost THEN [ lost |-> TRUE, good |-> good ] ELSE [ out |-> out, dev |-> dev, good |-> good ]
InitCfg(c) == cfg = c /\ out = <<>> /\ dev = 0 /\ good = TRUE /\ lost = FALSE /\ hic = (c[1] = "vhic") /\ unit = FALSE /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ out' = <<>> /\ dev' = 0 /\ good' = TRUE /\ lost' = FALSE /\ hic' = (c[1] = "vhic") /\ unit' = FALSE /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Same == UNCHANGED <<cfg, dead, hic>>
Frame == Same /\ UNCHANGED unit
Ret(op, x, r) == act' = [op |-> op, a |-> x, r |-> r]
Fit(s) == IF Buffered \/ (Kind = "vhic") \/ Len(s) <= Room - Len(out) THEN s ELSE SubSeq(s, 1, Room - Len(out))
Took(s) == Len(Fit(s)) = Len(s)
Send(s) == out' = out \o Fit(s) /\ dev' = (IF Buffered THEN dev ELSE Len(out')) /\ UNCHANGED lost
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Sign(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE Dec(n)
\* what is pending goes to the device, or the file is not what it should be any more
Empty(b) == Kind = "vhic" \/ Len(b) <= Room
Sync(b) == IF Empty(b) THEN dev' = Len(b) /\ UNCHANGED lost ELSE dev' = 0 /\ lost' = TRUE
\* through the stream: good unless something did not go through
Stream(op, x, s) ==
  LET b == out \o Fit(s) IN
  /\ Direct /\ good /\ Frame /\ Ret(op, x, 0)
  /\ IF unit /\ Took(s) THEN out' = b /\ Sync(b) /\ good' = Empty(b) ELSE Send(s) /\ good' = Took(s)
Unit(b) == Direct /\ Same /\ unit' = b /\ UNCHANGED <<out, dev, good, lost>> /\ Ret("unit", <<b>>, 0)
Flush == Direct /\ good /\ Frame /\ out' = out /\ Sync(out) /\ good' = Empty(out) /\ Ret("flush", <<>>, 0)
Endl == LET b == out \o Fit(<<10>>) IN Direct /\ good /\ Frame /\ out' = b /\ Sync(b) /\ good' = (Took(<<10>>) /\ Empty(b)) /\ Ret("endl", <<>>, 0)
Clear == Direct /\ Frame /\ good' = TRUE /\ UNCHANGED <<out, dev, lost>> /\ Ret("clear", <<>>, 0)
\* through the buffer
Raw(op, x, s, r) == Frame /\ Send(s) /\ good' = good /\ Ret(op, x, r)
\* what is left of a text refused in the middle is tried again, a single character is not
Again(op, x, s) == /\ UNCHANGED <<cfg, dead, good, lost, unit>> /\ hic' = (hic /\ Len(out) + Len(s) <= Room)
  /\ LET no == op = "sputc" /\ hic /\ Len(out) >= Room b == IF no THEN out ELSE out \o s IN
     out' = b /\ dev' = Len(b) /\ Ret(op, x, IF no THEN 0 - 1 ELSE IF op = "sputc" THEN x[1] ELSE Len(s))
Pub == Frame /\ out' = out /\ Sync(out) /\ good' = good /\ Ret("sync", <<>>, IF Empty(out) THEN 0 ELSE 0 - 1)
End == dead' = TRUE /\ UNCHANGED <<cfg, out, dev, good, lost, hic, unit>> /\ Ret("end", <<>>, 0)
Do(op, x) == ~dead /\ (IF op = "end" THEN End ELSE ~lost /\
  CASE op = "put" -> Stream("put", x, x) [] op = "chr" -> Stream("chr", x, x) [] op = "write" -> Stream("write", x, x[1]) [] op = "str" -> Stream("str", x, x[1])
    [] op = "num" -> Stream("num", x, Sign(x[1])) [] op = "flush" -> Flush [] op = "endl" -> Endl [] op = "clear" -> Clear [] op = "unit" -> Unit(x[1])
    [] op = "sputc" -> IF Kind = "vhic" THEN Again("sputc", x, x) ELSE Raw("sputc", x, x, IF Took(x) THEN x[1] ELSE 0 - 1) [] op = "sputn" -> IF Kind = "vhic" THEN Again("sputn", x, x[1]) ELSE Raw("sputn", x, x[1], Len(Fit(x[1])))
    [] op = "fputs" -> Kind \notin {"vstr", "vhic"} /\ Raw("fputs", x, x[1], Took(x[1])) [] op = "sync" -> Pub [] OTHER -> FALSE)
Texts == {<<>>, <<97>>, <<255, 98>>, <<98, 10, 97>>}
Next == \/ \E op \in {"flush", "endl", "clear", "sync", "end"} : Do(op, <<>>)
        \/ \E b \in BOOLEAN : Do("unit", <<b>>)
        \/ (Len(out) < MaxL /\ (\/ \E c \in {97, 255}, op \in {"put", "chr", "sputc"} : Do(op, <<c>>)
                                \/ \E s \in Texts, op \in {"write", "sputn"} : Do(op, <<s>>)
                                \/ \E s \in {<<>>, <<97>>, <<97, 98>>}, op \in {"str", "fputs"} : Do(op, <<s>>)
                                \/ \E n \in {0, 7, 0 - 12} : Do("num", <<n>>)))
TypeOK == dev \in 0..Len(out) /\ good \in BOOLEAN /\ (~Buffered /\ ~lost => dev = Len(out))
\* bytes accepted are never taken back or changed
Kept == [][act'.op # "reset" => Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
Flushed == [][(act'.op \in {"flush", "endl"} \/ (unit /\ act'.op \in {"put", "chr", "write", "str", "num"})) /\ good' => dev' = Len(out')]_vars
=============================================================================
