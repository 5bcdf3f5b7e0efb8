------------------------------- MODULE BipBuf -------------------------------
(* The bi-partite ring buffer.  cfg = <<kind, size, modulus>>; kind "c" (the C API),
   "l1", "l3" (the C++ wrappers).  Bytes offered are numbered in sequence modulo the
   modulus (ctr is the next one), so that any loss, duplication or reordering shows.

   Region A = a, starting at off; region B = b, growing from the start of the buffer
   once it offers more room than the tail does.  What was accepted and not yet polled
   is a \o b; peek and poll look at region A only, which is contiguous.              *)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, off, a, b, bin, ctr, dead, act
vars == <<cfg, off, a, b, bin, ctr, dead, act>>
Size == cfg[2]
M == cfg[3]
Key == <<cfg, off, a, b, bin, ctr, dead>>
Unused == IF bin THEN off - Len(b) ELSE Size - (off + Len(a))
Obs == IF dead THEN [z |-> 1] ELSE
  [ used |-> Len(a) + Len(b), unused |-> Unused, e |-> (a = <<>>), a |-> a, b |-> b, size |-> Size, bad |-> 0 ]
InitCfg(c) == cfg = c /\ off = 0 /\ a = <<>> /\ b = <<>> /\ bin = FALSE /\ ctr = 0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ off' = 0 /\ a' = <<>> /\ b' = <<>> /\ bin' = FALSE /\ ctr' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ret(op, x, r) == act' = [op |-> op, a |-> x, r |-> r]
Data(n) == [i \in 1..n |-> (ctr + i - 1) % M]
\* the tail of the buffer offers less room than its start: turn to B
Turn(o, la, lb) == Size - (o + la) < o - lb
Grow(n) ==
  /\ IF bin THEN b' = b \o Data(n) /\ a' = a ELSE a' = a \o Data(n) /\ b' = b
  /\ off' = off /\ ctr' = (ctr + n) % M
  /\ bin' = (bin \/ Turn(off, Len(a'), Len(b')))
\* offer: all or nothing
Offer(n) == /\ UNCHANGED <<cfg, dead>>
            /\ IF n > Unused THEN UNCHANGED <<off, a, b, bin, ctr>> /\ Ret("offer", <<n>>, 0)
               ELSE Grow(n) /\ Ret("offer", <<n>>, n)
\* writing in place through offer_begin / offer_end
Direct(n) == cfg[1] # "c" /\ n <= Unused /\ UNCHANGED <<cfg, dead>> /\ Grow(n) /\ Ret("direct", <<n>>, 0)
Has(n) == a # <<>> /\ n <= Len(a)
Peek(n) == /\ UNCHANGED <<cfg, off, a, b, bin, ctr, dead>>
           /\ Ret("peek", <<n>>, IF Has(n) THEN <<TRUE, SubSeq(a, 1, n)>> ELSE <<FALSE, <<>>>>)
Poll(op, x, n) == /\ UNCHANGED <<cfg, ctr, dead>>
           /\ Ret(op, x, IF Has(n) THEN <<TRUE, SubSeq(a, 1, n)>> ELSE <<FALSE, <<>>>>)
           /\ IF ~Has(n) THEN UNCHANGED <<off, a, b, bin>>
              ELSE IF n < Len(a) THEN /\ a' = SubSeq(a, n + 1, Len(a)) /\ off' = off + n /\ b' = b
                                      /\ bin' = (bin \/ Turn(off + n, Len(a) - n, Len(b)))
              ELSE /\ off' = 0 /\ a' = b /\ b' = <<>> /\ bin' = FALSE
End == off' = 0 /\ a' = <<>> /\ b' = <<>> /\ bin' = FALSE /\ ctr' = 0 /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)
Do(op, x) == ~dead /\
  CASE op = "offer" -> Offer(x[1]) [] op = "direct" -> Direct(x[1]) [] op = "peek" -> Peek(x[1]) [] op = "poll" -> Poll(op, x, x[1]) [] op = "drain" -> Poll(op, x, Len(a))
    [] op = "end" -> End [] OTHER -> FALSE
Next == \/ \E n \in 0..Size + 1, op \in {"offer", "direct", "peek", "poll"} : Do(op, <<n>>)
        \/ Do("drain", <<>>) \/ Do("end", <<>>)
Content == a \o b
TypeOK == /\ off + Len(a) <= Size /\ (b # <<>> => bin) /\ (bin => Len(b) <= off) /\ (~bin => b = <<>>)
          /\ (a = <<>> => b = <<>> /\ off = 0)
          /\ Len(Content) + Unused <= Size
\* strict FIFO: what goes in comes out once, in order
Fifo == [][/\ act'.op \in {"offer", "direct"} => Content' = Content \/ Content' = Content \o Data(act'.a[1])
           /\ act'.op \in {"poll", "drain"} => Content' = SubSeq(Content, Len(act'.r[2]) + 1, Len(Content))
           /\ act'.op \in {"poll", "drain"} => act'.r[2] = SubSeq(Content, 1, Len(act'.r[2])) ]_vars
=============================================================================
