------------------------------- MODULE Deque --------------------------------
(* Fixed-capacity double-ended containers: layer1::deque ("deque"), the queue
   adaptor over it ("queue") and the stack adaptor over layer1::vector
   ("stack").  cfg = <<kind, capacity>>.

   State: the abstract sequence q.  A push on a full ring and a pop on an empty
   one report failure and change nothing; everything else is exact FIFO / LIFO
   / double-ended order, across any number of wrap-arounds.  "move" replaces the
   object by one move-constructed from it (the source storage is then
   overwritten), so nothing may still refer to the source.                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals
VARIABLES cfg, q, dead, act
vars == <<cfg, q, dead, act>>

Kind == cfg[1]
Cap == cfg[2]
Ring == Kind \in {"deque", "queue"}

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Key == <<cfg, q, dead>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ n |-> Len(q), e |-> (q = <<>>),
    it  |-> (IF Kind \in {"deque", "stack"} THEN q ELSE <<>>),
    rit |-> (IF Kind = "deque" THEN Rev(q) ELSE <<>>),
    f |-> (IF q = <<>> \/ Kind = "stack" THEN <<>> ELSE <<q[1], q[1]>>),
    b |-> (IF q = <<>> THEN <<>> ELSE <<q[Len(q)], q[Len(q)]>>),
    cap |-> Cap, ok |-> TRUE ]

Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ q = <<>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ q' = <<>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Keep == UNCHANGED <<cfg, dead>>

Full == Len(q) = Cap
IsEmpty == q = <<>>

\* push family: TRUE when stored.  A stack's push is void and needs room.
PushB(op, x) == /\ (Ring \/ ~Full)
                /\ q' = (IF Full THEN q ELSE Append(q, x)) /\ Keep /\ Ret(op, <<x>>, ~Full)
PushF(op, x) == Kind = "deque" /\ q' = (IF Full THEN q ELSE <<x>> \o q) /\ Keep /\ Ret(op, <<x>>, ~Full)
\* emplace returns a reference to the new element, so it needs room
EmplB(x) == Ring /\ ~Full /\ q' = Append(q, x) /\ Keep /\ Ret("emplace_back", <<x>>, x)
EmplF(x) == Kind = "deque" /\ ~Full /\ q' = <<x>> \o q /\ Keep /\ Ret("emplace_front", <<x>>, x)
PopB == /\ Kind \in {"deque", "stack"} /\ (Ring \/ ~IsEmpty)
        /\ q' = (IF IsEmpty THEN q ELSE SubSeq(q, 1, Len(q) - 1)) /\ Keep /\ Ret("pop_back", <<>>, ~IsEmpty)
PopF == Ring /\ q' = (IF IsEmpty THEN q ELSE Tail(q)) /\ Keep /\ Ret("pop_front", <<>>, ~IsEmpty)
SetF(x) == Ring /\ ~IsEmpty /\ q' = [q EXCEPT ![1] = x] /\ Keep /\ Ret("set_front", <<x>>, 0)
SetB(x) == ~IsEmpty /\ q' = [q EXCEPT ![Len(q)] = x] /\ Keep /\ Ret("set_back", <<x>>, 0)
Move == Ring /\ UNCHANGED <<cfg, q, dead>> /\ Ret("move", <<>>, 0)
End == q' = <<>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)

Do(op, a) == ~dead /\
  CASE op \in {"push_back", "push_back_m"} -> PushB(op, a[1])
    [] op = "push_front" -> PushF(op, a[1])
    [] op = "emplace_back" -> EmplB(a[1])
    [] op = "emplace_front" -> EmplF(a[1])
    [] op = "pop_back" -> PopB
    [] op = "pop_front" -> PopF
    [] op = "set_front" -> SetF(a[1])
    [] op = "set_back" -> SetB(a[1])
    [] op = "move" -> Move
    [] op = "end" -> End
    [] OTHER -> FALSE

Next ==
  \/ \E x \in Vals, op \in {"push_back", "push_back_m", "push_front", "emplace_back", "emplace_front", "set_front", "set_back"} : Do(op, <<x>>)
  \/ \E op \in {"pop_back", "pop_front", "move", "end"} : Do(op, <<>>)

TypeOK == Len(q) <= Cap
\* an element leaves only through its own end, and order is never disturbed
Fifo == [][act'.op = "pop_front" /\ q # <<>> => q = <<q[1]>> \o q']_vars
Kept == [][act'.op \in {"push_back", "push_back_m", "emplace_back"} => SubSeq(q', 1, Len(q)) = q]_vars
=============================================================================
