-------------------------------- MODULE Str --------------------------------
(* Mutable strings: layer1 / layer2 / layer3 strings, null-terminated ("..z")
   and explicitly sized ("..s"), the unbounded layer2 string, and the
   allocator-backed string.  cfg = <<variant, N>> where N is the storage size
   in characters; a null-terminated string keeps one character for its
   terminator.  State: the sequence s of character codes.                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Chars, Bulk
VARIABLES cfg, s, dead, act
vars == <<cfg, s, dead, act>>

NullTerm == cfg[1] \in {"l1z", "l2z", "l3z", "l2u"}
Cap == IF NullTerm THEN cfg[2] - 1 ELSE cfg[2]
Key == <<cfg, s, dead>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ n |-> Len(s), len |-> Len(s), e |-> (s = <<>>), it |-> s, ix |-> s,
    term |-> TRUE,      \* null-terminated strings: exactly one terminator, right after the content
    ok |-> TRUE ]       \* nothing outside the storage was written

\* c[3]: what the storage already holds; c[4]: how the string adopts it
\* ("n" told the length, "0" by its terminator, "a" array by its terminator, "an" array and length, "t" told to start empty)
S0(c) == IF Len(c) = 2 \/ c[4] = "t" THEN <<>> ELSE c[3]
InitCfg(c) == cfg = c /\ s = S0(c) /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ s' = S0(c) /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Set(x) == Len(x) <= Cap /\ s' = x /\ UNCHANGED <<cfg, dead>>
Read == UNCHANGED <<cfg, s, dead>>
Min(x, y) == IF x < y THEN x ELSE y
NoNul(t) == \A i \in 1..Len(t) : t[i] # 0

AppendOps == {"append_c", "append_n", "append_str", "plus_c", "plus_str", "append_sv", "append_view"}
AssignOps == {"assign_c", "assign_str", "assign_view", "ctor"}
InsertOps == {"insert_c", "insert_n", "insert_str"}

AppendSeq(op, t) == Set(s \o t) /\ Ret(op, <<t>>, 0)
AppendFill(n, c) == Set(s \o [i \in 1..n |-> c]) /\ Ret("append_fill", <<n, c>>, 0)
AppendCh(op, c)  == Set(Append(s, c)) /\ Ret(op, <<c>>, 0)
\* the string itself, or part of it, as the argument
Self(op)         == op \in {"append_self", "plus_self"} /\ Set(s \o s) /\ Ret(op, <<>>, 0)
AssignSelf       == Read /\ Ret("assign_self", <<>>, 0)
Part(i, k)       == SubSeq(s, i + 1, i + k)
AppendPart(i, k) == i + k <= Len(s) /\ Set(s \o Part(i, k)) /\ Ret("append_part", <<i, k>>, 0)
PopBack          == s # <<>> /\ Set(SubSeq(s, 1, Len(s) - 1)) /\ Ret("pop_back", <<>>, 0)
Assign(op, t)    == Set(t) /\ Ret(op, <<t>>, 0)
Insert(op, p, t) == p <= Len(s) /\ Set(SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))) /\ Ret(op, <<p, t>>, 0)
\* count = 999 stands for npos
Erase(p, n)      == p <= Len(s) /\ LET k == Min(n, Len(s) - p) IN
                      Set(SubSeq(s, 1, p) \o SubSeq(s, p + k + 1, Len(s))) /\ Ret("erase", <<p, n>>, 0)
EraseAll(op)     == Set(<<>>) /\ Ret(op, <<>>, 0)
Resize(n)        == n <= Len(s) /\ Set(SubSeq(s, 1, n)) /\ Ret("resize", <<n>>, TRUE)
SetAt(p, c)      == p < Len(s) /\ Set([s EXCEPT ![p + 1] = c]) /\ Ret("set_ix", <<p, c>>, 0)
CopyOut(n, p)    == p <= Len(s) /\ Read /\ Ret("copy", <<n, p>>, SubSeq(s, p + 1, p + Min(n, Len(s) - p)))
ViewOf           == Read /\ Ret("view", <<>>, s)
CopyCtor(c)      == cfg[1] \in {"l1z", "l1s"} /\ s # <<>> /\ Read /\ Ret("copy_ctor", <<c>>, [s EXCEPT ![1] = c])
Front            == s # <<>> /\ Read /\ Ret("front", <<>>, s[1])
Back             == s # <<>> /\ Read /\ Ret("back", <<>>, s[Len(s)])
End              == s' = <<>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)

Do(op, a) == ~dead /\
  CASE op \in AppendOps     -> AppendSeq(op, a[1])
    [] op = "append_fill"   -> AppendFill(a[1], a[2])
    [] op \in {"plus_ch", "push_back"} -> AppendCh(op, a[1])
    [] op = "pop_back"      -> PopBack
    [] op \in {"append_self", "plus_self"} -> Self(op)
    [] op = "assign_self"   -> AssignSelf
    [] op = "append_part"   -> AppendPart(a[1], a[2])
    [] op \in AssignOps     -> Assign(op, a[1])
    [] op \in InsertOps     -> Insert(op, a[1], a[2])
    [] op = "erase"         -> Erase(a[1], a[2])
    [] op \in {"clear", "erase0"} -> EraseAll(op)
    [] op = "resize"        -> Resize(a[1])
    [] op = "set_ix"        -> SetAt(a[1], a[2])
    [] op = "copy"          -> CopyOut(a[1], a[2])
    [] op = "view"          -> ViewOf
    [] op = "copy_ctor"     -> CopyCtor(a[1])
    [] op = "front"         -> Front
    [] op = "back"          -> Back
    [] op = "end"           -> End
    [] OTHER -> FALSE

Next ==
  \/ \E t \in Bulk, op \in AppendOps \cup AssignOps : Do(op, <<t>>)
  \/ \E c \in Chars, op \in {"plus_ch", "push_back", "copy_ctor"} : Do(op, <<c>>)
  \/ \E n \in {0, 2}, c \in Chars : Do("append_fill", <<n, c>>)
  \/ \E op \in {"pop_back", "clear", "erase0", "append_self", "plus_self", "assign_self", "view", "front", "back", "end"} : Do(op, <<>>)
  \/ \E p \in 0..Cap, t \in Bulk, op \in InsertOps : Do(op, <<p, t>>)
  \/ \E p \in 0..Cap, n \in {0, 1, 2, 999} : Do("erase", <<p, n>>) \/ (n < 999 /\ Do("copy", <<n + 1, p>>)) \/ (n = 999 /\ Do("copy", <<n, p>>))
  \/ \E p \in 0..Cap : Do("resize", <<p>>) \/ \E k \in 0..2 : Do("append_part", <<p, k>>)
  \/ \E p \in 0..Cap, c \in Chars : Do("set_ix", <<p, c>>)

\* an explicitly sized string holds any character, the terminator included
TypeOK == Len(s) <= Cap /\ (NullTerm => NoNul(s))
=============================================================================
