-------------------------------- MODULE List ---------------------------------
(* Linked lists.  cfg = <<kind, vals>>:
     "ifwd"  intrusive_forward_list            (nodes owned by the caller)
     "iback" intrusive_forward_list_with_back  (same, plus back)
     "hfwd"  internal::list::intrusive_forward (same, other API)
     "ofwd"  owning forward_list, values inside allocated nodes
     "dbl"   owning doubly linked list_base
     "hofwd", "hdbl"  the owning kinds over an allocator of handles, whose
             blocks have an address only while locked and move when unlocked:
             the lists behave the same, touch a node only under its lock and
             hold no lock afterwards (err counts both kinds of mistake)
   Intrusive kinds: q is a sequence of distinct node numbers, and node k holds
   vals[k]; nodes leave and re-enter lists at will, carrying whatever link they
   had, so only the list decides what follows what.  Owning kinds: q is the
   sequence of values and exactly Len(q) elements are alive.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, MaxLen
VARIABLES cfg, q, dead, act
vars == <<cfg, q, dead, act>>

Kind == cfg[1]
NV == cfg[2]
Dbl == {"dbl", "hdbl"}
OFwd == {"ofwd", "hofwd"}
Intr == Kind \in {"ifwd", "iback", "hfwd"}
Val(x) == IF Intr THEN NV[x] ELSE x
Range(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Xs == IF Intr THEN 1..Len(NV) ELSE Vals

Key == <<cfg, q, dead>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ e |-> (q = <<>>), it |-> q, pf |-> q,
    rit |-> (IF Kind \in Dbl THEN Rev(q) ELSE <<>>),
    f |-> (IF q = <<>> THEN <<>> ELSE <<q[1]>>),
    b |-> (IF q = <<>> \/ Kind \notin {"iback"} \cup Dbl THEN <<>> ELSE <<q[Len(q)]>>),
    live |-> (IF Intr THEN 0 ELSE Len(q)), mem |-> (IF Intr THEN 0 ELSE Len(q)), err |-> 0 ]

Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ q = <<>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ q' = <<>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Keep == UNCHANGED <<cfg, dead>>
Free(x) == ~Intr \/ (x \in 1..Len(NV) /\ x \notin Range(q))
InsAt(p, x) == SubSeq(q, 1, p) \o <<x>> \o SubSeq(q, p + 1, Len(q))
DelAt(p) == SubSeq(q, 1, p) \o SubSeq(q, p + 2, Len(q))     \* element p (0-based)
Sel(s, v) == SelectSeq(s, LAMBDA x : Val(x) # v)
FirstIdx(v) == CHOOSE i \in 1..Len(q) : Val(q[i]) = v /\ \A j \in 1..(i - 1) : Val(q[j]) # v
Has(v) == \E i \in 1..Len(q) : Val(q[i]) = v

PushF(op, x) == Free(x) /\ (op = "push_front" \/ Kind \in OFwd \cup Dbl) /\ q' = <<x>> \o q /\ Keep /\ Ret(op, <<x>>, 0)
PushB(op, x) == Free(x) /\ (IF op = "push_back" THEN Kind \in {"iback"} \cup Dbl ELSE Kind \in Dbl)
                /\ q' = Append(q, x) /\ Keep /\ Ret(op, <<x>>, 0)
PopF == Kind \notin Dbl /\ q # <<>> /\ q' = Tail(q) /\ Keep /\ Ret("pop_front", <<>>, 0)
\* after position p; the returned iterator designates the new element
InsAfter(p, x) == Kind \in {"ifwd", "hfwd"} \cup OFwd /\ Free(x) /\ p < Len(q)
                  /\ q' = InsAt(p + 1, x) /\ Keep /\ Ret("insert_after", <<p, x>>, x)
\* before position p, the end included
InsBefore(p, x) == Kind \in Dbl /\ p <= Len(q)
                   /\ q' = InsAt(p, x) /\ Keep /\ Ret("insert", <<p, x>>, x)
\* the returned iterator designates what now follows p
EraseAfter(p) == Kind \in {"ifwd", "hfwd"} \cup OFwd /\ p + 1 < Len(q) /\ q' = DelAt(p + 1) /\ Keep
                 /\ Ret("erase_after", <<p>>, IF p + 2 < Len(q) THEN q[p + 3] ELSE -1)
ReplAfter(p, x) == Kind = "hfwd" /\ p + 1 < Len(q) /\ Free(x) /\ q' = [q EXCEPT ![p + 2] = x] /\ Keep
                   /\ Ret("replace_after", <<p, x>>, x)
Remove(op, v, first) == Kind \in (IF op = "remove" THEN {"ifwd"} ELSE {"ifwd"} \cup OFwd)
                    /\ q' = (IF ~first THEN Sel(q, v) ELSE IF Has(v) THEN DelAt(FirstIdx(v) - 1) ELSE q)
                    /\ Keep /\ Ret(op, <<v, IF first THEN 1 ELSE 0>>, 0)
Clear == Kind = "hfwd" /\ q' = <<>> /\ Keep /\ Ret("clear", <<>>, 0)
\* iterator arithmetic: begin + i, then + k or - k
Step(i, k) == i < Len(q) /\ i + k >= 0 /\ i + k < Len(q) /\ Kind \in {"ifwd", "iback"} \cup OFwd \cup Dbl
              /\ (k < 0 => Kind \in Dbl) /\ UNCHANGED <<cfg, q, dead>> /\ Ret("step", <<i, k>>, <<q[i + k + 1], q[i + k + 1]>>)
Dist(i, j) == Kind \in Dbl /\ i <= j /\ j <= Len(q) /\ UNCHANGED <<cfg, q, dead>> /\ Ret("dist", <<i, j>>, j - i)
\* removal by value, the value being a node of its own (in the list or not)
RemoveN(k, first) == Kind = "ifwd" /\ k \in 1..Len(NV)
                     /\ q' = (IF ~first THEN Sel(q, NV[k]) ELSE IF Has(NV[k]) THEN DelAt(FirstIdx(NV[k]) - 1) ELSE q)
                     /\ Keep /\ Ret("remove_n", <<k, IF first THEN 1 ELSE 0>>, 0)
End == q' = <<>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0, 0>>)

Do(op, a) == ~dead /\
  CASE op \in {"push_front", "push_front_m", "emplace_front"} -> PushF(op, a[1])
    [] op \in {"push_back", "push_back_m"} -> PushB(op, a[1])
    [] op = "pop_front" -> PopF
    [] op = "insert_after" -> InsAfter(a[1], a[2])
    [] op = "insert" -> InsBefore(a[1], a[2])
    [] op = "erase_after" -> EraseAfter(a[1])
    [] op = "replace_after" -> ReplAfter(a[1], a[2])
    [] op \in {"remove", "remove_if"} -> Remove(op, a[1], a[2] = 1)
    [] op = "remove_n" -> RemoveN(a[1], a[2] = 1)
    [] op = "clear" -> Clear
    [] op = "step" -> Step(a[1], a[2])
    [] op = "dist" -> Dist(a[1], a[2])
    [] op = "end" -> End
    [] OTHER -> FALSE

Next ==
  \/ Len(q) < MaxLen /\ \E x \in Xs :
       \/ \E op \in {"push_front", "push_front_m", "emplace_front", "push_back", "push_back_m"} : Do(op, <<x>>)
       \/ \E p \in 0..MaxLen, op \in {"insert_after", "insert"} : Do(op, <<p, x>>)
  \/ \E p \in 0..(MaxLen - 1) : Do("erase_after", <<p>>) \/ \E x \in Xs : Do("replace_after", <<p, x>>)
  \/ \E k \in Xs, f \in {0, 1} : Do("remove_n", <<k, f>>)
  \/ \E op \in {"remove", "remove_if"}, v \in Vals, f \in {0, 1} : Do(op, <<v, f>>)
  \/ \E i \in 0..(MaxLen - 1), k \in (-(MaxLen - 1))..(MaxLen - 1) : Do("step", <<i, k>>)
  \/ \E i \in 0..MaxLen, j \in 0..MaxLen : Do("dist", <<i, j>>)
  \/ \E op \in {"pop_front", "clear", "end"} : Do(op, <<>>)

\* an intrusive node is in the list at most once
TypeOK == Intr => Cardinality(Range(q)) = Len(q)
RemoveKeepsOrder == [][act'.op \in {"remove", "remove_if"} /\ act'.a[2] = 0 => q' = Sel(q, act'.a[1])]_vars
=============================================================================
