------------------------------- MODULE Vector -------------------------------
(* Sequence containers of the dynamic-array family: layer1/layer2/layer3
   vector (fixed storage of cfg[2] elements) and the allocator-backed vector
   (cfg[2] is then only the bound this model explores).

   State: the abstract sequence v.  Every operation is a total function of the
   sequence; its guard is the documented precondition (no growth past fixed
   capacity, positions in range).  "Storage" never leaves the owner's buffer:
   Obs reports the guard bytes around it.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, Bulk      \* element values / bulk sequences used by Next
VARIABLES cfg, v, dead, act
vars == <<cfg, v, dead, act>>

Variant == cfg[1]
Cap == cfg[2]
Dyn == Variant = "dyn"

Key == <<cfg, v, dead>>
Obs == IF dead THEN 0 ELSE
  [ n |-> Len(v), e |-> (v = <<>>), it |-> v, ix |-> v,
    cap |-> (IF Dyn THEN Len(v) ELSE Cap), ok |-> TRUE ]

Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
\* a vector may adopt what its storage already holds, or be built from a list
V0(c) == IF Len(c) = 3 THEN c[3] ELSE <<>>
InitCfg(c) == cfg = c /\ v = V0(c) /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ v' = V0(c) /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]

Fits(n) == Len(v) + n <= Cap
Same == UNCHANGED <<cfg, dead>>
Set(x) == v' = x /\ Same
Read == UNCHANGED <<cfg, v, dead>>

InsertAt(s, p, t) == SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))
RemoveAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
FindIdx(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN (CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x) - 1
                 ELSE Len(s)

PushBack(op, x)  == Fits(1) /\ Set(Append(v, x)) /\ Ret(op, <<x>>, Len(v) + 1)
EmplaceBack(x)   == Fits(1) /\ Set(Append(v, x)) /\ Ret("emplace_back", <<x>>, x)
PopBack          == v # <<>> /\ Set(SubSeq(v, 1, Len(v) - 1)) /\ Ret("pop_back", <<>>, 0)
AppendSeq(op, s) == Fits(Len(s)) /\ Set(v \o s) /\ Ret(op, <<s>>, 0)
AssignArr(s)     == Len(s) <= Cap /\ Set(s) /\ Ret("assign", <<s>>, 0)
Insert(op, p, x) == Fits(1) /\ p <= Len(v) /\ Set(InsertAt(v, p, <<x>>)) /\ Ret(op, <<p, x>>, p)
InsertSeq(p, s)  == Fits(Len(s)) /\ p <= Len(v) /\ Set(InsertAt(v, p, s)) /\ Ret("insert_range", <<p, s>>, p)
\* an element of the vector itself as the argument
PushSelf(i)      == i < Len(v) /\ Fits(1) /\ Set(Append(v, v[i + 1])) /\ Ret("push_self", <<i>>, Len(v) + 1)
InsertSelf(p, i) == i < Len(v) /\ p <= Len(v) /\ Fits(1) /\ Set(InsertAt(v, p, <<v[i + 1]>>)) /\ Ret("insert_self", <<p, i>>, p)
AppendSelf       == ~Dyn /\ Fits(Len(v)) /\ Set(v \o v) /\ Ret("append_self", <<>>, 0)
Erase(p)         == p < Len(v) /\ Set(RemoveAt(v, p)) /\ Ret("erase", <<p>>, p)
\* resize: surviving prefix is kept; a grown tail is indeterminate until written,
\* so the driver writes x to each new slot
Resize(n, x)     == n <= Cap /\ Set([i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE x]) /\ Ret("resize", <<n, x>>, TRUE)
Clear            == Set(<<>>) /\ Ret("clear", <<>>, 0)
SetAt(op, p, x)  == p < Len(v) /\ Set([v EXCEPT ![p + 1] = x]) /\ Ret(op, <<p, x>>, 0)
Front            == v # <<>> /\ Read /\ Ret("front", <<>>, v[1])
Back             == v # <<>> /\ Read /\ Ret("back", <<>>, v[Len(v)])
At(p)            == p < Len(v) /\ Read /\ Ret("at", <<p>>, v[p + 1])
Reverse          == Read /\ Ret("reverse_iter", <<>>, Rev(v))
Eq(s)            == Read /\ Ret("eq", <<s>>, v = s)
Find(x)          == Read /\ Ret("find", <<x>>, FindIdx(v, x))
CopyOut(n, p)    == p <= Len(v) /\ Read /\
                    Ret("copy", <<n, p>>, LET k == IF p + n > Len(v) THEN Len(v) - p ELSE n
                                          IN SubSeq(v, p + 1, p + k))
IterMath(i, j)   == i <= Len(v) /\ j <= Len(v) /\ Read /\ Ret("iter", <<i, j>>, <<j - i, i < j, i = j, i > j, i >= j>>)
\* subsequences: first occurrence at or after pos, last at or before pos (-1: anywhere); likewise any of the elements of s
OccursAt(s, p)   == p + Len(s) <= Len(v) /\ \A i \in 1..Len(s) : v[p + i] = s[i]
AnyAt(s, p)      == \E i \in 1..Len(s) : v[p + 1] = s[i]
Least(S)         == IF S = {} THEN 0 - 1 ELSE CHOOSE k \in S : \A y \in S : k <= y
Most(S)          == IF S = {} THEN 0 - 1 ELSE CHOOSE k \in S : \A y \in S : k >= y
Upto(pos, m)     == 0..(IF pos = 0 - 1 \/ pos > m THEN m ELSE pos)
Search(op, s, p) == Read /\ (op \in {"search", "first_of"} => p >= 0) /\ Ret(op, <<s, p>>,
  CASE op = "search" -> Least({k \in p..Len(v) : OccursAt(s, k)})
    [] op = "rsearch" -> Most({k \in Upto(p, Len(v)) : OccursAt(s, k)})
    [] op = "first_of" -> Least({k \in p..(Len(v) - 1) : AnyAt(s, k)})
    [] op = "last_of" -> Most({k \in Upto(p, Len(v) - 1) : AnyAt(s, k)}))
\* one step of an iterator from p, forth and back: what it++ and it-- were at, and where they lead
Step(p)          == p + 1 < Len(v) /\ Read /\ Ret("step", <<p>>, <<v[p + 1], v[p + 2], v[p + 2], v[p + 1], v[1]>>)
\* a copy of a layer1 vector is independent: mutating the copy leaves the original
CopyIndep(x)     == v # <<>> /\ Variant \in {"l1", "l1u8", "l1pod", "l1i"} /\ Read /\ Ret("copy_indep", <<x>>, [v EXCEPT ![1] = x])
\* reserve on the allocator-backed vector never alters contents
Reserve(n)       == Dyn /\ n >= Len(v) /\ Read /\ Ret("reserve", <<n>>, TRUE)
Shrink           == Dyn /\ v # <<>> /\ Read /\ Ret("shrink_to_fit", <<>>, 0)
End              == v' = <<>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)

Do(op, a) == ~dead /\
  CASE op = "push_back"    -> PushBack(op, a[1])
    [] op = "push_move"    -> PushBack(op, a[1])
    [] op = "emplace_back" -> EmplaceBack(a[1])
    [] op = "pop_back"     -> PopBack
    [] op = "append_ptr"   -> AppendSeq(op, a[1])
    [] op = "append_arr"   -> AppendSeq(op, a[1])
    [] op = "assign"       -> AssignArr(a[1])
    [] op = "insert"       -> Insert(op, a[1], a[2])
    [] op = "insert_move"  -> Insert(op, a[1], a[2])
    [] op = "insert_range" -> InsertSeq(a[1], a[2])
    [] op = "erase"        -> Erase(a[1])
    [] op = "resize"       -> Resize(a[1], a[2])
    [] op = "clear"        -> Clear
    [] op = "set_ix"       -> SetAt(op, a[1], a[2])
    [] op = "set_it"       -> SetAt(op, a[1], a[2])
    [] op = "front"        -> Front
    [] op = "back"         -> Back
    [] op = "at"           -> At(a[1])
    [] op = "reverse_iter" -> Reverse
    [] op = "eq"           -> Eq(a[1])
    [] op = "find"         -> Find(a[1])
    [] op = "copy"         -> CopyOut(a[1], a[2])
    [] op = "iter"         -> IterMath(a[1], a[2])
    [] op = "push_self"    -> PushSelf(a[1])
    [] op = "insert_self"  -> InsertSelf(a[1], a[2])
    [] op = "append_self"  -> AppendSelf
    [] op \in {"search", "rsearch", "first_of", "last_of"} -> Search(op, a[1], a[2])
    [] op = "step"         -> Step(a[1])
    [] op = "copy_indep"   -> CopyIndep(a[1])
    [] op = "reserve"      -> Reserve(a[1])
    [] op = "shrink_to_fit"-> Shrink
    [] op = "end"          -> End
    [] OTHER -> FALSE

Next ==
  \/ \E x \in Vals, op \in {"push_back", "push_move", "emplace_back", "find", "copy_indep"} : Do(op, <<x>>)
  \/ \E op \in {"pop_back", "clear", "front", "back", "reverse_iter", "shrink_to_fit", "append_self", "end"} : Do(op, <<>>)
  \/ \E s \in Bulk, op \in {"append_ptr", "append_arr", "assign", "eq"} : Do(op, <<s>>)
  \/ Do("eq", <<v>>)
  \/ \E p \in 0..Cap, x \in Vals, op \in {"insert", "insert_move", "set_ix", "set_it", "resize"} : Do(op, <<p, x>>)
  \/ \E p \in 0..Cap, s \in Bulk : Do("insert_range", <<p, s>>)
  \/ \E p \in 0..Cap, op \in {"erase", "at", "push_self", "step"} : Do(op, <<p>>)
  \/ \E p, i \in 0..Cap : Do("insert_self", <<p, i>>)
  \/ \E s \in Bulk \cup {<<1>>, <<2, 2>>}, p \in (0 - 1)..Cap, op \in {"search", "rsearch", "first_of", "last_of"} : Do(op, <<s, p>>)
  \/ \E n \in {0, 2, Cap}, p \in {0, 1, Cap} : Do("copy", <<n, p>>)
  \/ \E i, j \in {0, 1, Cap} : Do("iter", <<i, j>>)
  \/ \E n \in {1, Cap} : Do("reserve", <<n>>)

TypeOK == Len(v) <= Cap
Spec == InitCfg(<<"l1", 4>>) /\ [][Next]_vars
\* element order is never disturbed by an operation that only removes
RemoveKeepsOrder == [][act'.op = "erase" => \A i \in 1..Len(v') : v'[i] = IF i <= act'.a[1] THEN v[i] ELSE v[i + 1]]_vars
=============================================================================
