-------------------------------- MODULE Handle --------------------------------
(* Containers over memory that moves.  The allocator of these containers deals in handles; the block
   behind a handle has an address only while it is locked, and moves whenever its last lock goes.
   cfg = <<container, allocator>>: vectors of 4 and 2-byte elements and a string; handles that stay the
   same when a block is resized ("st", and "sz" when the allocator also knows each block's size), or
   change ("mv").

   State: the contents a and b of two containers, the locks the user holds on a (hp: the positions asked
   for), how much a is known to have room for (hi), and an accessor to one of a's elements (acc, or -1).
   What is outstanding in the heap after any operation is exactly what the user holds.                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals, Bulk, MaxLen
VARIABLES cfg, a, b, hp, hi, acc, dead, act
vars == <<cfg, a, b, hp, hi, acc, dead, act>>
Key == <<cfg, a, b, hp, hi, acc, dead>>
Str == cfg[1] = "str"
Stable == cfg[2] # "mv"
None == 0 - 1
InitCfg(c) == cfg = c /\ a = <<>> /\ b = <<>> /\ hp = <<>> /\ hi = 0 /\ acc = None /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ a' = <<>> /\ b' = <<>> /\ hp' = <<>> /\ hi' = 0 /\ acc' = None /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Obs == IF dead THEN [z |-> 1] ELSE [ a |-> a, b |-> b, n |-> <<Len(a), Len(b)>>, locked |-> Len(hp), err |-> "", room |-> TRUE ]
Fin(op, x, r) == act' = [op |-> op, a |-> x, r |-> r]
Max(x, y) == IF x > y THEN x ELSE y
Ins(s, p, t) == SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))
Rem(s, p, n) == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
\* a becomes s: a block may be resized only while nobody holds it, and a moving handle leaves accessors behind
Room(s) == Len(s) <= hi
To(s) == (hp = <<>> \/ Room(s)) /\ a' = s /\ hi' = Max(hi, Len(s)) /\ acc' = (IF Stable \/ Room(s) THEN acc ELSE None) /\ UNCHANGED <<b, hp>>
Read == UNCHANGED <<a, b, hp, hi, acc>>
Pos(i) == i >= 0 /\ i < Len(a)
Push(op, x) == To(Append(a, x)) /\ Fin(op, <<x>>, Len(a) + 1)
Emplace(x) == ~Str /\ To(Append(a, x)) /\ Fin("emplace", <<x>>, x)
App(op, s) == (op \in {"app", "app_l1"} \/ Str) /\ To(a \o s) /\ Fin(op, <<s>>, 0)
AppB(op) == To(a \o b) /\ Fin(op, <<>>, 0)
Set(op, s) == To(s) /\ Fin(op, <<s>>, 0)
SetB == To(b) /\ Fin("set_b", <<>>, 0)
Insert(op, p, x) == ~Str /\ p <= Len(a) /\ To(Ins(a, p, <<x>>)) /\ Fin(op, <<p, x>>, 0)
InsertS(p, s) == p <= Len(a) /\ To(Ins(a, p, s)) /\ Fin("ins_s", <<p, s>>, 0)
InsertB(p) == Str /\ p <= Len(a) /\ To(Ins(a, p, b)) /\ Fin("ins_b", <<p>>, 0)
PushSelf(i) == ~Str /\ Pos(i) /\ hp = <<>> /\ To(Append(a, a[i + 1])) /\ Fin("push_self", <<i>>, 0)
Rep(n, x) == Str /\ To(a \o [k \in 1..n |-> x]) /\ Fin("rep", <<n, x>>, 0)
Erase(p, n) == p <= Len(a) /\ p + n <= Len(a) /\ (Str \/ n = 1) /\ To(Rem(a, p, n)) /\ Fin("erase", <<p, n>>, 0)
Pop == a # <<>> /\ To(SubSeq(a, 1, Len(a) - 1)) /\ Fin("pop", <<>>, 0)
Resize(n, x) == To([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE x]) /\ Fin("resize", <<n, x>>, TRUE)
Clear == To(<<>>) /\ Fin("clear", <<>>, 0)
\* only ever reserving or dropping room: nothing else changes
Room0(op, n) == hp = <<>> /\ n >= Len(a) /\ hi' = n /\ acc' = (IF Stable THEN acc ELSE None) /\ UNCHANGED <<a, b, hp>>
Reserve(n) == Room0("reserve", n) /\ Fin("reserve", <<n>>, TRUE)
Shrink == Room0("shrink", Len(a)) /\ Fin("shrink", <<>>, 0)
\* the heap has no more: the answer is no and everything is as it was
Refused(how) == hp = <<>> /\ how \in {"reserve", "resize", "insert"} /\ Read /\ Fin("refused", <<how>>, IF how = "insert" THEN 0 ELSE FALSE)
\* the other container
BPush(x) == b' = Append(b, x) /\ UNCHANGED <<a, hp, hi, acc>> /\ Fin("bpush", <<x>>, 0)
BSet == b' = a /\ UNCHANGED <<a, hp, hi, acc>> /\ Fin("bset", <<>>, 0)
BPop == b # <<>> /\ b' = SubSeq(b, 1, Len(b) - 1) /\ UNCHANGED <<a, hp, hi, acc>> /\ Fin("bpop", <<>>, 0)
\* questions
EqB(op) == Read /\ Fin(op, <<>>, a = b)
EqS(s) == Read /\ Fin("eq_s", <<s>>, a = s)
Sgn(s, t) == IF Len(s) < Len(t) THEN 0 - 1 ELSE IF Len(s) > Len(t) THEN 1 ELSE IF s = t THEN 0
  ELSE LET k == CHOOSE k \in 1..Len(s) : s[k] # t[k] /\ \A j \in 1..(k - 1) : s[j] = t[j] IN IF s[k] < t[k] THEN 0 - 1 ELSE 1
CmpB == Str /\ Read /\ Fin("cmp_b", <<>>, Sgn(a, b))
CmpS(s) == Str /\ Read /\ Fin("cmp_s", <<s>>, Sgn(a, s))
Starts(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
Ends(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
WithB == Str /\ Read /\ Fin("with_b", <<>>, <<Starts(a, b), Ends(a, b)>>)
WithS(s) == Str /\ Read /\ Fin("with_s", <<s>>, <<Starts(a, s), Ends(a, s)>>)
WithC(x) == Str /\ Read /\ Fin("with_c", <<x>>, <<Starts(a, <<x>>), Ends(a, <<x>>)>>)
OccursAt(s, p) == p + Len(s) <= Len(a) /\ \A i \in 1..Len(s) : a[p + i] = s[i]
AnyAt(s, p) == \E i \in 1..Len(s) : a[p + 1] = s[i]
Least(S) == IF S = {} THEN 0 - 1 ELSE CHOOSE k \in S : \A y \in S : k <= y
Most(S) == IF S = {} THEN 0 - 1 ELSE CHOOSE k \in S : \A y \in S : k >= y
Upto(p, m) == 0..(IF p = 0 - 1 \/ p > m THEN m ELSE p)
Found(op, s, p) == CASE op = "search" -> Least({k \in p..Len(a) : OccursAt(s, k)})
    [] op = "rsearch" -> Most({k \in Upto(p, Len(a)) : OccursAt(s, k)})
    [] op = "first_of" -> Least({k \in p..(Len(a) - 1) : AnyAt(s, k)})
    [] op = "last_of" -> Most({k \in Upto(p, Len(a) - 1) : AnyAt(s, k)})
SearchOp(op) == op \in {"search", "rsearch", "first_of", "last_of"}
Search(op, s, p) == SearchOp(op) /\ Read /\ (op \in {"search", "first_of"} => p >= 0) /\ Fin(op, <<s, p>>, Found(op, s, p))
SearchB(op, p) == Str /\ SearchOp(op) /\ Read /\ (op \in {"search", "first_of"} => p >= 0) /\ Fin("b", <<op, p>>, Found(op, b, p))
FindC(x, p) == Str /\ p >= 0 /\ Read /\ Fin("find_c", <<x, p>>, Least({k \in p..(Len(a) - 1) : a[k + 1] = x}))
Copy(n, p) == p <= Len(a) /\ Read /\ Fin("copy", <<n, p>>, SubSeq(a, p + 1, IF p + n > Len(a) THEN Len(a) ELSE p + n))
\* a container with its own storage takes a's content
ToFixed == Read /\ Fin("to_fixed", <<>>, a)
Out == Str /\ Read /\ Fin("out", <<>>, a)
At(how, i) == how \in {"ix", "at", "front", "back", "iter"} /\ Pos(i) /\ (how = "front" => i = 0) /\ (how = "back" => i = Len(a) - 1) /\ Read /\ Fin("get", <<how, i>>, a[i + 1])
Put(how, i, x) == how \in {"ix", "at", "front", "back", "iter", "lock"} /\ Pos(i) /\ (how = "front" => i = 0) /\ (how = "back" => i = Len(a) - 1) /\ To([a EXCEPT ![i + 1] = x]) /\ Fin("put", <<how, i, x>>, 0)
Swap(i, j) == Pos(i) /\ Pos(j) /\ i # j /\ To([a EXCEPT ![i + 1] = a[j + 1], ![j + 1] = a[i + 1]]) /\ Fin("swap", <<i, j>>, 0)
\* locks the user takes: the address given stays good, and shows the element, until the lock goes
Hold(how, i) == how \in {"lock", "clock"} /\ Pos(i) /\ Len(hp) < 3 /\ hp' = Append(hp, i) /\ UNCHANGED <<a, b, hi, acc>> /\ Fin("hold", <<how, i>>, a[i + 1])
HGet(k) == k \in 1..Len(hp) /\ Pos(hp[k]) /\ Read /\ Fin("hget", <<k>>, a[hp[k] + 1])
HPut(k, x) == k \in 1..Len(hp) /\ Pos(hp[k]) /\ To([a EXCEPT ![hp[k] + 1] = x]) /\ Fin("hput", <<k, x>>, 0)
Drop == hp # <<>> /\ hp' = SubSeq(hp, 1, Len(hp) - 1) /\ UNCHANGED <<a, b, hi, acc>> /\ Fin("drop", <<>>, 0)
\* an accessor denotes its element wherever the block has gone since
Take(i) == Pos(i) /\ acc' = i /\ UNCHANGED <<a, b, hp, hi>> /\ Fin("take", <<i>>, 0)
AGet(how) == how \in {"conv", "cconv", "lock", "clock", "copy"} /\ Pos(acc) /\ Read /\ Fin("aget", <<how>>, a[acc + 1])
APut(x) == Pos(acc) /\ To([a EXCEPT ![acc + 1] = x]) /\ Fin("aput", <<x>>, 0)
ACmp(x) == Pos(acc) /\ Read /\ LET v == a[acc + 1] IN Fin("acmp", <<x>>, <<v = x, v # x, v < x, v > x>>)
End == dead' = TRUE /\ UNCHANGED <<cfg, a, b, hp, hi, acc>> /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Do(op, x) == ~dead /\ IF op = "end" THEN End ELSE /\ UNCHANGED <<cfg, dead>>
  /\ CASE op \in {"push", "push_move"} -> Push(op, x[1]) [] op = "emplace" -> Emplace(x[1]) [] op \in {"app", "app_l1", "app_c", "plus_c"} -> App(op, x[1])
    [] op \in {"app_b", "plus_b"} -> (op = "app_b" \/ Str) /\ AppB(op) [] op \in {"set_l1", "set_c"} -> (op = "set_l1" \/ Str) /\ Set(op, x[1]) [] op = "set_b" -> SetB
    [] op \in {"ins", "ins_move"} -> Insert(op, x[1], x[2]) [] op = "ins_s" -> InsertS(x[1], x[2]) [] op = "ins_b" -> InsertB(x[1]) [] op = "push_self" -> PushSelf(x[1]) [] op = "rep" -> Rep(x[1], x[2])
    [] op = "erase" -> Erase(x[1], x[2]) [] op = "pop" -> Pop [] op = "resize" -> Resize(x[1], x[2]) [] op = "clear" -> Clear [] op = "reserve" -> Reserve(x[1]) [] op = "shrink" -> Shrink
    [] op = "refused" -> Refused(x[1]) [] op = "bpush" -> BPush(x[1]) [] op = "bset" -> BSet [] op = "bpop" -> BPop [] op \in {"eq_b", "eq_l1"} -> EqB(op) [] op = "eq_s" -> EqS(x[1])
    [] op = "cmp_b" -> CmpB [] op = "cmp_s" -> CmpS(x[1]) [] op = "with_b" -> WithB [] op = "with_s" -> WithS(x[1]) [] op = "with_c" -> WithC(x[1])
    [] SearchOp(op) -> Search(op, x[1], x[2]) [] op = "b" -> SearchB(x[1], x[2]) [] op = "find_c" -> FindC(x[1], x[2]) [] op = "copy" -> Copy(x[1], x[2]) [] op = "to_fixed" -> ToFixed [] op = "out" -> Out
    [] op = "get" -> At(x[1], x[2]) [] op = "put" -> Put(x[1], x[2], x[3]) [] op = "swap" -> Swap(x[1], x[2])
    [] op = "hold" -> Hold(x[1], x[2]) [] op = "hget" -> HGet(x[1]) [] op = "hput" -> HPut(x[1], x[2]) [] op = "drop" -> Drop
    [] op = "take" -> Take(x[1]) [] op = "aget" -> AGet(x[1]) [] op = "aput" -> APut(x[1]) [] op = "acmp" -> ACmp(x[1]) [] OTHER -> FALSE
\* bounded exploration: one lock at a time except in a corner, the other container small
Idx == 0..(MaxLen - 1)
Small == Len(b) <= 1
Step == \/ \E x \in Vals : \/ \E op \in {"push", "push_move", "emplace", "aput", "acmp", "with_c"} : Do(op, <<x>>)
                           \/ (Len(b) < 2 /\ hp = <<>> /\ acc = None /\ Do("bpush", <<x>>))
                           \/ \E i \in 0..MaxLen : Do("ins", <<i, x>>) \/ Do("ins_move", <<i, x>>) \/ Do("resize", <<i, x>>) \/ Do("find_c", <<x, i>>) \/ \E how \in {"ix", "at", "front", "back", "iter", "lock"} : Do("put", <<how, i, x>>)
                           \/ \E k \in 1..2 : Do("hput", <<k, x>>)
                           \/ \E n \in 0..2 : Do("rep", <<n, x>>)
        \/ \E op \in {"app_b", "plus_b", "set_b", "pop", "clear", "shrink", "eq_b", "eq_l1", "cmp_b", "with_b", "to_fixed", "out", "end", "drop", "bpop"} : Do(op, <<>>)
        \/ (hp = <<>> /\ acc = None /\ Len(a) <= 2 /\ Do("bset", <<>>))
        \/ \E s \in Bulk : \/ \E op \in {"app", "app_l1", "app_c", "plus_c", "set_l1", "set_c", "eq_s", "cmp_s", "with_s"} : Do(op, <<s>>)
                           \/ \E p \in 0..2 : Do("ins_s", <<p, s>>)
                           \/ \E p \in {0 - 1, 0, 1, 3}, op \in {"search", "rsearch", "first_of", "last_of"} : Small /\ Do(op, <<s, p>>)
        \/ \E p \in {0 - 1, 0, 1, 3}, op \in {"search", "rsearch", "first_of", "last_of"} : Do("b", <<op, p>>)
        \/ \E i \in Idx : \/ Do("ins_b", <<i>>) \/ Do("push_self", <<i>>) \/ Do("take", <<i>>) \/ Do("reserve", <<i + 1>>)
                          \/ \E n \in 0..2 : Do("erase", <<i, n>>) \/ Do("copy", <<n, i>>)
                          \/ \E how \in {"ix", "at", "front", "back", "iter"} : Do("get", <<how, i>>)
                          \/ \E j \in Idx : Do("swap", <<i, j>>)
                          \/ \E how \in {"lock", "clock"} : (Len(hp) < 2 /\ b = <<>> /\ acc \in {None, 0} /\ (hp # <<>> => i # hp[1]) /\ Do("hold", <<how, i>>))
        \/ \E k \in 1..2 : Do("hget", <<k>>)
        \/ \E how \in {"conv", "cconv", "lock", "clock", "copy"} : Do("aget", <<how>>)
        \/ \E how \in {"reserve", "resize", "insert"} : Do("refused", <<how>>)
Next == Step /\ Len(a') <= MaxLen /\ hi' <= MaxLen
TypeOK == Len(a) <= hi /\ acc >= None
\* nothing that leaves the content alone takes or gives up a lock
Balanced == [][hp' # hp => act'.op \in {"hold", "drop", "reset"}]_vars
===============================================================================
