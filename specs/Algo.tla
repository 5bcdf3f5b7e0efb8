-------------------------------- MODULE Algo ---------------------------------
(* Sequence algorithms on ranges.
   cfg = <<kind, n>>: n elements reached through pointers "ptr", an array's iterators "arr", a
   vector's iterators "vec", bidirectional iterators "bid", forward iterators "fwd"; "mv": elements
   whose source becomes Gone when moved from.  Positions are 0-based; a range is <<i, j>>.      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals, Pats
VARIABLES cfg, s, dead, act
vars == <<cfg, s, dead, act>>
Key == <<cfg, s, dead>>
Kind == cfg[1]
N == cfg[2]
Gone == 9
Obs == IF dead THEN [z |-> 1] ELSE [ s |-> s ]
S0(c) == [i \in 1..c[2] |-> 0]
InitCfg(c) == cfg = c /\ s = S0(c) /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ s' = S0(c) /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ev(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Upd(op, a, new, r) == s' = new /\ UNCHANGED <<cfg, dead>> /\ Ev(op, a, r)
Ask(op, a, r) == UNCHANGED <<cfg, s, dead>> /\ Ev(op, a, r)
Range(i, j) == i \in 0..N /\ j \in i..N
Bid == Kind # "fwd"
At(k) == s[k + 1]                    \* 0-based
\* least k in lo..hi-1 satisfying, else hi
Least(lo, hi, P(_)) == IF \E k \in lo..(hi - 1) : P(k) THEN CHOOSE k \in lo..(hi - 1) : P(k) /\ \A m \in lo..(k - 1) : ~P(m) ELSE hi
Put(k, t) == [m \in 1..N |-> IF m > k /\ m <= k + Len(t) THEN t[m - k] ELSE s[m]]
Cut(i, j) == SubSeq(s, i + 1, j)
\* predicates and orders: equality; first argument at most the second; last digit of the element
Pr(p, x, y) == CASE p = "eq" -> x = y [] p = "le" -> x <= y [] p = "ge" -> x >= y
Lt(c, x, y) == CASE c = "lt" -> x < y [] c = "gt" -> x > y [] c = "par" -> x % 2 < y % 2
Set(k, v) == k \in 0..(N - 1) /\ Upd("set", <<k, v>>, [s EXCEPT ![k + 1] = v], 0)
Fill(i, j, v) == Range(i, j) /\ Upd("fill", <<i, j, v>>, [m \in 1..N |-> IF m > i /\ m <= j THEN v ELSE s[m]], 0)
FillN(i, n, v) == Range(i, i + n) /\ Upd("filln", <<i, n, v>>, [m \in 1..N |-> IF m > i /\ m <= i + n THEN v ELSE s[m]], i + n)
\* forward copies may overlap when the destination starts outside the source or at/before it
Copy(i, j, d) == Range(i, j) /\ Range(d, d + j - i) /\ (d <= i \/ d >= j) /\ Upd("copy", <<i, j, d>>, Put(d, Cut(i, j)), d + j - i)
CopyN(i, n, d) == Range(i, i + n) /\ Range(d, d + n) /\ (d <= i \/ d >= i + n) /\ Upd("copyn", <<i, n, d>>, Put(d, Cut(i, i + n)), d + n)
\* backward: destination end e outside (i, j), or equal to j; returns the start of the destination
BackOk(i, j, e) == Bid /\ Range(i, j) /\ Range(e - (j - i), e) /\ (e <= i \/ e >= j)
CopyB(i, j, e) == BackOk(i, j, e) /\ Upd("copyb", <<i, j, e>>, Put(e - (j - i), Cut(i, j)), e - (j - i))
MoveB(i, j, e) == LET d == e - (j - i) IN
  /\ BackOk(i, j, e) /\ (i = j \/ e # j)
  /\ Upd("moveb", <<i, j, e>>, [m \in 1..N |-> IF m > d /\ m <= e THEN s[m - d + i] ELSE IF Kind = "mv" /\ m > i /\ m <= j THEN Gone ELSE s[m]], d)
Rev(i, j) == Bid /\ Range(i, j) /\ Upd("rev", <<i, j>>, [m \in 1..N |-> IF m > i /\ m <= j THEN s[i + j + 1 - m] ELSE s[m]], 0)
Swap(p, q) == p \in 0..(N - 1) /\ q \in 0..(N - 1) /\ (p # q \/ Kind # "mv") /\ Upd("swap", <<p, q>>, [s EXCEPT ![p + 1] = At(q), ![q + 1] = At(p)], 0)
\* questions
Find(i, j, v) == Range(i, j) /\ Ask("find", <<i, j, v>>, Least(i, j, LAMBDA k : At(k) = v))
Equal(i, j, t) == Range(i, j) /\ Len(t) = j - i /\ Ask("equal", <<i, j, t>>, Cut(i, j) = t)
Mis(i, j, t) == Range(i, j) /\ Len(t) = j - i /\ LET k == Least(i, j, LAMBDA k : At(k) # t[k - i + 1]) IN Ask("mis", <<i, j, t>>, <<k, k - i>>)
Search(i, j, t, p) == Range(i, j) /\ Ask("search", <<i, j, t, p>>, Least(i, j, LAMBDA k : k + Len(t) <= j /\ \A m \in 1..Len(t) : Pr(p, At(k + m - 1), t[m])))
AnyOf(i, j, t, p) == Range(i, j) /\ Ask("ffo", <<i, j, t, p>>, Least(i, j, LAMBDA k : \E m \in 1..Len(t) : Pr(p, At(k), t[m])))
\* the first of the least / greatest
MinEl(i, j, c) == Range(i, j) /\ Ask("minel", <<i, j, c>>, Least(i, j, LAMBDA k : \A m \in i..(j - 1) : ~Lt(c, At(m), At(k))))
MaxEl(i, j, c) == Range(i, j) /\ Ask("maxel", <<i, j, c>>, Least(i, j, LAMBDA k : \A m \in i..(j - 1) : ~Lt(c, At(k), At(m))))
RECURSIVE Fold(_, _, _)
Fold(t, x, f) == IF t = <<>> THEN x ELSE Fold(Tail(t), IF f = "sum" THEN x + Head(t) ELSE 2 * x + Head(t), f)
Acc(i, j, x, f) == Range(i, j) /\ Ask("acc", <<i, j, x, f>>, Fold(Cut(i, j), x, f))
\* which argument: 0 first, 1 second, 2 third
Min2(p, q) == p \in 0..(N - 1) /\ q \in 0..(N - 1) /\ Ask("min", <<p, q>>, IF At(q) < At(p) THEN 1 ELSE 0)
Max2(p, q) == p \in 0..(N - 1) /\ q \in 0..(N - 1) /\ Ask("max", <<p, q>>, IF At(q) > At(p) THEN 1 ELSE 0)
MinC(p, q, c) == p \in 0..(N - 1) /\ q \in 0..(N - 1) /\ Ask("minc", <<p, q, c>>, IF Lt(c, At(q), At(p)) THEN 1 ELSE 0)
Clamp(v, lo, hi, c) == ~Lt(c, hi, lo) /\ Ask("clamp", <<v, lo, hi, c>>, IF Lt(c, v, lo) THEN 1 ELSE IF Lt(c, hi, v) THEN 2 ELSE 0)
End == dead' = TRUE /\ UNCHANGED <<cfg, s>> /\ Ev("end", <<>>, 0)
Do(op, x) == ~dead /\
  CASE op = "set" -> Set(x[1], x[2]) [] op = "fill" -> Fill(x[1], x[2], x[3]) [] op = "filln" -> FillN(x[1], x[2], x[3])
    [] op = "copy" -> Copy(x[1], x[2], x[3]) [] op = "copyn" -> CopyN(x[1], x[2], x[3]) [] op = "copyb" -> CopyB(x[1], x[2], x[3])
    [] op = "moveb" -> MoveB(x[1], x[2], x[3]) [] op = "rev" -> Rev(x[1], x[2]) [] op = "swap" -> Swap(x[1], x[2])
    [] op = "find" -> Find(x[1], x[2], x[3]) [] op = "equal" -> Equal(x[1], x[2], x[3]) [] op = "mis" -> Mis(x[1], x[2], x[3])
    [] op = "search" -> Search(x[1], x[2], x[3], x[4]) [] op = "ffo" -> AnyOf(x[1], x[2], x[3], x[4]) [] op = "minel" -> MinEl(x[1], x[2], x[3])
    [] op = "maxel" -> MaxEl(x[1], x[2], x[3]) [] op = "acc" -> Acc(x[1], x[2], x[3], x[4]) [] op = "min" -> Min2(x[1], x[2]) [] op = "max" -> Max2(x[1], x[2])
    [] op = "minc" -> MinC(x[1], x[2], x[3]) [] op = "clamp" -> Clamp(x[1], x[2], x[3], x[4]) [] op = "end" -> End [] OTHER -> FALSE
P == 0..N
Cs == {"lt", "gt", "par"}
Next == \/ Do("end", <<>>)
        \/ \E k \in P, v \in Vals : Do("set", <<k, v>>)
        \/ \E i \in P, j \in P : \/ \E v \in Vals : Do("fill", <<i, j, v>>) \/ Do("filln", <<i, j, v>>) \/ Do("find", <<i, j, v>>)
                                 \/ \E d \in P, op \in {"copy", "copyn", "copyb", "moveb"} : Do(op, <<i, j, d>>)
                                 \/ \E op \in {"rev", "swap", "min", "max"} : Do(op, <<i, j>>)
                                 \/ \E t \in Pats : \/ Do("equal", <<i, j, t>>) \/ Do("mis", <<i, j, t>>)
                                                    \/ \E p \in {"eq", "le"} : Do("search", <<i, j, t, p>>) \/ Do("ffo", <<i, j, t, p>>)
                                 \/ \E c \in Cs : Do("minel", <<i, j, c>>) \/ Do("maxel", <<i, j, c>>) \/ Do("minc", <<i, j, c>>)
                                 \/ \E f \in {"sum", "lin"} : Do("acc", <<i, j, 1, f>>)
        \/ \E v \in Vals, lo \in Vals, hi \in Vals, c \in Cs : Do("clamp", <<v, lo, hi, c>>)
TypeOK == Len(s) = N /\ \A k \in 1..N : s[k] >= 0
\* permutations lose nothing
Count(t, v) == Len(SelectSeq(t, LAMBDA z : z = v))
Perm == [][act'.op \in {"rev", "swap"} => \A v \in Vals : Count(s', v) = Count(s, v)]_vars
=============================================================================
