-------------------------------- MODULE Tuple --------------------------------
(* Two tuples (or pairs) of one type; a tuple is the sequence of its elements.
   cfg = <<kind>>: "iii" three ints, "isl" int, short, long, "tet" a counted element, an empty class, a
   counted element, "eie" empty class, int, empty class, "nst" a tuple of two in a tuple, flattened,
   "ref" two references around a long, "pii" pair of ints, "pts" pair of counted element and short.
   Elements of empty class show as 0.  -9 is left where a counted element was moved out.
   Reference elements denote two integers outside, shared by copies.                              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals, Deltas, Lim
VARIABLES cfg, a, b, dead, act
vars == <<cfg, a, b, dead, act>>
Key == <<cfg, a, b, dead>>
Kind == cfg[1]
KN(k) == IF k \in {"pii", "pts"} THEN 2 ELSE 3
N == KN(Kind)
Pair == N = 2
Gone == 0 - 9
\* positions of each nature
Void == CASE Kind = "tet" -> {2} [] Kind = "eie" -> {1, 3} [] OTHER -> {}
Cnt == CASE Kind = "tet" -> {1, 3} [] Kind = "pts" -> {1} [] OTHER -> {}
Ref == IF Kind = "ref" THEN {1, 3} ELSE {}
Zero(k) == IF k \in {"pii", "pts"} THEN <<0, 0>> ELSE <<0, 0, 0>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ a |-> a, b |-> b, n |-> N, live |-> 2 * (CASE Kind = "tet" -> 2 [] Kind = "pts" -> 1 [] OTHER -> 0),
    ext |-> IF Kind = "ref" THEN <<a[1], a[3]>> ELSE <<>>, small |-> TRUE ]
InitCfg(c) == cfg = c /\ a = Zero(c[1]) /\ b = Zero(c[1]) /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ a' = Zero(c[1]) /\ b' = Zero(c[1]) /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
\* what both are when a and b are given new elements: references show the same integers
Both(x, y) == IF Kind = "ref" THEN <<x, <<x[1], y[2], x[3]>>>> ELSE <<x, y>>
Fin(op, x, s, r) == a' = s[1] /\ b' = s[2] /\ UNCHANGED <<cfg, dead>> /\ act' = [op |-> op, a |-> x, r |-> r]
\* t is "a" or "b"
Get(t) == IF t = "a" THEN a ELSE b
Put(t, v) == IF t = "a" THEN Both(v, b)
             ELSE IF Kind = "ref" THEN <<<<v[1], a[2], v[3]>>, v>> ELSE <<a, v>>
Fit(v) == \A i \in 1..N : (i \in Void => v[i] = 0)
Ok(v) == v \in (0 - 32768)..32767
T(t) == t \in {"a", "b"}
Moved(s) == [i \in 1..N |-> IF i \in Cnt THEN Gone ELSE s[i]]
Set(t, i, v) == T(t) /\ i \in 1..N /\ i \notin Void /\ Ok(v) /\ Fin("set", <<t, i, v>>, Put(t, [Get(t) EXCEPT ![i] = v]), 0)
SetT(t, i, v) == T(t) /\ Ok(v) /\ ((Kind = "isl" /\ i \in 1..3) \/ (Kind = "eie" /\ i = 2)) /\ Fin("sett", <<t, i, v>>, Put(t, [Get(t) EXCEPT ![i] = v]), 0)
\* built anew by constructor, by make_tuple / make_pair, or piecewise
Make(f, t, s) == T(t) /\ Kind # "ref" /\ f \in {"ctor", "make", "piece"} /\ (f = "piece" => Pair) /\ Len(s) = N /\ Fit(s)
  /\ Fin("mk", <<f, t, s>>, Put(t, s), 0)
Copy == Fin("copy", <<>>, Both(a, a), 0)
Assign == Pair /\ Fin("assign", <<>>, Both(a, a), 0)
Move == Fin("move", <<>>, Both(Moved(a), a), 0)
MoveAssign == Pair /\ ~Pair /\ Fin("massign", <<>>, Both(Moved(a), a), 0)
Swap == Pair /\ Fin("swap", <<>>, <<b, a>>, 0)
\* an element out of an rvalue
Take(f, i) == ~Pair /\ i \in 1..N /\ i \notin Void /\ (f = "type" => Kind \in {"isl", "eie"}) /\ f \in {"idx", "type"}
  /\ Fin("take", <<f, i>>, Both([a EXCEPT ![i] = IF i \in Cnt THEN Gone ELSE @], b), a[i])
ConstTake(i) == ~Pair /\ i \in 1..N /\ i \notin Void /\ Fin("ctake", <<i>>, <<a, b>>, a[i])
\* elements passed to a function, in order, as themselves; the function adds d to each
Shift(s, d) == [i \in 1..N |-> IF i \in Void THEN 0 ELSE s[i] + d]
Apply(t, d) == T(t) /\ ~Pair /\ (\A i \in 1..N : Ok(Get(t)[i] + d)) /\ Fin("apply", <<t, d>>, Put(t, Shift(Get(t), d)), Get(t))
ApplyConst == ~Pair /\ Fin("capply", <<>>, <<a, b>>, a)
ApplyMove == ~Pair /\ Fin("mapply", <<>>, Both(Moved(a), b), a)
MakeFrom == ~Pair /\ Kind # "ref" /\ Fin("mft", <<>>, Both(Moved(a), b), a)
\* visited in order with their indices until the visitor says stop (index s); each visited one gets d added
Visit(t, s, d) == T(t) /\ ~Pair /\ s \in 0..N /\ (\A i \in 1..N : Ok(Get(t)[i] + d)) /\
  LET m == IF s < N THEN s + 1 ELSE N IN
  Fin("visit", <<t, s, d>>, Put(t, [i \in 1..N |-> IF i <= m /\ i \notin Void THEN Get(t)[i] + d ELSE Get(t)[i]]),
      <<[i \in 1..m |-> <<i - 1, Get(t)[i]>>], IF s < N THEN s ELSE 0 - 1>>)
CVisit(s) == ~Pair /\ s \in 0..N /\ Fin("cvisit", <<s>>, <<a, b>>, <<[i \in 1..(IF s < N THEN s + 1 ELSE N) |-> <<i - 1, a[i]>>], IF s < N THEN s ELSE 0 - 1>>)
\* a tuple of references to three variables: writing element i writes that variable
Forward(s, i, v) == ~Pair /\ Len(s) = 3 /\ i \in 1..3 /\ Fin("fwd", <<s, i, v>>, <<a, b>>, <<[s EXCEPT ![i] = v], s>>)
Exch(i, v) == i \in 1..N /\ i \notin Void /\ Ok(v) /\ Fin("exch", <<i, v>>, Put("a", [a EXCEPT ![i] = v]), a[i])
\* swapping an element with the other's, or with one of the same tuple (itself included)
GSwap(i) == i \in 1..N /\ i \notin Void /\ Kind # "nst" /\ Kind # "ref" /\ Fin("gswap", <<i>>, <<[a EXCEPT ![i] = b[i]], [b EXCEPT ![i] = a[i]]>>, 0)
SSwap(i, j) == Kind = "iii" /\ i \in 1..N /\ j \in 1..N /\ Fin("sswap", <<i, j>>, <<[a EXCEPT ![i] = a[j], ![j] = a[i]], b>>, 0)
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Cmp == Pair /\ Fin("cmp", <<>>, <<a, b>>, <<a = b, a # b, Less(a, b), Less(b, a)>>)
End == dead' = TRUE /\ UNCHANGED <<cfg, a, b>> /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Do(op, x) == ~dead /\
  CASE op = "set" -> Set(x[1], x[2], x[3]) [] op = "sett" -> SetT(x[1], x[2], x[3]) [] op = "mk" -> Make(x[1], x[2], x[3]) [] op = "copy" -> Copy [] op = "assign" -> Assign
    [] op = "move" -> Move [] op = "swap" -> Swap [] op = "take" -> Take(x[1], x[2]) [] op = "ctake" -> ConstTake(x[1])
    [] op = "apply" -> Apply(x[1], x[2]) [] op = "capply" -> ApplyConst [] op = "mapply" -> ApplyMove [] op = "mft" -> MakeFrom
    [] op = "visit" -> Visit(x[1], x[2], x[3]) [] op = "cvisit" -> CVisit(x[1]) [] op = "fwd" -> Forward(x[1], x[2], x[3]) [] op = "exch" -> Exch(x[1], x[2])
    [] op = "gswap" -> GSwap(x[1]) [] op = "sswap" -> SSwap(x[1], x[2]) [] op = "cmp" -> Cmp [] op = "end" -> End [] OTHER -> FALSE
P == 1..N
\* from the distinct tuple <<1, 2, 3>> or all equal
Seqs == {[i \in 1..N |-> IF i \in Void THEN 0 ELSE i], [i \in 1..N |-> IF i \in Void THEN 0 ELSE 1]}
\* enumerated: one of the two at a time away from these
Home == Seqs \union {Zero(Kind)}
Next == \/ \E op \in {"copy", "assign", "move", "swap", "capply", "mapply", "mft", "cmp", "end"} : Do(op, <<>>)
        \/ \E t \in {"a", "b"} : \/ \E f \in {"ctor", "make", "piece"}, s \in Seqs : Do("mk", <<f, t, s>>)
                                 \/ /\ (IF t = "a" THEN b ELSE a) \in Home
                                    /\ \/ \E i \in P, v \in Vals : Do("set", <<t, i, v>>) \/ Do("sett", <<t, i, v>>)
                                       \/ \E d \in Deltas : /\ \A i \in P : Get(t)[i] + d <= Lim
                                                            /\ (Do("apply", <<t, d>>) \/ \E s \in 0..N : Do("visit", <<t, s, d>>))
        \/ \E s \in 0..N : Do("cvisit", <<s>>)
        \/ \E i \in P : \/ Do("ctake", <<i>>)
                        \/ /\ b \in Home
                           /\ \/ Do("gswap", <<i>>) \/ \E f \in {"idx", "type"} : Do("take", <<f, i>>)
                              \/ \E v \in Vals : Do("exch", <<i, v>>) \/ \E j \in P : Do("sswap", <<i, j>>)
        \/ \E i \in 1..3 : Do("fwd", <<<<4, 5, 6>>, i, 7>>)
TypeOK == Len(a) = N /\ Len(b) = N /\ Fit(a) /\ Fit(b) /\ (Kind = "ref" => a[1] = b[1] /\ a[3] = b[3])
=============================================================================
