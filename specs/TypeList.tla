------------------------------- MODULE TypeList -------------------------------
(* Compile-time lists.  cfg = <<"types">>: a list of types (1: char, 2: int, 3: an empty class), or
   cfg = <<"values">>: a list of integers.  Every question about the list is one operation; sizes of the
   types in bytes in Size.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Elems, MaxLen
VARIABLES cfg, w, dead, act
vars == <<cfg, w, dead, act>>
Key == <<cfg, w, dead>>
Types == cfg[1] = "types"
Size == <<1, 4, 1>>
N == Len(w)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Obs == IF dead THEN [z |-> 1] ELSE
  [ l |-> w, n |-> N, e |-> (N = 0 /\ Types), f |-> IF N = 0 THEN 0 ELSE w[1], b |-> IF N = 0 \/ ~Types THEN 0 ELSE w[N],
    one |-> IF N = 1 THEN w[1] ELSE 0 ]
\* cfg[2]: the list to begin with, which may be longer than MaxLen
InitCfg(c) == cfg = c /\ w = c[2] /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ w' = c[2] /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Fin(op, x, s, r) == w' = s /\ UNCHANGED <<cfg, dead>> /\ act' = [op |-> op, a |-> x, r |-> r]
Ask(op, x, r) == Fin(op, x, w, r)
Prepend(v) == N < MaxLen /\ v \in Elems /\ Fin("prepend", <<v>>, <<v>> \o w, 0)
Append_(v) == N < MaxLen /\ v \in Elems /\ Fin("append", <<v>>, Append(w, v), 0)
\* visiting in order (or backwards), index and element given, until the visitor answers yes at index s
Seen(m) == [i \in 1..m |-> <<i - 1, w[i]>>]
Visit(f, s) == s \in 0..9 /\ f \in (IF Types THEN {"visit", "reverse", "first"} ELSE {"visit"}) /\
  LET m == IF s < N THEN s + 1 ELSE N
      back == [i \in 1..(IF s < N THEN N - s ELSE N) |-> <<N - i, w[N + 1 - i]>>] IN
  Ask("visit", <<f, s>>, <<IF f = "reverse" THEN back ELSE Seen(m), IF s < N THEN s ELSE 0 - 1>>)
At(i) == i \in 0..6 /\ Ask("at", <<i>>, IF i < N THEN w[i + 1] ELSE 0)
\* those equal to v: their indices and the list of them; how many, the first, whether all
Where(v) == v \in Elems /\
  LET idx == SelectSeq([i \in 1..N |-> i - 1], LAMBDA i : w[i + 1] = v) IN
  Ask("where", <<v>>, IF Types THEN <<idx, SelectSeq(w, LAMBDA y : y = v), idx # <<>>, Len(idx) = N, Len(idx), IF idx = <<>> THEN 0 - 1 ELSE idx[1]>>
                      ELSE <<SelectSeq(w, LAMBDA y : y = v), idx # <<>>>>)
\* those whose index is even; values of the list that are among Among
Even == Types /\ Ask("even", <<>>, <<SelectSeq([i \in 1..N |-> i - 1], LAMBDA i : i % 2 = 0), [i \in 1..((N + 1) \div 2) |-> w[2 * i - 1]]>>)
Among(s) == ~Types /\ Ask("among", <<s>>, SelectSeq(w, LAMBDA y : \E i \in 1..Len(s) : s[i] = y))
\* the first type of the greatest size
Largest == Types /\ N > 0 /\ Ask("largest", <<>>, LET m == CHOOSE m \in {Size[w[i]] : i \in 1..N} : \A i \in 1..N : Size[w[i]] <= m
                                                      k == CHOOSE k \in 1..N : Size[w[k]] = m /\ \A j \in 1..(k - 1) : Size[w[j]] # m IN w[k])
\* whether all of them are trivial; the empty class (3) is not
Trivial == Types /\ Ask("trivial", <<>>, \A i \in 1..N : w[i] # 3)
\* every value given to a function, in order, as its arguments: a decimal number of them
Seqn(n) == n \in 0..9 /\ ~Types /\ Ask("iota", <<n>>, [i \in 1..n |-> i - 1])
Reverse == ~Types /\ Ask("reverse", <<>>, Rev(w))
End == dead' = TRUE /\ UNCHANGED <<cfg, w>> /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Do(op, x) == ~dead /\
  CASE op = "prepend" -> Prepend(x[1]) [] op = "append" -> Append_(x[1]) [] op = "visit" -> Visit(x[1], x[2]) [] op = "at" -> At(x[1]) [] op = "where" -> Where(x[1])
    [] op = "even" -> Even [] op = "among" -> Among(x[1]) [] op = "largest" -> Largest [] op = "trivial" -> Trivial [] op = "iota" -> Seqn(x[1]) [] op = "reverse" -> Reverse [] op = "end" -> End [] OTHER -> FALSE
Next == \/ \E op \in {"even", "largest", "trivial", "reverse", "end"} : Do(op, <<>>)
        \/ \E v \in Elems, op \in {"prepend", "append", "where"} : Do(op, <<v>>)
        \/ \E i \in 0..(IF N > MaxLen THEN N ELSE MaxLen) : Do("at", <<i>>) \/ Do("iota", <<i>>) \/ \E f \in {"visit", "reverse", "first"} : Do("visit", <<f, i>>)
        \/ \E s \in {<<1, 3>>, <<2, 3>>} : Do("among", <<s>>)
TypeOK == N <= MaxLen \/ w = cfg[2]
=============================================================================
