---------------------------- MODULE PriorityQueue ---------------------------
(* priority_queue and the heap algorithms.  The abstract state is the bag of
   contents, kept as a sequence sorted with the highest priority first.

   cfg = <<kind, capacity>> with kind
     "less"   highest value first
     "greater" lowest value first
     "state"  a stateful comparator ranking by distance from a pivot (5),
              nearest first, ties broken by value (smaller first)
     "heap"   the free functions make_heap / push_heap / pop_heap on arrays,
              for a k-ary heap                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, Seqs
VARIABLES cfg, q, dead, act
vars == <<cfg, q, dead, act>>
Kind == cfg[1]
Cap == cfg[2]
Dist(x) == IF x < 5 THEN 5 - x ELSE x - 5
\* x has strictly higher priority than y
Above(x, y) == IF Kind = "greater" THEN x < y
               ELSE IF Kind = "state" THEN Dist(x) < Dist(y) \/ (Dist(x) = Dist(y) /\ x < y)
               ELSE x > y
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>> ELSE IF Above(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Ins(Tail(s), x)
RECURSIVE SortOf(_)
SortOf(s) == IF s = <<>> THEN <<>> ELSE Ins(SortOf(Tail(s)), s[1])
Idx(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Key == <<cfg, q, dead>>
Obs == IF dead THEN [z |-> 1] ELSE
       [n |-> Len(q), e |-> q = <<>>, t |-> (IF q = <<>> THEN <<>> ELSE <<q[1]>>), all |-> q]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ q = <<>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ q' = <<>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Keep == UNCHANGED <<cfg, dead>>
PQ == Kind # "heap"
Push(op, x) == PQ /\ Len(q) < Cap /\ q' = Ins(q, x) /\ Keep /\ Ret(op, <<x>>, IF op = "emplace_notify" THEN x ELSE 0)
Pop == PQ /\ q # <<>> /\ q' = Tail(q) /\ Keep /\ Ret("pop", <<>>, 0)
EraseIf(x) == PQ /\ q' = (IF Has(q, x) THEN Without(q, Idx(q, x)) ELSE q) /\ Keep /\ Ret("erase_if", <<x>>, Has(q, x))
\* erase by reference to the n-th element of the underlying container: which
\* one that is belongs to the implementation, so it reports the value removed
EraseTop == PQ /\ q # <<>> /\ q' = Tail(q) /\ Keep /\ Ret("erase_top", <<>>, 0)
Copy(op) == PQ /\ UNCHANGED <<cfg, q, dead>> /\ Ret(op, <<>>, 0)
\* heap algorithms over an array: k-ary make then repeated pop yields the sorted order
HeapSort(s, k) == Kind = "heap" /\ UNCHANGED <<cfg, q, dead>> /\ Ret("heapsort", <<s, k>>, SortOf(s))
\* make_heap permutes and leaves every parent at or above its children
MakeHeap(s, k) == Kind = "heap" /\ UNCHANGED <<cfg, q, dead>> /\ Ret("make", <<s, k>>, <<SortOf(s), TRUE>>)
\* building a binary heap one push_heap at a time, then popping
PushSort(s) == Kind = "heap" /\ UNCHANGED <<cfg, q, dead>> /\ Ret("pushsort", <<s>>, SortOf(s))
PushSortK(s, k) == Kind = "heap" /\ UNCHANGED <<cfg, q, dead>> /\ Ret("pushsort_k", <<s, k>>, SortOf(s))
\* elements of equal priority are still different things: through a queue (k = 0)
\* or a k-ary heap the priorities come out in order and each element once
TagSort(s, k) == Kind = "heap" /\ UNCHANGED <<cfg, q, dead>> /\ Ret("tagsort", <<s, k>>, <<SortOf(s), TRUE>>)
End == q' = <<>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)

Do(op, a) == ~dead /\
  CASE op \in {"push", "push_m", "emplace", "emplace_notify"} -> Push(op, a[1])
    [] op = "pop" -> Pop
    [] op = "erase_if" -> EraseIf(a[1])
    [] op = "erase_top" -> EraseTop
    [] op \in {"copy", "move"} -> Copy(op)
    [] op = "tagsort" -> TagSort(a[1], a[2])
    [] op = "heapsort" -> HeapSort(a[1], a[2])
    [] op = "make" -> MakeHeap(a[1], a[2])
    [] op = "pushsort" -> PushSort(a[1])
    [] op = "pushsort_k" -> PushSortK(a[1], a[2])
    [] op = "end" -> End
    [] OTHER -> FALSE
Next ==
  \/ \E x \in Vals, op \in {"push", "push_m", "emplace", "emplace_notify", "erase_if"} : Do(op, <<x>>)
  \/ \E op \in {"pop", "erase_top", "copy", "move", "end"} : Do(op, <<>>)
  \/ Kind = "heap" /\ \E s \in Seqs : Do("pushsort", <<s>>) \/ \E k \in {2, 3, 4} : Do("heapsort", <<s, k>>) \/ Do("make", <<s, k>>) \/ Do("tagsort", <<s, IF k = 4 THEN 0 ELSE k>>) \/ Do("pushsort_k", <<s, k>>)
TypeOK == Len(q) <= Cap /\ \A i \in 1..(Len(q) - 1) : ~Above(q[i + 1], q[i])
\* nothing is lost or invented: pop removes exactly the top
PopTop == [][act'.op = "pop" => q = <<q[1]>> \o q']_vars
=============================================================================
