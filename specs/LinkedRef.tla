------------------------------ MODULE LinkedRef ------------------------------
(* linked_ref: references sharing a value are tied in a ring.  g[i]: 0 = no such
   reference, -1 = exists but moved from, k > 0 = shares value k with every other
   j with g[j] = k.  The value is destructed once, when its last sharer goes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K
VARIABLES cfg, g, used, dead, act
vars == <<cfg, g, used, dead, act>>
N == cfg[2]
Key == <<cfg, g, used, dead>>
Sharers(gg, k) == {i \in 1..N : gg[i] = k}
Obs == IF dead THEN [z |-> 1] ELSE
  [ c |-> [i \in 1..N |-> IF g[i] > 0 THEN Cardinality(Sharers(g, g[i])) ELSE 0],
    ring |-> [i \in 1..N |-> IF g[i] > 0 THEN [j \in 1..N |-> g[j] = g[i]] ELSE [j \in 1..N |-> FALSE]],
    un |-> [i \in 1..N |-> g[i] = -1] ]
InitCfg(c) == cfg = c /\ g = [i \in 1..c[2] |-> 0] /\ used = {} /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ g' = [i \in 1..c[2] |-> 0] /\ used' = {} /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
New(i, k) == g[i] = 0 /\ k \notin used /\ g' = [g EXCEPT ![i] = k] /\ used' = used \cup {k} /\ UNCHANGED <<cfg, dead>> /\ Ret("new", <<i, k>>, <<>>)
Copy(i, j) == g[i] = 0 /\ g[j] > 0 /\ g' = [g EXCEPT ![i] = g[j]] /\ UNCHANGED <<cfg, used, dead>> /\ Ret("copy", <<i, j>>, <<>>)
Move(i, j) == g[i] = 0 /\ g[j] > 0 /\ g' = [g EXCEPT ![i] = g[j], ![j] = -1] /\ UNCHANGED <<cfg, used, dead>> /\ Ret("move", <<i, j>>, <<>>)
Drop(i) == g[i] # 0 /\ g' = [g EXCEPT ![i] = 0] /\ used' = (IF g[i] > 0 /\ Sharers(g, g[i]) = {i} THEN used \ {g[i]} ELSE used)
           /\ UNCHANGED <<cfg, dead>> /\ Ret("drop", <<i>>, IF g[i] > 0 /\ Sharers(g, g[i]) = {i} THEN <<g[i]>> ELSE <<>>)
End == g' = [i \in 1..N |-> 0] /\ used' = {} /\ dead' = TRUE /\ UNCHANGED cfg
       /\ Ret("end", <<>>, SelectSeq([i \in 1..9 |-> i], LAMBDA k : k \in used))
Do(op, a) == ~dead /\
  CASE op = "new" -> New(a[1], a[2]) [] op = "copy" -> Copy(a[1], a[2]) [] op = "move" -> Move(a[1], a[2])
    [] op = "drop" -> Drop(a[1]) [] op = "end" -> End [] OTHER -> FALSE
Next == \/ \E i \in 1..N, k \in 1..K : Do("new", <<i, k>>)
        \/ \E i, j \in 1..N : Do("copy", <<i, j>>) \/ Do("move", <<i, j>>)
        \/ \E i \in 1..N : Do("drop", <<i>>)
        \/ Do("end", <<>>)
TypeOK == \A k \in 1..9 : (k \in used) = (Sharers(g, k) # {})
=============================================================================
