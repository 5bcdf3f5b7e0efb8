-------------------------------- MODULE Pool --------------------------------
(* Block pools.  cfg = <<kind, blocks, slots>>, kind in "p1","p3","p8","p20","p24" (raw pools of
   that block size) or "typed"; "m1_8", "ml_8", "m2_8" and so on: the three experimental pools
   with elements of that size, "m1t" and "mlt" with constructed objects.  The client keeps its blocks in slots: s[i] = 0 when
   slot i is empty, v > 0 when it owns a block in which it stored v (for the typed pool:
   an object with value v).  Which block is handed out is the pool's business; that it
   is in range, aligned, not owned by anyone else, left alone while owned, and that
   exactly `blocks` of them exist, is what the observation shows.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals
VARIABLES cfg, s, dead, act
vars == <<cfg, s, dead, act>>
Kind == cfg[1]
N == cfg[2]
NS == cfg[3]
Key == <<cfg, s, dead>>
Live == {i \in 1..NS : s[i] # 0}
Obs == IF dead THEN [z |-> 1] ELSE
  [ s |-> s, avail |-> N - Cardinality(Live), full |-> Cardinality(Live) = N, max |-> N,
    live |-> (IF Kind \in {"typed", "m1t", "mlt"} THEN Cardinality(Live) ELSE 0), bad |-> 0 ]
Empty == [i \in 1..NS |-> 0]
InitCfg(c) == cfg = c /\ s = [i \in 1..c[3] |-> 0] /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ s' = [i \in 1..c[3] |-> 0] /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
\* take a block and store v in it; FALSE (and no block) when all are owned
Take(i, v) == /\ s[i] = 0
              /\ s' = (IF Cardinality(Live) < N THEN [s EXCEPT ![i] = v] ELSE s)
              /\ UNCHANGED <<cfg, dead>> /\ Ret("take", <<i, v>>, Cardinality(Live) < N)
Give(i) == s[i] # 0 /\ s' = [s EXCEPT ![i] = 0] /\ UNCHANGED <<cfg, dead>> /\ Ret("give", <<i>>, TRUE)
Put(i, v) == s[i] # 0 /\ s' = [s EXCEPT ![i] = v] /\ UNCHANGED <<cfg, dead>> /\ Ret("put", <<i, v>>, TRUE)
End == s' = Empty /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)
Do(op, a) == ~dead /\
  CASE op = "take" -> Take(a[1], a[2]) [] op = "give" -> Give(a[1]) [] op = "put" -> Put(a[1], a[2])
    [] op = "end" -> End [] OTHER -> FALSE
Next == \/ \E i \in 1..NS, v \in Vals : Do("take", <<i, v>>) \/ Do("put", <<i, v>>)
        \/ \E i \in 1..NS : Do("give", <<i>>)
        \/ Do("end", <<>>)
TypeOK == Cardinality(Live) <= N
\* nobody's block changes under them
Undisturbed == [][act'.op \in {"take", "give", "put"} => \A i \in 1..NS : i # act'.a[1] => s'[i] = s[i]]_vars
=============================================================================
