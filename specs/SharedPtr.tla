------------------------------ MODULE SharedPtr ------------------------------
(* A master shared_ptr and n references to it.  cfg = <<layer, n>>:
     "l1"  layer1: master holds the object inline, made by construct
     "l1d" the same with a deleter;  "l2" layer2: master adopts an object;  "l2d" with a deleter
   m: master active.  s[i]: 0 no such reference, 1 exists but refers to nothing,
   2 refers to the object.  The object lives exactly while somebody refers to it;
   r of every operation is the number of times the object was disposed of during it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals
VARIABLES cfg, m, s, val, dead, act
vars == <<cfg, m, s, val, dead, act>>
NS == cfg[2]
L1 == cfg[1] \in {"l1", "l1d"}
Refs(mm, ss) == (IF mm THEN 1 ELSE 0) + Cardinality({i \in 1..Len(ss) : ss[i] = 2})
Cnt == Refs(m, s)
Key == <<cfg, m, s, val, dead>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ uc |-> (IF m THEN Cnt ELSE 0), su |-> [i \in 1..NS |-> IF s[i] = 2 THEN Cnt ELSE 0],
    v |-> (IF Cnt > 0 THEN val ELSE -1), live |-> (IF Cnt > 0 THEN 1 ELSE 0), err |-> 0 ]
InitCfg(c) == cfg = c /\ m = (c[1] \in {"l2", "l2d"}) /\ s = [i \in 1..c[2] |-> 0] /\ val = 0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ m' = (c[1] \in {"l2", "l2d"}) /\ s' = [i \in 1..c[2] |-> 0] /\ val' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]

\* new reference structure: disposal happens iff the last reference goes
Go(op, a, mm, ss) == m' = mm /\ s' = ss /\ val' = (IF Refs(mm, ss) = 0 THEN 0 ELSE val) /\ UNCHANGED <<cfg, dead>>
                     /\ act' = [op |-> op, a |-> a, r |-> IF Cnt > 0 /\ Refs(mm, ss) = 0 THEN 1 ELSE 0]
Same(op, a, r) == UNCHANGED <<cfg, m, s, val, dead>> /\ act' = [op |-> op, a |-> a, r |-> r]
FromM == IF m THEN 2 ELSE 1
Construct(x) == L1 /\ Cnt = 0 /\ m' = TRUE /\ val' = x /\ UNCHANGED <<cfg, s, dead>> /\ act' = [op |-> "construct", a |-> <<x>>, r |-> 0]
End == m' = FALSE /\ s' = [i \in 1..NS |-> 0] /\ val' = 0 /\ dead' = TRUE /\ UNCHANGED cfg
       /\ act' = [op |-> "end", a |-> <<>>, r |-> <<0, 0>>]
Do(op, a) == ~dead /\
  CASE op = "construct" -> Construct(a[1])
    [] op = "mreset" -> Go(op, a, FALSE, s)
    [] op = "new_m" -> s[a[1]] = 0 /\ Go(op, a, m, [s EXCEPT ![a[1]] = FromM])
    [] op = "new_s" -> s[a[1]] = 0 /\ s[a[2]] # 0 /\ Go(op, a, m, [s EXCEPT ![a[1]] = s[a[2]]])
    [] op = "mov_s" -> s[a[1]] = 0 /\ s[a[2]] # 0 /\ Go(op, a, m, [s EXCEPT ![a[1]] = s[a[2]], ![a[2]] = 1])
    [] op = "asg_m" -> s[a[1]] # 0 /\ Go(op, a, m, [s EXCEPT ![a[1]] = FromM])
    [] op = "asg_s" -> s[a[1]] # 0 /\ s[a[2]] # 0 /\ Go(op, a, m, [s EXCEPT ![a[1]] = s[a[2]]])
    [] op = "sreset" -> s[a[1]] # 0 /\ Go(op, a, m, [s EXCEPT ![a[1]] = 1])
    [] op = "drop" -> s[a[1]] # 0 /\ Go(op, a, m, [s EXCEPT ![a[1]] = 0])
    [] op = "swap" -> s[a[1]] # 0 /\ s[a[2]] # 0 /\ Go(op, a, m, [s EXCEPT ![a[1]] = s[a[2]], ![a[2]] = s[a[1]]])
    [] op = "set_s" -> s[a[1]] = 2 /\ val' = a[2] /\ UNCHANGED <<cfg, m, s, dead>> /\ act' = [op |-> op, a |-> a, r |-> 0]
    [] op = "set_m" -> m /\ val' = a[1] /\ UNCHANGED <<cfg, m, s, dead>> /\ act' = [op |-> op, a |-> a, r |-> 0]
    [] op = "byval_m" -> Same(op, a, IF m THEN Cnt + 1 ELSE 0)
    [] op = "byval_s" -> s[a[1]] # 0 /\ Same(op, a, IF s[a[1]] = 2 THEN Cnt + 1 ELSE 0)
    [] op = "burst" -> s[a[1]] # 0 /\ Same(op, a, IF s[a[1]] = 2 THEN Cnt + a[2] ELSE 0)
    [] op = "eq" -> s[a[1]] = 2 /\ s[a[2]] = 2 /\ Same(op, a, TRUE)
    [] op = "end" -> End
    [] OTHER -> FALSE
Next ==
  \/ \E x \in Vals : Do("construct", <<x>>) \/ Do("set_m", <<x>>) \/ \E i \in 1..NS : Do("set_s", <<i, x>>)
  \/ \E i \in 1..NS : \E op \in {"new_m", "asg_m", "sreset", "drop", "byval_s"} : Do(op, <<i>>)
  \/ \E i, j \in 1..NS : (\E op \in {"new_s", "mov_s"} : i # j /\ Do(op, <<i, j>>)) \/ \E op \in {"asg_s", "swap", "eq"} : Do(op, <<i, j>>)
  \/ \E i \in 1..NS, k \in {255, 256} : Do("burst", <<i, k>>)
  \/ \E op \in {"mreset", "byval_m", "end"} : Do(op, <<>>)
TypeOK == /\ \A i \in 1..NS : s[i] \in 0..2
          /\ Cnt = 0 => val = 0
\* the object is disposed of exactly when the last reference goes
DisposedOnce == [][act'.op \notin {"end", "reset", "byval_m", "byval_s", "burst", "eq"} => (act'.r = 1 <=> Cnt > 0 /\ Refs(m', s') = 0)]_vars
=============================================================================
