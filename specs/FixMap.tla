------------------------------- MODULE FixMap -------------------------------
(* Maps over a fixed array of entries; entries are searched front to back.
   cfg = <<kind, key, entries>>: kind "l1" (own array, copied in), "il" (own array, from a list), "l2", "l3" (someone
   else's array); key names the key type; entries a sequence of <<k, v>>.
   buf      the array outside
   m[i]     the entries of map i (of "l1", "il"; otherwise every map shows buf); alive[i]        *)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, buf, m, alive, dead, act
vars == <<cfg, buf, m, alive, dead, act>>
Key == <<cfg, buf, m, alive, dead>>
CONSTANTS KEYS, VALS
Kind == cfg[1]
Shared == Kind \in {"l2", "l3"}
Cell(i) == IF Shared THEN buf ELSE m[i]
\* position of the first entry with key k, or 0
Find(s, k) == LET P == {j \in 1..Len(s) : s[j][1] = k} IN IF P = {} THEN 0 ELSE CHOOSE j \in P : \A q \in P : j <= q
Look(s, k) == LET j == Find(s, k) IN IF j = 0 THEN <<>> ELSE <<s[j][2]>>
Probe == <<-1, 0, 1, 2, 3, 100>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ b |-> IF Kind = "il" THEN <<>> ELSE buf, m |-> [i \in 1..2 |-> IF alive[i] THEN [q \in 1..6 |-> Look(Cell(i), Probe[q])] ELSE <<>>] ]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ buf = c[3] /\ m = <<c[3], <<>>>> /\ alive = <<TRUE, FALSE>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ buf' = c[3] /\ m' = <<c[3], <<>>>> /\ alive' = <<TRUE, FALSE>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
\* what is found is the entry itself: setting through it changes that entry
Get(i, k) == UNCHANGED <<buf, m>> /\ Ret("get", <<i, k>>, IF Shared THEN <<Find(buf, k), Look(buf, k)>> ELSE <<0, Look(m[i], k)>>)
Set(i, k, v) == LET j == Find(Cell(i), k) IN
  /\ Ret("set", <<i, k, v>>, j # 0)
  /\ buf' = IF Shared /\ j # 0 THEN [buf EXCEPT ![j][2] = v] ELSE buf
  /\ m' = IF ~Shared /\ j # 0 THEN [m EXCEPT ![i][j][2] = v] ELSE m
\* two lookups of the same key find the same entry, of different keys different ones
Same(i, k, q) == UNCHANGED <<buf, m>> /\ Ret("same", <<i, k, q>>, Find(Cell(i), k) = Find(Cell(i), q))
Write(j, e) == Kind # "il" /\ j <= Len(buf) /\ buf' = [buf EXCEPT ![j] = e] /\ UNCHANGED m /\ Ret("write", <<j, e>>, 0)
Copy(i) == alive[i] /\ m' = [m EXCEPT ![3 - i] = m[i]] /\ alive' = [alive EXCEPT ![3 - i] = TRUE] /\ UNCHANGED buf /\ Ret("copy", <<i>>, 0)
Kill(i) == alive[i] /\ alive[3 - i] /\ m' = [m EXCEPT ![i] = <<>>] /\ alive' = [alive EXCEPT ![i] = FALSE] /\ UNCHANGED buf /\ Ret("kill", <<i>>, 0)
End == dead' = TRUE /\ UNCHANGED <<cfg, buf, m, alive>> /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\ IF op = "end" THEN End ELSE UNCHANGED <<cfg, dead>> /\
  CASE op = "get" -> alive[a[1]] /\ Get(a[1], a[2]) /\ UNCHANGED alive
    [] op = "set" -> alive[a[1]] /\ Set(a[1], a[2], a[3]) /\ UNCHANGED alive
    [] op = "same" -> alive[a[1]] /\ Same(a[1], a[2], a[3]) /\ UNCHANGED alive
    [] op = "write" -> Write(a[1], a[2]) /\ UNCHANGED alive
    [] op = "copy" -> Copy(a[1])
    [] op = "kill" -> Kill(a[1])
    [] OTHER -> FALSE
Next ==
  \/ Do("end", <<>>)
  \/ \E i \in {1, 2} : Do("copy", <<i>>) \/ Do("kill", <<i>>)
     \/ \E k \in KEYS : Do("get", <<i, k>>) \/ (\E v \in VALS : Do("set", <<i, k, v>>)) \/ (\E q \in KEYS : Do("same", <<i, k, q>>))
  \/ \E j \in 1..Len(buf), k \in KEYS, v \in VALS : Do("write", <<j, <<k, v>>>>)
TypeOK == Len(buf) = Len(cfg[3]) /\ \A i \in 1..2 : alive[i] => Len(m[i]) = Len(cfg[3])
\* a lookup never changes anything; setting an absent key neither
NoInsert == [][(act'.op \in {"get", "same"} \/ (act'.op = "set" /\ ~act'.r)) => buf' = buf /\ m' = m]_vars
=============================================================================
