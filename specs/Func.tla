-------------------------------- MODULE Func ---------------------------------
(* Type-erased callables.  o[1], o[2] own a callable: <<>> no such owner, <<0>>
   an owner emptied by a move, <<1, b, acc>> holding callable "b" with private
   state acc.  d[1], d[2] are non-owning function references: 0 null, i refers to
   the callable of owner i (and follows it when it moves to another owner).
   A call passes (tracked x, out, y): acc becomes (acc + x + 2y) % cfg[2], out the new
   acc, and the result is b * mod + acc.
   cfg = <<kind, mod>>: "exp" allocating function ("expn": not nullable); "inl" inline_function; "m1" "m2"
   "mv" models of the three implementations; "tf1" "tf2" thisify_function;
   "mm1" "mm2" "mmv" method models; "cf" context_function; "ctx" contextify; "opt2" single-shot. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Xs, Ys
VARIABLES cfg, o, d, dead, act
vars == <<cfg, o, d, dead, act>>
Kind == cfg[1]
Holds == Kind \in {"exp", "expn", "inl", "m1", "m2", "mv", "opt2"}        \* the callable object lives inside the owner
Exp == Kind \in {"exp", "expn"}
Copies == Kind \in {"inl", "m1", "m2", "tf1", "tf2", "mm1", "mm2", "cf"}
Key == <<cfg, o, d, dead>>
Full(i) == Len(o[i]) = 3
Live == Cardinality({i \in {1, 2} : Full(i)})
Obs == IF dead THEN [z |-> 1] ELSE
  [ d |-> <<d[1] # 0, d[2] # 0>>, on |-> [i \in {1, 2} |-> IF o[i] = <<>> THEN 0 ELSE IF Full(i) THEN 2 ELSE 1],
    live |-> (IF Holds THEN Live ELSE 0), err |-> 0 ]
InitCfg(c) == cfg = c /\ o = <<<<>>, <<>>>> /\ d = <<0, 0>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ o' = <<<<>>, <<>>>> /\ d' = <<0, 0>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
\* references to an owner that goes away are set to null first (the caller's duty)
Unref(i) == [j \in {1, 2} |-> IF d[j] = i THEN 0 ELSE d[j]]
Move(i, j) == [k \in {1, 2} |-> IF d[k] = j THEN i ELSE IF d[k] = i THEN 0 ELSE d[k]]
Base == UNCHANGED <<cfg, dead>>
Called(c, x, y) == LET n == (c[3] + x + 2 * y) % cfg[2] IN [c |-> <<1, c[2], n>>, r |-> <<c[2] * cfg[2] + n, n>>]

Make(op, i, b) == o[i] = <<>> /\ (op = "make_lv" => Exp) /\ o' = [o EXCEPT ![i] = <<1, b, 0>>] /\ UNCHANGED d /\ Base /\ Ret(op, <<i, b>>, 0)
Copy(i, j) == Copies /\ o[i] = <<>> /\ Full(j) /\ o' = [o EXCEPT ![i] = o[j]] /\ UNCHANGED d /\ Base /\ Ret("copy", <<i, j>>, 0)
MoveC(i, j) == Exp /\ o[i] = <<>> /\ o[j] # <<>> /\ o' = [o EXCEPT ![i] = o[j], ![j] = <<0>>] /\ d' = Move(i, j) /\ Base /\ Ret("move", <<i, j>>, 0)
AssignF(op, i, b) == Exp /\ o[i] # <<>> /\ o' = [o EXCEPT ![i] = <<1, b, 0>>] /\ d' = Unref(i) /\ Base /\ Ret(op, <<i, b>>, 0)
AssignM(i, j) == Exp /\ i # j /\ o[i] # <<>> /\ o[j] # <<>> /\ o' = [o EXCEPT ![i] = o[j], ![j] = <<0>>] /\ d' = Move(i, j) /\ Base /\ Ret("assign_move", <<i, j>>, 0)
Drop(i) == o[i] # <<>> /\ o' = [o EXCEPT ![i] = <<>>] /\ d' = Unref(i) /\ Base /\ Ret("drop", <<i>>, 0)
Call(i, x, y) == Full(i) /\ Base /\ LET k == Called(o[i], x, y) IN
      /\ Ret("call", <<i, x, y>>, k.r)
      /\ IF Kind = "opt2" THEN o' = [o EXCEPT ![i] = <<>>] /\ d' = Unref(i)       \* gone right after the call
                          ELSE o' = [o EXCEPT ![i] = k.c] /\ UNCHANGED d
CallD(j, x, y) == d[j] # 0 /\ Base /\ LET k == Called(o[d[j]], x, y) IN
      /\ Ret("calld", <<j, x, y>>, k.r)
      /\ IF Kind = "opt2" THEN o' = [o EXCEPT ![d[j]] = <<>>] /\ d' = Unref(d[j])
                          ELSE o' = [o EXCEPT ![d[j]] = k.c] /\ UNCHANGED d
SetD(op, j, i) == Full(i) /\ d' = [d EXCEPT ![j] = i] /\ UNCHANGED o /\ Base /\ Ret(op, <<j, i>>, 0)
CopyD(j, k) == d' = [d EXCEPT ![j] = d[k]] /\ UNCHANGED o /\ Base /\ Ret("dcopy", <<j, k>>, 0)
NullD(j) == d' = [d EXCEPT ![j] = 0] /\ UNCHANGED o /\ Base /\ Ret("dnull", <<j>>, 0)
End == o' = <<<<>>, <<>>>> /\ d' = <<0, 0>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0, 0>>)
Do(op, a) == ~dead /\
  CASE op \in {"make", "make_lv"} -> Make(op, a[1], a[2])
    [] op = "copy" -> Copy(a[1], a[2]) [] op = "move" -> MoveC(a[1], a[2])
    [] op \in {"assign_f", "assign_flv"} -> AssignF(op, a[1], a[2]) [] op = "assign_move" -> AssignM(a[1], a[2])
    [] op = "drop" -> Drop(a[1])
    [] op = "call" -> Call(a[1], a[2], a[3]) [] op = "calld" -> CallD(a[1], a[2], a[3])
    [] op \in {"dset", "dassign"} -> SetD(op, a[1], a[2]) [] op = "dcopy" -> CopyD(a[1], a[2]) [] op = "dnull" -> NullD(a[1])
    [] op = "end" -> End [] OTHER -> FALSE
Next ==
  \/ \E i \in {1, 2}, b \in {1, 2} : \E op \in {"make", "make_lv", "assign_f", "assign_flv"} : Do(op, <<i, b>>)
  \/ \E i, j \in {1, 2} : \E op \in {"copy", "move", "assign_move", "dset", "dassign", "dcopy"} : Do(op, <<i, j>>)
  \/ \E i \in {1, 2} : Do("drop", <<i>>) \/ Do("dnull", <<i>>)
  \/ \E i \in {1, 2}, x \in Xs, y \in Ys : \E op \in {"call", "calld"} : Do(op, <<i, x, y>>)
  \/ Do("end", <<>>)
TypeOK == \A j \in {1, 2} : d[j] # 0 => Full(d[j])
=============================================================================
