------------------------------- MODULE Optional -------------------------------
(* Two optionals o[1], o[2]: <<>> (empty) or <<x>>.
   cfg = <<kind, null>>: "tr"  optional<T>, T tracked and able to throw
                         "mo"  optional<M>, M tracked, can be moved only
                         "int" optional<int>
                         "nul" layer1::optional<int, null>: storing null IS empty
                         "bit" layer1::optional<bool>: one-bit storage, 0 and 1
   A moved-from optional's content is nobody's business: the driver empties it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals
VARIABLES cfg, o, dead, act
vars == <<cfg, o, dead, act>>
Kind == cfg[1]
Some(x) == IF Kind = "nul" /\ x = cfg[2] THEN <<>> ELSE <<x>>
Legal(x) == Kind = "bit" => x \in {0, 1}
Emplaces == Kind \in {"tr", "int", "mo"}
MoveOnly == Kind = "mo"
Copying == {"make_val", "assign_val", "make_copy", "assign_copy", "value_or"}
Eng(r) == o[r] # <<>>
Key == <<cfg, o, dead>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ has |-> <<Eng(1), Eng(2)>>, val |-> <<o[1], o[2]>>,
    live |-> (IF Kind \in {"tr", "mo"} THEN Len(o[1]) + Len(o[2]) ELSE 0), err |-> 0 ]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ o = <<<<>>, <<>>>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ o' = <<<<>>, <<>>>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Put(r, x) == o' = [o EXCEPT ![r] = x] /\ UNCHANGED <<cfg, dead>>
Same == UNCHANGED <<cfg, o, dead>>

Store(op, r, x) == Legal(x) /\ (op \in {"emplace", "make_inplace"} => Emplaces) /\ Put(r, Some(x)) /\ Ret(op, <<r, x>>, IF op = "emplace" THEN x ELSE 0)
Empty(op, r) == Put(r, <<>>) /\ Ret(op, <<r>>, 0)
Copy(op, r, s) == (op = "make_copy" => r # s) /\ Put(r, o[s]) /\ Ret(op, <<r, s>>, 0)
Move(op, r, s) == r # s /\ o' = [o EXCEPT ![r] = o[s], ![s] = <<>>] /\ UNCHANGED <<cfg, dead>> /\ Ret(op, <<r, s>>, 0)
\* from an optional<short>: x is <<>> or <<value>>
Conv(op, r, x) == Kind \in {"int", "nul", "tr", "mo"} /\ Put(r, IF x = <<>> THEN <<>> ELSE Some(x[1])) /\ Ret(op, <<r, x>>, 0)
EmplaceThrow(r) == Kind = "tr" /\ Put(r, <<>>) /\ Ret("emplace_throw", <<r>>, 1)
\* throwing assignment: an empty optional stays empty, an engaged one stays engaged (its value is T's business); then the driver empties it
AssignThrow(op, r) == Kind = "tr" /\ Put(r, <<>>) /\ Ret(op, <<r>>, IF Eng(r) THEN 1 ELSE 0)
ValueOr(r, d) == Legal(d) /\ Same /\ Ret("value_or", <<r, d>>, IF Eng(r) THEN o[r][1] ELSE d)
Value(r) == Same /\ Ret("value", <<r>>, o[r])                        \* <<>> = refused
EqVal(r, x) == Legal(x) /\ Same /\ Ret("eqv", <<r, x>>, LET e == Eng(r) /\ o[r][1] = x IN <<e, e, ~e>>)
EqOpt(r, s) == Same /\ Ret("eq", <<r, s>>, o[r] = o[s])
Rel(r, x) == Legal(x) /\ Eng(r) /\ Kind \notin {"tr", "mo"} /\ Same /\ Ret("rel", <<r, x>>, LET w == o[r][1] IN <<w < x, w > x, w <= x, w >= x>>)
Mut(r, x) == Eng(r) /\ Kind # "bit" /\ Put(r, Some(x)) /\ Ret("mut", <<r, x>>, 0)
End == o' = <<<<>>, <<>>>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0>>)

Do(op, a) == ~dead /\ (op \in Copying => ~MoveOnly) /\ (op = "make_val_m" => MoveOnly) /\
  CASE op \in {"make_val", "make_val_m", "make_inplace", "assign_val", "assign_val_m", "emplace"} -> Store(op, a[1], a[2])
    [] op \in {"make_null", "make_default", "assign_null", "do_reset"} -> Empty(op, a[1])
    [] op \in {"make_copy", "assign_copy"} -> Copy(op, a[1], a[2])
    [] op \in {"make_move", "assign_move"} -> Move(op, a[1], a[2])
    [] op \in {"make_conv", "make_conv_m", "assign_conv", "assign_conv_m"} -> Conv(op, a[1], a[2])
    [] op = "emplace_throw" -> EmplaceThrow(a[1])
    [] op \in {"assign_throw", "assign_opt_throw"} -> AssignThrow(op, a[1])
    [] op = "value_or" -> ValueOr(a[1], a[2])
    [] op = "value" -> Value(a[1])
    [] op = "eqv" -> EqVal(a[1], a[2])
    [] op = "eq" -> EqOpt(a[1], a[2])
    [] op = "rel" -> Rel(a[1], a[2])
    [] op = "mut" -> Mut(a[1], a[2])
    [] op = "end" -> End
    [] OTHER -> FALSE

Next ==
  \/ \E r \in {1, 2}, x \in Vals : \E op \in {"make_val", "make_val_m", "make_inplace", "assign_val", "assign_val_m", "emplace", "value_or", "eqv", "rel", "mut"} : Do(op, <<r, x>>)
  \/ \E r \in {1, 2} : \E op \in {"make_null", "make_default", "assign_null", "do_reset", "emplace_throw", "assign_throw", "assign_opt_throw", "value"} : Do(op, <<r>>)
  \/ \E r, s \in {1, 2} : \E op \in {"make_copy", "assign_copy", "make_move", "assign_move", "eq"} : Do(op, <<r, s>>)
  \/ \E r \in {1, 2}, x \in {<<>>} \cup {<<y>> : y \in Vals} : \E op \in {"make_conv", "make_conv_m", "assign_conv", "assign_conv_m"} : Do(op, <<r, x>>)
  \/ Do("end", <<>>)

TypeOK == \A r \in {1, 2} : Len(o[r]) <= 1 /\ (Kind = "nul" => o[r] # <<cfg[2]>>)
ResetEmpties == [][act'.op \in {"do_reset", "assign_null"} => o'[act'.a[1]] = <<>>]_vars
=============================================================================
