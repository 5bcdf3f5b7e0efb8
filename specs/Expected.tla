------------------------------- MODULE Expected -------------------------------
(* Two expecteds: <<1, value>> or <<0, error>>.  cfg = <<kind>>:
     "tt"  expected<T, E> both tracked;  "ie" expected<int, E>;
     "ti"  expected<T, int>;  "ii" expected<int, int>;  "ve" expected<void, E> (value always 0);
     "mo" expected<M, E>, M can be moved only *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals
VARIABLES cfg, w, dead, act
vars == <<cfg, w, dead, act>>
Kind == cfg[1]
Void == Kind = "ve"
TrV == Kind \in {"tt", "ti", "mo"}
MoveOnly == Kind = "mo"
TrE == Kind \in {"tt", "ie", "ve", "mo"}
N(r, k) == IF w[r][1] = k THEN 1 ELSE 0
Key == <<cfg, w, dead>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ has |-> <<w[1][1] = 1, w[2][1] = 1>>, v |-> <<w[1][2], w[2][2]>>,
    lv |-> (IF TrV THEN N(1, 1) + N(2, 1) ELSE 0), le |-> (IF TrE THEN N(1, 0) + N(2, 0) ELSE 0), err |-> 0 ]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Def == <<1, 0>>
InitCfg(c) == cfg = c /\ w = <<Def, Def>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ w' = <<Def, Def>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Put(r, d) == w' = [w EXCEPT ![r] = d] /\ UNCHANGED <<cfg, dead>>
Same == UNCHANGED <<cfg, w, dead>>
SetVal(op, r, v) == ~Void /\ (MoveOnly => op \notin {"make_val", "set_val"}) /\ Put(r, <<1, v>>) /\ Ret(op, <<r, v>>, IF op = "emplace" THEN v ELSE 0)
SetErr(op, r, e) == Put(r, <<0, e>>) /\ Ret(op, <<r, e>>, 0)
Copy(r, s) == r # s /\ ~MoveOnly /\ Put(r, w[s]) /\ Ret("make_copy", <<r, s>>, 0)
Move(r, s) == r # s /\ w' = [w EXCEPT ![r] = w[s], ![s] = Def] /\ UNCHANGED <<cfg, dead>> /\ Ret("make_move", <<r, s>>, 0)
ValueOr(r, d) == ~Void /\ ~MoveOnly /\ Same /\ Ret("value_or", <<r, d>>, IF w[r][1] = 1 THEN w[r][2] ELSE d)
\* value(): the value, or refusal carrying the error
Value(r) == Same /\ Ret("value", <<r>>, w[r])
Mut(r, v) == (Void => w[r][1] = 0) /\ Put(r, <<w[r][1], v>>) /\ Ret("mut", <<r, v>>, 0)
End == w' = <<Def, Def>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0, 0>>)
Do(op, a) == ~dead /\
  CASE op \in {"make_val", "make_val_m", "make_inplace", "set_val", "set_val_m", "emplace"} -> SetVal(op, a[1], a[2])
    [] op = "make_default" -> Put(a[1], Def) /\ Ret(op, a, 0)
    [] op \in {"make_err", "make_unex", "make_unex2", "set_err", "set_err2"} -> SetErr(op, a[1], a[2])
    [] op = "make_copy" -> Copy(a[1], a[2])
    [] op = "make_move" -> Move(a[1], a[2])
    [] op = "value_or" -> ValueOr(a[1], a[2])
    [] op = "value" -> Value(a[1])
    [] op = "mut" -> Mut(a[1], a[2])
    [] op = "end" -> End
    [] OTHER -> FALSE
Next ==
  \/ \E r \in {1, 2}, v \in Vals : \E op \in {"make_val", "make_val_m", "make_inplace", "set_val", "set_val_m", "emplace", "make_err", "make_unex", "make_unex2", "set_err", "set_err2", "value_or", "mut"} : Do(op, <<r, v>>)
  \/ \E r, s \in {1, 2} : \E op \in {"make_copy", "make_move"} : Do(op, <<r, s>>)
  \/ \E r \in {1, 2} : \E op \in {"make_default", "value"} : Do(op, <<r>>)
  \/ Do("end", <<>>)
TypeOK == \A r \in {1, 2} : w[r][1] \in {0, 1} /\ (Void /\ w[r][1] = 1 => w[r][2] = 0)
=============================================================================
