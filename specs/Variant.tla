------------------------------- MODULE Variant -------------------------------
(* Two variants v[1], v[2].  Each is <<alternative, value>> or valueless <<>>.
   cfg = <<kind>>:  "mix"   variant<int, A, B, N>   A copy/move assignable,
     B may throw when copied or constructed, N constructible but not assignable
     and over-aligned;  "triv" variant<int, char, long>;
     "dup" variant<int, A, int, A>, where an alternative is named by position only;  "one" variant<A>.
   A moved-from variant's content is nobody's business: the driver destroys it
   and makes a new default one in its place.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals
VARIABLES cfg, v, dead, act
vars == <<cfg, v, dead, act>>

Kind == cfg[1]
NAlt == IF Kind \in {"mix", "dup"} THEN 4 ELSE IF Kind = "triv" THEN 3 ELSE 1
Alts == 0..(NAlt - 1)
Init0 == <<0, 0>>
Key == <<cfg, v, dead>>
\* what an observer sees of one variant
One(x) == [ i |-> (IF x = <<>> THEN -1 ELSE x[1]),
            n |-> (x = <<>>),
            get |-> [j \in 1..NAlt |-> IF x # <<>> /\ x[1] = j - 1 THEN <<x[2]>> ELSE <<>>],    \* get<j>, get_if<j>, get<T>: value or refusal
            h |-> [j \in 1..NAlt |-> x # <<>> /\ x[1] = j - 1] ]
Count(i) == Cardinality({r \in {1, 2} : v[r] # <<>> /\ v[r][1] = i})
AltA == IF Kind = "mix" THEN 1 ELSE IF Kind = "one" THEN 0 ELSE -1
Counted == <<IF Kind = "dup" THEN Count(1) + Count(3) ELSE Count(AltA), IF Kind = "mix" THEN Count(2) ELSE 0, IF Kind = "mix" THEN Count(3) ELSE 0>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ v |-> <<One(v[1]), One(v[2])>>,
    live |-> Counted, err |-> 0 ]

Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ v = <<Init0, Init0>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ v' = <<Init0, Init0>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Put(r, x) == v' = [v EXCEPT ![r] = x] /\ UNCHANGED <<cfg, dead>>
Same == UNCHANGED <<cfg, v, dead>>
Unambiguous(i) == Kind # "dup" /\ (Kind # "triv" \/ i = 0)

Make(op, r, i, x) == i \in Alts /\ (op = "make_type" => Kind # "dup") /\ Put(r, <<i, x>>) /\ Ret(op, <<r, i, x>>, 0)
Conv(op, r, i, x) == i \in Alts /\ Unambiguous(i) /\ Put(r, <<i, x>>) /\ Ret(op, <<r, i, x>>, 0)
Emplace(op, r, i, x) == i \in Alts /\ (op = "emplace_t" => Kind # "dup") /\ Put(r, <<i, x>>) /\ Ret(op, <<r, i, x>>, x)
Copy(op, r, s) == Put(r, v[s]) /\ (op = "make_copy" => r # s) /\ Ret(op, <<r, s>>, 0)
Move(op, r, s) == r # s /\ v' = [v EXCEPT ![r] = v[s], ![s] = Init0] /\ UNCHANGED <<cfg, dead>> /\ Ret(op, <<r, s>>, 0)
\* construction inside the variant throws after the old value is gone
EmplaceThrow(op, r) == Kind = "mix" /\ Put(r, <<>>) /\ Ret(op, <<r>>, 1)
\* assignment that throws: "old value or valueless" is checked on the spot, then the driver makes a default variant
AssignValThrow(r) == Kind = "mix" /\ Put(r, Init0) /\ Ret("assign_val_throw", <<r>>, 1)
AssignThrow(op, r, s) == Kind = "mix" /\ r # s /\ v[s] # <<>> /\ v[s][1] = 2 /\ Put(r, Init0) /\ Ret(op, <<r, s>>, 1)
Mut(r, x) == v[r] # <<>> /\ Put(r, <<v[r][1], x>>) /\ Ret("mut", <<r, x>>, 0)
Visit(r) == Same /\ Ret("visit", <<r>>, IF v[r] = <<>> THEN <<-1>> ELSE <<v[r][1], v[r][1], v[r][2]>>)
End == v' = <<<<>>, <<>>>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0, 0, 0>>)

Do(op, a) == ~dead /\
  CASE op \in {"make_idx", "make_type"} -> Make(op, a[1], a[2], a[3])
    [] op \in {"make_conv", "make_conv_m", "assign_val", "assign_val_m"} -> Conv(op, a[1], a[2], a[3])
    [] op \in {"emplace_i", "emplace_t"} -> Emplace(op, a[1], a[2], a[3])
    [] op \in {"make_copy", "assign_copy"} -> Copy(op, a[1], a[2])
    [] op \in {"make_move", "assign_move"} -> Move(op, a[1], a[2])
    [] op \in {"emplace_throw", "emplace_i_throw"} -> EmplaceThrow(op, a[1])
    [] op = "assign_val_throw" -> AssignValThrow(a[1])
    [] op \in {"assign_copy_throw", "make_copy_throw"} -> AssignThrow(op, a[1], a[2])
    [] op = "mut" -> Mut(a[1], a[2])
    [] op = "visit" -> Visit(a[1])
    [] op = "end" -> End
    [] OTHER -> FALSE

Next ==
  \/ \E r \in {1, 2}, i \in 0..3, x \in Vals :
       \E op \in {"make_idx", "make_type", "make_conv", "make_conv_m", "assign_val", "assign_val_m", "emplace_i", "emplace_t"} : Do(op, <<r, i, x>>)
  \/ \E r \in {1, 2}, s \in {1, 2} :
       \E op \in {"make_copy", "assign_copy", "make_move", "assign_move", "assign_copy_throw", "make_copy_throw"} : Do(op, <<r, s>>)
  \/ \E r \in {1, 2} : \E op \in {"emplace_throw", "emplace_i_throw", "assign_val_throw", "visit"} : Do(op, <<r>>)
  \/ \E r \in {1, 2}, x \in Vals : Do("mut", <<r, x>>)
  \/ Do("end", <<>>)

TypeOK == \A r \in {1, 2} : v[r] = <<>> \/ v[r][1] \in Alts
\* only a throwing operation leaves a variant valueless, or a copy/move of a valueless one
ValuelessOnlyByThrow == [][\A r \in {1, 2} : v[r] # <<>> /\ v'[r] = <<>> =>
   act'.op \in {"emplace_throw", "emplace_i_throw", "make_copy", "assign_copy", "make_move", "assign_move", "end"}]_vars
=============================================================================
