-------------------------------- MODULE Call --------------------------------
(* Calling through invoke, reference wrappers and what function_traits says of a signature.
   v[o]  the number each object holds; object 1 is an A, object 2 a B derived from A
   w[k]  the object each reference wrapper denotes; the third one denotes it as const           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, v, w, dead, act
vars == <<cfg, v, w, dead, act>>
Key == <<v, w, dead>>
M == 3
Throws == 9
\* ---- how the object is given; what expression of type A the callee is then applied to
Targets == {"l", "cl", "r", "cr", "p", "cp", "rp", "sp", "rsp", "w", "rw", "cww"}
Wrapped == {"w", "rw", "cww"}
Pointing == {"p", "cp", "rp", "sp", "rsp"}
ByValue == {"l", "cl", "r", "cr"}
Const(t) == t \in {"cl", "cr", "cp", "cww"}
\* an rvalue pointer still points to an lvalue; only a pointer-like class may decide otherwise
Lval(t) == t \notin {"r", "cr", "rsp"}
Cat(t) == (IF Const(t) THEN "c" ELSE "") \o (IF Lval(t) THEN "l" ELSE "r")
\* ---- callees
Members == {"add", "peek", "lq", "rq", "nx", "vir", "ref", "xval", "nothing"}
Data == {"data", "cdata"}
Direct == {"fun", "fptr", "lam", "fref", "fxv", "ov", "cov", "rov"}
Callees == Members \cup Data \cup Direct
\* whether the language allows the call
Allowed(c, t) ==
  CASE c \in {"add", "nx", "vir", "ref", "xval", "nothing"} -> ~Const(t)
    [] c = "peek" \/ c \in Data -> TRUE
    [] c = "lq" -> ~Const(t) /\ Lval(t)
    [] c = "rq" -> ~Const(t) /\ ~Lval(t)
    [] c \in {"fun", "fptr", "lam", "fref", "fxv"} -> t \in {"l", "w", "rw"}
    [] c \in {"ov", "cov", "rov"} -> t \notin Pointing
\* type of the result: a value, a reference to an lvalue or rvalue (of const), nothing
Type(c, t) ==
  CASE c \in {"add", "peek", "lq", "rq", "nx", "vir", "fun", "fptr", "lam", "ov", "cov", "rov"} -> "val"
    [] c \in {"ref", "fref"} -> "l" [] c \in {"xval", "fxv"} -> "r" [] c = "nothing" -> "void"
    [] c = "data" -> Cat(t)
    [] c = "cdata" -> (IF Lval(t) THEN "cl" ELSE "cr")
Writes == {"add", "nx", "vir", "ref", "xval", "nothing", "lq", "rq", "fun", "fptr", "lam", "fref", "fxv"}
\* which of several overloads is chosen, by the callee's own category and the argument's
Tag(c, t, o) == CASE c \in {"ov", "cov", "rov"} -> c \o (IF t \in Wrapped THEN (IF t = "cww" THEN "cl" ELSE "l") ELSE Cat(t))
                [] c = "vir" -> (IF o = 2 /\ t # "none" THEN "B" ELSE "A")
                [] OTHER -> ""
Obs == IF dead THEN [z |-> 1] ELSE [v |-> v, w |-> w, err |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Start == v' = <<0, 1>> /\ w' = <<1, 2, 1>>
InitCfg(c) == cfg = c /\ v = <<0, 1>> /\ w = <<1, 2, 1>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ Start /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Frame == UNCHANGED <<cfg, dead>>
\* the object denoted: given directly, or by the wrapper in slot o
Denoted(t, o) == CASE t = "cww" -> w[3] [] t \in Wrapped -> w[o] [] OTHER -> o
Result(ty, val, tag, old, cp, mv) ==
  \* type of the result, its value, overload taken, number before, copies and moves of the argument
  <<ty, val, tag, old, cp, mv>>
\* copies and moves of the argument: a parameter taken by value is made once, from what the caller gave
Inv(c, t, o, n, ac) ==
  /\ c \in Callees /\ t \in Targets /\ o \in {1, 2} /\ ac \in {"l", "r"}
  /\ Frame /\ UNCHANGED w
  /\ LET d == Denoted(t, o) old == v[d] IN
     IF ~Allowed(c, t) THEN UNCHANGED v /\ Ret("inv", <<c, t, o, n, ac>>, "no")
     ELSE IF c \in Data THEN UNCHANGED v /\ Ret("inv", <<c, t, o, n, ac>>, Result(Type(c, t), old, "", -1, 0, 0))
     ELSE IF n = Throws THEN c # "nx" /\ UNCHANGED v /\ Ret("inv", <<c, t, o, n, ac>>, <<"threw", n>>)
     ELSE LET new == (old + n) % M cp == (IF ac = "l" THEN 1 ELSE 0) IN
          /\ v' = IF c \in Writes THEN [v EXCEPT ![d] = new] ELSE v
          /\ Ret("inv", <<c, t, o, n, ac>>, Result(Type(c, t), IF c = "nothing" THEN -1 ELSE new, Tag(c, t, d), old, cp, 1 - cp))
\* write through what invoke of a data member gives
Through(t, o, n) ==
  /\ t \in Targets /\ o \in {1, 2} /\ n \in 0..(M - 1) /\ ~Const(t) /\ Frame /\ UNCHANGED w
  /\ v' = [v EXCEPT ![Denoted(t, o)] = n] /\ Ret("through", <<t, o, n>>, 0)
\* ---- wrappers
Bind(k, o, how) == /\ k \in 1..3 /\ o \in {1, 2} /\ how \in (IF k = 3 THEN {"ctor", "ref", "cref"} ELSE {"ctor", "ref"}) /\ Frame /\ UNCHANGED v
  /\ w' = [w EXCEPT ![k] = o] /\ Ret("bind", <<k, o, how>>, 0)
\* assigning a wrapper rebinds it and leaves the objects alone
Copy(op, j, k) == /\ j \in 1..3 /\ k \in 1..3 /\ (j = 3 <=> k = 3) /\ Frame /\ UNCHANGED v /\ w' = [w EXCEPT ![j] = w[k]] /\ Ret(op, <<j, k>>, 0)
AsConst(k) == k \in {1, 2} /\ Frame /\ UNCHANGED v /\ w' = [w EXCEPT ![3] = w[k]] /\ Ret("asconst", <<k>>, 0)
Put(op, k, n) == /\ k \in {1, 2} /\ n \in 0..(M - 1) /\ Frame /\ UNCHANGED w /\ v' = [v EXCEPT ![w[k]] = n] /\ Ret(op, <<k, n>>, 0)
\* assigning to the object leaves the wrapper alone
Read(op, k) == k \in 1..3 /\ Frame /\ UNCHANGED <<v, w>> /\ Ret(op, <<k>>, v[w[k]])
\* ---- signatures
Types == {"int", "double", "rint", "cpA"}
Sig(form, ret, args) ==
  /\ form \in {"fun", "fref", "method", "cmethod", "functor", "model"} /\ ret \in {"void", "int", "rint"} /\ Len(args) <= 3 /\ \A j \in 1..Len(args) : args[j] \in Types
  /\ Frame /\ UNCHANGED <<v, w>>
  /\ Ret("sig", <<form, ret, args>>, <<Len(args), ret, args, form \in {"method", "cmethod", "functor"}, TRUE, TRUE, TRUE>>)
End == Start /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\
  CASE op = "inv" -> Inv(a[1], a[2], a[3], a[4], a[5])
    [] op = "through" -> Through(a[1], a[2], a[3])
    [] op = "bind" -> Bind(a[1], a[2], a[3])
    [] op \in {"assign", "copy"} -> Copy(op, a[1], a[2])
    [] op = "asconst" -> AsConst(a[1])
    [] op \in {"put_get", "put_conv", "put_whole"} -> Put(op, a[1], a[2])
    [] op \in {"get", "conv"} -> Read(op, a[1])
    [] op = "sig" -> Sig(a[1], a[2], a[3])
    [] op = "end" -> End
    [] OTHER -> FALSE
Sigs == {<<>>} \cup {<<p>> : p \in Types} \cup {<<p, q>> : p, q \in Types} \cup {<<p, q, s>> : p, q, s \in Types}
Next ==
  \/ \E c \in Callees, t \in Targets, o \in {1, 2} :
       IF Allowed(c, t) THEN \E n \in {1, Throws}, ac \in {"l", "r"} : Do("inv", <<c, t, o, n, ac>>) ELSE Do("inv", <<c, t, o, 1, "l">>)
  \/ \E t \in Targets, o \in {1, 2}, n \in 0..(M - 1) : Do("through", <<t, o, n>>)
  \/ \E k \in 1..3, o \in {1, 2}, how \in {"ctor", "ref", "cref"} : Do("bind", <<k, o, how>>)
  \/ \E j, k \in 1..3, op \in {"assign", "copy"} : Do(op, <<j, k>>)
  \/ \E k \in {1, 2} : Do("asconst", <<k>>)
  \/ \E k \in {1, 2}, n \in 0..(M - 1), op \in {"put_get", "put_conv", "put_whole"} : Do(op, <<k, n>>)
  \/ \E k \in 1..3, op \in {"get", "conv"} : Do(op, <<k>>)
  \/ v = <<0, 1>> /\ w = <<1, 2, 1>> /\ \E form \in {"fun", "fref", "method", "cmethod", "functor", "model"}, ret \in {"void", "int", "rint"}, args \in Sigs : Do("sig", <<form, ret, args>>)
  \/ Do("end", <<>>)
TypeOK == v \in [1..2 -> 0..(M - 1)] /\ w \in [1..3 -> 1..2]
\* nothing but binding, assigning or copying a wrapper changes what it denotes
Rebinds == [][w # w' => act'.op \in {"bind", "assign", "copy", "asconst", "reset", "end"}]_vars
\* a call reaches no object but the one denoted
OneObject == [][act'.op = "inv" => \A o \in 1..2 : v[o] # v'[o] => o = Denoted(act'.a[2], act'.a[3])]_vars
\* nothing is changed through const
KeepsConst == [][act'.op = "inv" /\ Const(act'.a[2]) => v' = v]_vars
=============================================================================
