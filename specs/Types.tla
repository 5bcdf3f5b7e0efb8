------------------------------- MODULE Types -------------------------------
(* What type computations name, and what they say about a type.
   A type is a sequence of layers <<what, const, volatile>>, innermost first: a base type, then pointers "*", references "&"
   and "&&", arrays "[2]" and "[]"; an array has the qualification of its elements.
   t      the type at hand   cfg  the type begun with *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, t, dead, act
vars == <<cfg, t, dead, act>>
Key == <<t, dead>>
Layer(w) == <<w, FALSE, FALSE>>
Signed == {"schar", "short", "int", "long", "llong"}
Unsigned == {"bool", "uchar", "ushort", "uint", "ulong", "ullong"}
Integrals == Signed \cup Unsigned \cup {"char", "wchar", "c16", "c32"}
Floats == {"float", "double", "ldouble"}
Classes == {"cls", "empty", "final"}
Fns == {"fn", "fnx", "fnv"}
Enums == {"enum", "ec"}
Members == {"mobj", "mfn"}
Bases == Integrals \cup Floats \cup Classes \cup Fns \cup Enums \cup Members \cup {"void", "union"}
Refs == {"&", "&&"}
Arrays == {"[2]", "[]"}
Top(u) == u[Len(u)][1]
Front(u) == SubSeq(u, 1, Len(u) - 1)
IsRef(u) == Top(u) \in Refs
IsArray(u) == Top(u) \in Arrays
IsFn(u) == Top(u) \in Fns
IsVoid(u) == Top(u) = "void"
RECURSIVE Const(_), Volatile(_), SetCv(_, _, _)
Const(u) == IF IsArray(u) THEN Const(Front(u)) ELSE u[Len(u)][2]
Volatile(u) == IF IsArray(u) THEN Volatile(Front(u)) ELSE u[Len(u)][3]
\* references and functions are never qualified
SetCv(u, c, v) == IF IsRef(u) \/ IsFn(u) THEN u
                  ELSE IF IsArray(u) THEN Append(SetCv(Front(u), c, v), u[Len(u)])
                  ELSE [u EXCEPT ![Len(u)] = <<@[1], c, v>>]
NoRef(u) == IF IsRef(u) THEN Front(u) ELSE u
NoCv(u) == SetCv(u, FALSE, FALSE)
Pointer(u) == Append(NoRef(u), Layer("*"))
NoExtent(u) == IF IsArray(u) THEN Front(u) ELSE u
Decay(u) == LET n == NoRef(u) IN IF IsArray(n) THEN Pointer(Front(n)) ELSE IF IsFn(n) THEN Pointer(n) ELSE NoCv(n)
LRef(u) == IF IsVoid(u) THEN u ELSE Append(NoRef(u), Layer("&"))
\* references collapse
RRef(u) == IF IsVoid(u) \/ IsRef(u) THEN u ELSE Append(u, Layer("&&"))
Computed(op, u) ==
  CASE op = "add_const" -> SetCv(u, TRUE, Volatile(u))
    [] op = "add_volatile" -> SetCv(u, Const(u), TRUE)
    [] op = "add_cv" -> SetCv(u, TRUE, TRUE)
    [] op = "remove_const" -> SetCv(u, FALSE, Volatile(u))
    [] op = "remove_volatile" -> SetCv(u, Const(u), FALSE)
    [] op = "remove_cv" -> NoCv(u)
    [] op = "remove_reference" -> NoRef(u)
    [] op = "remove_cvref" -> NoCv(NoRef(u))
    [] op = "add_pointer" -> Pointer(u)
    [] op = "remove_pointer" -> IF Top(u) = "*" THEN Front(u) ELSE u
    [] op = "add_lref" -> LRef(u)
    [] op = "add_rref" -> RRef(u)
    [] op = "remove_extent" -> NoExtent(u)
    [] op = "decay" -> Decay(u)
    [] op = "identity" -> u
Ops == {"add_const", "add_volatile", "add_cv", "remove_const", "remove_volatile", "remove_cv", "remove_reference", "remove_cvref", "add_pointer",
        "remove_pointer", "add_lref", "add_rref", "remove_extent", "decay", "identity"}
\* what is said of a type
W == Top(t)
Integral == W \in Integrals
\* plain char is signed here, as is wchar_t
IsSigned == W \in Signed \cup Floats \cup {"char", "wchar"}
Arith == Integral \/ W \in Floats
Said ==
  [ const |-> Const(t), volatile |-> Volatile(t), ref |-> IsRef(t), lref |-> W = "&", rref |-> W = "&&", pointer |-> W = "*", array |-> IsArray(t),
    fn |-> IsFn(t), void |-> W = "void", integral |-> Integral, floating |-> W \in Floats, arithmetic |-> Arith, signed |-> IsSigned,
    unsigned |-> Arith /\ ~IsSigned, enum |-> W \in Enums, class |-> W \in Classes, union |-> W = "union", member |-> W \in Members, mobj |-> W = "mobj", mfn |-> W = "mfn" ]
\* the integer type of the same width, signed or not: <<bits, const, volatile>>
Bits(b) == CASE b \in {"schar", "uchar", "char"} -> 8 [] b \in {"short", "ushort", "c16"} -> 16 [] b \in {"int", "uint", "wchar", "c32"} -> 32 [] OTHER -> 64
\* the universe: up to three layers over int, two over some, one over the rest
Deep(b) == CASE b = "int" -> 3 [] b \in {"cls", "fn", "void", "double"} -> 2 [] OTHER -> 1
InU(u) == Len(u) <= Deep(u[1][1])
\* ----
Obs == IF dead THEN [z |-> 1] ELSE [t |-> t, s |-> Said]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ t = c[1] /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ t' = c[1] /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
End == dead' = TRUE /\ UNCHANGED <<cfg, t>> /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\ IF op = "end" THEN End ELSE UNCHANGED <<cfg, dead>> /\
  \* what there is no type for cannot be asked
  CASE op \in Ops -> LET u == Computed(op, t) IN Ret(op, a, <<u, u = t>>) /\ t' = IF InU(u) THEN u ELSE t
    [] op = "make_signed" -> W \in (Signed \cup Unsigned) \ {"bool"} /\ UNCHANGED t /\ Ret(op, a, <<Bits(W), TRUE, Const(t), Volatile(t)>>)
    [] op = "make_unsigned" -> W \in Signed /\ ~Const(t) /\ ~Volatile(t) /\ UNCHANGED t /\ Ret(op, a, <<Bits(W), FALSE, FALSE, FALSE>>)
    [] OTHER -> FALSE
Next == Do("end", <<>>) \/ \E op \in Ops \cup {"make_signed", "make_unsigned"} : Do(op, <<>>)
TypeOK == InU(t) /\ t[1][1] \in Bases
          /\ \A i \in 2..Len(t) : t[i][1] \in {"*"} \cup Refs \cup Arrays /\ (i < Len(t) => t[i][1] \notin Refs)
\* every type is of exactly one kind
Kinds == LET s == Said IN <<s.void, s.integral, s.floating, s.array, s.enum, s.union, s.class, s.fn, s.pointer, s.lref, s.rref, s.mobj, s.mfn>>
OneKind == Cardinality({i \in 1..Len(Kinds) : Kinds[i]}) = 1
=============================================================================
