-------------------------------- MODULE Common --------------------------------
(* Types and ratios which serve several operands at once.
   cur   the type at hand, folded with each further one through common_type ("none" when there is no such type)
   ex     the ratio at hand, as the exponents of 2, 3 and 5 in its numerator and denominator (lowest terms)        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, cur, ex, dead, act
vars == <<cfg, cur, ex, dead, act>>
Key == <<cur, ex, dead>>
\* ---- usual arithmetic conversions
Arith == <<"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "float", "double", "ldouble">>
IsArith(t) == \E j \in 1..Len(Arith) : Arith[j] = t
Rank(t) == CHOOSE j \in 1..Len(Arith) : Arith[j] = t
Floating(t) == t \in {"float", "double", "ldouble"}
Promote(t) == IF Rank(t) < Rank("int") THEN "int" ELSE t
Unsigned(t) == t \in {"uint", "ulong", "ullong"}
Base(t) == CASE t \in {"int", "uint"} -> 1 [] t \in {"long", "ulong"} -> 2 [] OTHER -> 3
Size(t) == IF t \in {"int", "uint"} THEN 32 ELSE 64
MakeUnsigned(t) == CASE t = "int" -> "uint" [] t = "long" -> "ulong" [] t = "llong" -> "ullong" [] OTHER -> t
Usual(t, u) ==
  IF Floating(t) \/ Floating(u) THEN IF ~Floating(t) THEN u ELSE IF ~Floating(u) THEN t ELSE IF Rank(t) > Rank(u) THEN t ELSE u
  ELSE LET p == Promote(t) q == Promote(u) hi == IF Base(p) >= Base(q) THEN p ELSE q lo == IF Base(p) >= Base(q) THEN q ELSE p IN
       IF Unsigned(p) = Unsigned(q) THEN hi
       ELSE IF Base(p) = Base(q) THEN MakeUnsigned(hi)
       ELSE IF Unsigned(hi) THEN hi
       ELSE IF Size(hi) > Size(lo) THEN hi ELSE MakeUnsigned(hi)
\* ---- classes and pointers: B derives from A; K converts to int; S and T2 were given a common type, L
Ptrs == {"pA", "pB", "cpA", "pv", "cpv", "pi"}
Two(t, u) ==
  IF t = "none" \/ u = "none" THEN "none"
  ELSE IF t = u THEN t
  ELSE IF IsArith(t) /\ IsArith(u) THEN Usual(t, u)
  ELSE IF {t, u} = {"A", "B"} THEN "A"
  ELSE IF {t, u} = {"S", "T2"} THEN "L"
  ELSE IF "null" \in {t, u} /\ {t, u} \cap Ptrs # {} THEN CHOOSE p \in {t, u} : p # "null"
  ELSE IF {t, u} = {"pA", "pB"} THEN "pA"
  ELSE IF {t, u} \in {{"pA", "cpA"}, {"pB", "cpA"}} THEN "cpA"
  ELSE IF "pv" \in {t, u} /\ {t, u} \subseteq {"pv", "pA", "pB", "pi"} THEN "pv"
  ELSE IF {t, u} \subseteq Ptrs /\ "cpv" \in {t, u} THEN "cpv"
  ELSE IF {t, u} = {"cpA", "pv"} THEN "cpv"
  ELSE IF t = "K" /\ IsArith(u) THEN u
  ELSE IF u = "K" /\ IsArith(t) THEN t
  ELSE "none"
Types == {Arith[j] : j \in 1..Len(Arith)} \cup Ptrs \cup {"A", "B", "S", "T2", "L", "null", "K"}
\* how the operands are written: plain, const&, &, &&, const; none of it matters
Forms == 0..4
\* ---- narrowest type for both: <<bits, signed>>, bits 0 where there is none
Widths == {8, 16, 32, 64}
Narrow(w1, s1, w2, s2, auto) ==
  LET w == IF w1 > w2 THEN w1 ELSE w2 IN
  IF w1 = w2 /\ s1 # s2 /\ auto THEN (IF w = 64 THEN <<0, FALSE>> ELSE <<2 * w, TRUE>>)
  ELSE <<w, s1 \/ s2>>
\* ---- ratios with exponents
Min(p, q) == IF p < q THEN p ELSE q
Max(p, q) == IF p > q THEN p ELSE q
Add(p, q) == [j \in 1..3 |-> p[j] + q[j]]
Meet(p, q) == [j \in 1..3 |-> Min(p[j], q[j])]
Join(p, q) == [j \in 1..3 |-> Max(p[j], q[j])]
Sub(p, q) == [j \in 1..3 |-> p[j] - q[j]]
Low(n, d) == LET g == Meet(n, d) IN <<Sub(n, g), Sub(d, g)>>
\* bits which are certainly enough for the number: 1, 1.585 and 2.322 per exponent
Weight(p) == (1000 * p[1] + 1585 * p[2] + 2322 * p[3]) \div 1000 + 1
Fits(p) == Weight(p) <= 62
BIG == << <<<<0, 0, 0>>, <<0, 0, 0>>>>, <<<<12, 0, 12>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<12, 0, 12>>>>, <<<<9, 0, 9>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<9, 0, 9>>>>, <<<<6, 0, 6>>, <<0, 7, 0>>>>, <<<<0, 13, 0>>, <<20, 0, 0>>>>, <<<<31, 0, 0>>, <<0, 0, 1>>>>,
          <<<<0, 0, 0>>, <<40, 0, 0>>>>, <<<<0, 20, 0>>, <<0, 0, 3>>>>, <<<<0, 0, 18>>, <<3, 2, 0>>>>, <<<<4, 2, 2>>, <<0, 0, 0>>>> >>
Q(j) == BIG[j]
Can(op, j) == LET q == Q(j) IN
  CASE op = "mul" -> Fits(Add(ex[1], q[1])) /\ Fits(Add(ex[2], q[2]))
    [] op = "div" -> Fits(Add(ex[1], q[2])) /\ Fits(Add(ex[2], q[1]))
    [] op = "period" -> Fits(Add(ex[1], q[1])) /\ Fits(Add(ex[2], q[2]))
    [] OTHER -> Fits(Add(ex[1], q[1]))
IsBig(x) == \E j \in 1..Len(BIG) : BIG[j] = x
\* ----
Obs == IF dead THEN [z |-> 1] ELSE [cur |-> cur, ex |-> ex]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ cur = c[1] /\ ex = BIG[c[2]] /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ cur' = c[1] /\ ex' = BIG[c[2]] /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ask(op, a, r) == UNCHANGED <<cur, ex>> /\ Ret(op, a, r)
To(op, a, r) == UNCHANGED cur /\ Ret(op, a, r) /\ ex' = IF IsBig(r) THEN r ELSE ex
End == dead' = TRUE /\ UNCHANGED <<cfg, cur, ex>> /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\ IF op = "end" THEN End ELSE UNCHANGED <<cfg, dead>> /\
  CASE op = "fold" -> LET t == Two(cur, a[1]) IN UNCHANGED ex /\ Ret(op, a, t) /\ cur' = IF t = "none" THEN cur ELSE t
    [] op = "one" -> Ask(op, a, a[1])
    [] op = "three" -> Ask(op, a, Two(Two(a[1], a[2]), a[3]))
    [] op = "narrow" -> Ask(op, a, Narrow(a[1], a[2], a[3], a[4], a[5]))
    [] op = "mul" -> Can(op, a[1]) /\ To(op, a, Low(Add(ex[1], Q(a[1])[1]), Add(ex[2], Q(a[1])[2])))
    [] op = "div" -> Can(op, a[1]) /\ To(op, a, Low(Add(ex[1], Q(a[1])[2]), Add(ex[2], Q(a[1])[1])))
    [] op = "gcd" -> Ask(op, a, Meet(ex[1], Q(a[1])[1]))
    [] op = "lcm" -> Can(op, a[1]) /\ Ask(op, a, Join(ex[1], Q(a[1])[1]))
    \* the coarsest period of which both are whole multiples
    [] op = "period" -> Can(op, a[1]) /\ Ask(op, a, <<Meet(ex[1], Q(a[1])[1]), Join(ex[2], Q(a[1])[2])>>)
    [] OTHER -> FALSE
Next ==
  \/ Do("end", <<>>)
  \/ ex = BIG[1] /\ \E t \in Types, f \in Forms : Do("fold", <<t, f>>)
  \/ cur = "int" /\ \E j \in 1..Len(BIG), op \in {"mul", "div", "gcd", "lcm", "period"} : Do(op, <<j>>)
  \/ cur = "int" /\ ex = BIG[1] /\
     \/ \E t \in Types, f \in Forms : Do("one", <<t, f>>)
     \/ \E t \in {"bool", "short", "uint", "llong", "float", "pA"}, u \in {"schar", "ulong", "double", "cpA", "null"}, v \in {"int", "pB", "ullong", "pv"} : Do("three", <<t, u, v>>)
     \/ \E w1 \in Widths, w2 \in Widths, s1 \in BOOLEAN, s2 \in BOOLEAN, b \in BOOLEAN : Do("narrow", <<w1, s1, w2, s2, b>>)
TypeOK == cur \in Types
\* common_type of two does not depend on their order, has itself as common type with both, and is never narrower
Sane == \A t \in Types : Two(cur, t) = Two(t, cur) /\ ({cur, t} # {"S", "T2"} => Two(Two(cur, t), t) = Two(cur, t))
Periods == \A j \in 1..Len(BIG) : LET p == <<Meet(ex[1], Q(j)[1]), Join(ex[2], Q(j)[2])>> IN \A m \in 1..3 : ex[1][m] + p[2][m] >= p[1][m] + ex[2][m] /\ Q(j)[1][m] + p[2][m] >= p[1][m] + Q(j)[2][m]
================================================================================
