-------------------------------- MODULE Bits ---------------------------------
(* Hashes, byte swaps and flag sets.
   cfg = <<"hash">>: s is a sequence of bytes; h its FNV-1 and FNV-1a hashes of 32 and 64 bits
   as bytes, least significant first.   cfg = <<"flags">>: s = <<f>>, a set of 8 flags as a number.
   cfg = <<"swap", type, bytes>>: one integer as its bytes.                                       *)
EXTENDS Integers, Sequences, Bitwise, TLC
CONSTANTS Bytes, MaxLen
VARIABLES cfg, s, h, dead, act
vars == <<cfg, s, h, dead, act>>
Key == <<cfg, s, h, dead>>
Kind == cfg[1]
\* h * k + carry, modulo 256^Len(h)
RECURSIVE MulC(_, _, _)
MulC(w, k, c) == IF w = <<>> THEN <<>> ELSE LET t == w[1] * k + c IN <<t % 256>> \o MulC(Tail(w), k, t \div 256)
RECURSIVE AddC(_, _, _)
AddC(g, w, c) == IF g = <<>> THEN <<>> ELSE LET t == g[1] + w[1] + c IN <<t % 256>> \o AddC(Tail(g), Tail(w), t \div 256)
Zeros(n) == [i \in 1..n |-> 0]
Shl(w, n) == SubSeq(Zeros(n) \o w, 1, Len(w))
\* the primes are 2^24 + 403 and 2^40 + 435
Prime(w) == IF Len(w) = 4 THEN AddC(MulC(w, 403, 0), Shl(w, 3), 0) ELSE AddC(MulC(w, 435, 0), Shl(w, 5), 0)
Mix(w, b) == [w EXCEPT ![1] = @ ^^ b]
Basis(n) == IF n = 32 THEN <<197, 157, 28, 129>> ELSE <<37, 35, 34, 132, 228, 156, 242, 203>>
Step(m, w, b) == IF m = "1" THEN Mix(Prime(w), b) ELSE Prime(Mix(w, b))
H0 == <<Basis(32), Basis(32), Basis(64), Basis(64)>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ s |-> s, h |-> h ]
S0(c) == CASE c[1] = "hash" -> <<>> [] c[1] = "flags" -> <<0>> [] c[1] = "swap" -> c[3]
InitCfg(c) == cfg = c /\ s = S0(c) /\ h = (IF c[1] = "hash" THEN H0 ELSE <<>>) /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ s' = S0(c) /\ h' = (IF c[1] = "hash" THEN H0 ELSE <<>>) /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Go(op, a, t, r) == s' = t /\ UNCHANGED <<cfg, h, dead>> /\ act' = [op |-> op, a |-> a, r |-> r]
Put(b) == Kind = "hash" /\ b \in 0..255 /\ s' = Append(s, b) /\ UNCHANGED <<cfg, dead>> /\ act' = [op |-> "put", a |-> <<b>>, r |-> 0]
  /\ h' = <<Step("1", h[1], b), Step("1a", h[2], b), Step("1", h[3], b), Step("1a", h[4], b)>>
\* hashing in two pieces
Chain(i) == Kind = "hash" /\ i \in 0..Len(s) /\ Go("chain", <<i>>, s, h)
\* what the containers' own hash says (text without zeros)
Cont(k) == Kind = "hash" /\ k \in {"l1", "l1n", "l2", "sv", "vec", "c64"} /\ (k \in {"l1", "l2"} => \A i \in 1..Len(s) : s[i] # 0)
  /\ Len(s) <= 30 /\ Go("cont", <<k>>, s, IF k = "c64" THEN h[4] ELSE h[2])
\* integers hash to themselves
Ident(v) == Kind = "hash" /\ Go("ident", <<v>>, s, v)
F == s[1]
Set(op, v) == Kind = "flags" /\ v \in 0..255
  /\ CASE op = "oreq" -> Go(op, <<v>>, <<F | v>>, 0)
       [] op = "or" -> Go(op, <<v>>, s, F | v) [] op = "and" -> Go(op, <<v>>, s, F & v) [] op = "xor" -> Go(op, <<v>>, s, F ^^ v)
       [] op = "set" -> Go(op, <<v>>, <<v>>, 0) [] op = "eq" -> Go(op, <<v>>, s, F = v)
Inv == Kind = "flags" /\ Go("not", <<>>, s, 255 - F)
Test == Kind = "flags" /\ Go("any", <<>>, s, F # 0)
Rev(t) == [i \in 1..Len(t) |-> t[Len(t) + 1 - i]]
Swap == Kind = "swap" /\ Go("swap", <<>>, Rev(s), 0)
End == dead' = TRUE /\ UNCHANGED <<cfg, s, h>> /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Sets == {"oreq", "or", "and", "xor", "set", "eq"}
Do(op, x) == ~dead /\
  CASE op = "put" -> Put(x[1]) [] op = "chain" -> Chain(x[1]) [] op = "cont" -> Cont(x[1]) [] op = "ident" -> Ident(x[1])
    [] op \in Sets -> Set(op, x[1]) [] op = "not" -> Inv [] op = "any" -> Test [] op = "swap" -> Swap [] op = "end" -> End [] OTHER -> FALSE
Next == \/ Do("end", <<>>)
        \/ Kind = "hash" /\ ((Len(s) < MaxLen /\ \E b \in Bytes : Do("put", <<b>>)) \/ (\E i \in 0..MaxLen : Do("chain", <<i>>))
             \/ (\E k \in {"l1", "l1n", "l2", "sv", "vec", "c64"} : Do("cont", <<k>>)) \/ Do("ident", <<7>>))
        \/ Kind = "flags" /\ ((\E v \in {0, 1, 2, 4, 64, 128, 130, 255} : \E op \in Sets : Do(op, <<v>>)) \/ Do("not", <<>>) \/ Do("any", <<>>))
        \/ Do("swap", <<>>)
TypeOK == \A i \in 1..Len(s) : s[i] \in 0..255
\* swapping twice changes nothing
Involution == Rev(Rev(s)) = s
=============================================================================
