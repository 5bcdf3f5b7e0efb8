------------------------------ MODULE Quantity ------------------------------
(* Quantities with a unit.
   cfg = <<tag, scale, rep>>: tag the kind of unit ("bytes", "percent", "hops"), scale its prefix ("" for none; "Ki", "Mi",
   "Gi" are those of bytes), rep the representation ("i8" .. "u64", "d" a double).
   v  the count (of a double in 64ths); width, base, up the state of the output stream                                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NUMS, WIDTHS, BASES, VALS
VARIABLES cfg, v, width, base, up, dead, act
vars == <<cfg, v, width, base, up, dead, act>>
Key == <<cfg, v, width, base, up, dead>>
Tag == cfg[1]
Scale == cfg[2]
Rep == cfg[3]
Dbl == Rep = "d"
Lo == CASE Rep = "i8" -> 0 - 128 [] Rep = "i16" -> 0 - 32768 [] Rep \in {"u8", "u16", "u32", "u64"} -> 0 [] OTHER -> 0 - 1000000000
Hi == CASE Rep = "i8" -> 127 [] Rep = "i16" -> 32767 [] Rep = "u8" -> 255 [] Rep = "u16" -> 65535 [] OTHER -> 1000000000
Fits(n) == n >= Lo /\ n <= Hi
\* ---- text
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
UDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
RECURSIVE Nat2(_, _, _)
Nat2(n, b, u) == (IF n < b THEN "" ELSE Nat2(n \div b, b, u)) \o (IF u THEN UDigit ELSE Digit)[(n % b) + 1]
Abs(n) == IF n < 0 THEN 0 - n ELSE n
\* division towards zero
Quo(p, q) == IF p < 0 THEN 0 - ((0 - p) \div q) ELSE p \div q
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
Count == IF ~Dbl THEN LET t == (IF v < 0 THEN "-" ELSE "") \o Nat2(Abs(v), base, up) IN Spaces(width - Len(t)) \o t
         ELSE LET whole == Abs(v) \div 64 f == ((Abs(v) % 64) * 100) \div 64 IN
              \* two decimals, the rest cut off
              (IF v < 0 /\ (whole # 0 \/ f # 0) THEN "-" ELSE "") \o Nat2(whole, 10, FALSE) \o "." \o (IF f < 10 THEN "0" ELSE "") \o Nat2(f, 10, FALSE)
Prefix == CASE Scale \in {"kilo", "Ki"} -> "kilo" [] Scale \in {"mega", "Mi"} -> "mega" [] Scale \in {"giga", "Gi"} -> "giga" [] OTHER -> Scale
PrefixAbbrev == CASE Prefix = "" -> "" [] Prefix = "kilo" -> "k" [] Prefix = "mega" -> "M" [] Prefix = "giga" -> "G" [] Prefix = "tera" -> "T"
                  [] Prefix = "deci" -> "d" [] Prefix = "deca" -> "da" [] Prefix = "centi" -> "c" [] Prefix = "milli" -> "m"
                  [] Prefix = "micro" -> "u" [] Prefix = "nano" -> "n"
Name == Prefix \o Tag
Abbrev == PrefixAbbrev \o (CASE Tag = "bytes" -> "B" [] Tag = "percent" -> "%" [] Tag = "hops" -> "hp")
Written(how) == Count \o (CASE how \in {"full", "putfull"} -> " " \o Name
                            [] how \in {"abbrev", "put"} -> Abbrev
                            [] how = "spaced" -> " " \o Abbrev)
\* ----
Obs == IF dead THEN [z |-> 1] ELSE [v |-> v, w |-> width]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ v = 0 /\ width = 0 /\ base = 10 /\ up = FALSE /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ v' = 0 /\ width' = 0 /\ base' = 10 /\ up' = FALSE /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Same == UNCHANGED <<v, width, base, up>>
To(n) == Fits(n) /\ v' = n /\ UNCHANGED <<width, base, up>>
Unit == IF Dbl THEN 64 ELSE 1
Write(how) == /\ Ret("write", <<how>>, Written(how))
              /\ width' = 0 /\ UNCHANGED <<v, base, up>>
\* the share of percentage p (t = 1: in tenths of it, 2: in tens) of what lies between lo and hi; two arguments: lo is 0
PctOf(p, t, lo, hi) == lo + Quo((hi - lo) * p * (IF t = 2 THEN 10 ELSE 1), IF t = 1 THEN 1000 ELSE 100)
Cmp(q, n) == <<q = n, q > n, q < n>>
End == dead' = TRUE /\ UNCHANGED <<cfg, v, width, base, up>> /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\ IF op = "end" THEN End ELSE UNCHANGED <<cfg, dead>> /\
  CASE op = "set" -> To(a[1]) /\ Ret(op, a, 0)
    [] op = "addq" -> Fits(a[1]) /\ To(v + a[1]) /\ Ret(op, a, 0)
    [] op = "subq" -> Fits(a[1]) /\ To(v - a[1]) /\ Ret(op, a, 0)
    \* scalars, only for unscaled units
    [] op = "add" -> Scale = "" /\ (Dbl => Abs(a[1]) <= 1000000) /\ Fits(a[1] * Unit) /\ To(v + a[1] * Unit) /\ Ret(op, a, 0)
    [] op = "sub" -> Scale = "" /\ (Dbl => Abs(a[1]) <= 1000000) /\ Fits(a[1] * Unit) /\ To(v - a[1] * Unit) /\ Ret(op, a, 0)
    [] op = "cmp" -> Scale = "" /\ (Dbl => Abs(a[1]) <= 1000000) /\ Fits(a[1] * Unit) /\ Same /\ Ret(op, a, Cmp(v, a[1] * Unit))
    \* a thousandfold unit
    [] op = "addk" -> Scale = "" /\ Rep \in {"i32", "i64"} /\ Abs(a[1]) <= 1000000 /\ To(v + 1000 * a[1]) /\ Ret(op, a, 0)
    [] op = "subk" -> Scale = "" /\ Rep \in {"i32", "i64"} /\ Abs(a[1]) <= 1000000 /\ To(v - 1000 * a[1]) /\ Ret(op, a, 0)
    [] op = "inc" -> To(v + Unit) /\ Ret(op, a, 0)
    [] op = "neg" -> To(0 - v) /\ Ret(op, a, 0)
    [] op = "write" -> Write(a[1])
    [] op = "setw" -> ~Dbl /\ a[1] \in 0..15 /\ width' = a[1] /\ UNCHANGED <<v, base, up>> /\ Ret(op, a, 0)
    [] op = "base" -> ~Dbl /\ base' = a[1] /\ up' = a[2] /\ UNCHANGED <<v, width>> /\ Ret(op, a, 0)
    [] op = "pct" -> Abs(a[1]) <= 1000 /\ Abs(a[3]) <= 100000 /\ Abs(a[4]) <= 100000 /\ Same /\ Ret(op, a, PctOf(a[1], a[2], a[3], a[4]))
    [] op = "share" -> Abs(a[1]) <= 1000 /\ Abs(a[3]) <= 100000 /\ Same /\ Ret(op, a, PctOf(a[1], a[2], 0, a[3]))
    \* literals: their counts
    [] op = "lit" -> Same /\ Ret(op, a, <<0, 7, 100, 65535>>)
    [] OTHER -> FALSE
Near(n) == n \in VALS
Next ==
  \/ Do("end", <<>>)
  \/ \E n \in NUMS : (Do("set", <<n>>)) \/ (Near(v + n) /\ Do("addq", <<n>>)) \/ (Near(v - n) /\ Do("subq", <<n>>))
                     \/ (Near(v + n * Unit) /\ Do("add", <<n>>)) \/ (Near(v - n * Unit) /\ Do("sub", <<n>>)) \/ Do("cmp", <<n>>)
                     \/ (Near(v + 1000 * n) /\ Do("addk", <<n>>)) \/ (Near(v - 1000 * n) /\ Do("subk", <<n>>))
  \/ (Near(v + Unit) /\ Do("inc", <<>>)) \/ Do("neg", <<>>)
  \/ \E h \in {"full", "abbrev", "spaced", "put", "putfull"} : Do("write", <<h>>)
  \/ \E w \in WIDTHS : Do("setw", <<w>>)
  \/ \E b \in BASES, u \in BOOLEAN : Do("base", <<b, u>>)
  \/ v = 0 /\ width = 0 /\ base = 10 /\ (Do("lit", <<>>)
     \/ \E p \in {0, 1, 50, 99, 100, 150, 0 - 10}, t \in 0..2, hi \in {0, 1, 7, 200, 99999, 0 - 300} :
        (\E lo \in {0, 1, 0 - 50, 1000} : Do("pct", <<p, t, lo, hi>>)) \/ Do("share", <<p, t, hi>>))
TypeOK == Fits(v) /\ width \in 0..15
\* the width is used up by what is written, and writing changes nothing else
OneShot == [][act'.op = "write" => width' = 0 /\ v' = v /\ base' = base]_vars
=============================================================================
