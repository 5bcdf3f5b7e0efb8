----------------------------- MODULE StrSearch -----------------------------
(* Searching, comparing and viewing strings.  h is the current content of the
   string (or of the string_view, which can also be narrowed).  Positions are
   0-based; -1 stands for npos.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Alpha, MaxHay, MaxNeedle
VARIABLES cfg, h, act
vars == <<cfg, h, act>>
Key == <<cfg, h>>
Obs == [c |-> h, it |-> h, e |-> (h = <<>>), n |-> Len(h)]

InitCfg(c) == cfg = c /\ h = <<>> /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ h' = <<>> /\ act' = [op |-> "reset", a |-> c, r |-> 0]
IsView == cfg[1] = "sv"

n == Len(h)
Min(x, y) == IF x < y THEN x ELSE y
\* needle t occurs at 0-based position p
OccursAt(t, p) == p + Len(t) <= n /\ \A i \in 1..Len(t) : h[p + i] = t[i]
First(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
Last(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x >= y
InSet(t, p) == \E i \in 1..Len(t) : h[p + 1] = t[i]

FindR(t, pos) == First({p \in pos..n : OccursAt(t, p)})
RFindR(t, pos) == Last({p \in 0..(IF pos = -1 THEN n ELSE Min(pos, n)) : OccursAt(t, p)})
FirstOfR(t, pos) == First({p \in pos..(n - 1) : InSet(t, p)})
LastOfR(t, pos) == Last({p \in 0..(IF pos = -1 THEN n - 1 ELSE Min(pos, n - 1)) : InSet(t, p)})
Starts(t) == OccursAt(t, 0)
Ends(t) == Len(t) <= n /\ OccursAt(t, n - Len(t))
\* ordering used by compare: by length, then lexicographically by character code
FirstDiff(t) == First({p \in 0..(n - 1) : h[p + 1] # t[p + 1]})
Cmp(t) == IF n < Len(t) THEN -1 ELSE IF n > Len(t) THEN 1
          ELSE LET d == FirstDiff(t) IN IF d = -1 THEN 0 ELSE IF h[d + 1] < t[d + 1] THEN -1 ELSE 1

Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Read == UNCHANGED <<cfg, h>>
FindOps == {"find_c", "find_n", "find_s"}
RFindOps == {"rfind_c", "rfind_n", "rfind_s"}
FirstOps == {"first_c", "first_n", "first_s"}
LastOps == {"last_c", "last_n", "last_s"}
StartOps == {"starts_c", "starts_s"}
EndOps == {"ends_c", "ends_s"}
EqOps == {"eq_c", "eq_rc", "eq_s"}
NeedleOps == StartOps \cup EndOps \cup {"cmp_c", "cmp_s"} \cup EqOps
\* "_n" searches take an explicit position; "npos" is spelled -1
Do(op, a) ==
  CASE op = "set"      -> h' = a[1] /\ UNCHANGED cfg /\ Ret(op, a, 0)
    [] op \in FindOps  -> a[2] >= 0 /\ Read /\ Ret(op, a, FindR(a[1], a[2]))
    [] op = "find_ch"  -> Read /\ Ret(op, a, FindR(<<a[1]>>, a[2]))
    [] op \in RFindOps -> Read /\ Ret(op, a, RFindR(a[1], a[2]))
    [] op \in FirstOps -> a[2] >= 0 /\ Read /\ Ret(op, a, FirstOfR(a[1], a[2]))
    [] op \in LastOps  -> Read /\ Ret(op, a, LastOfR(a[1], a[2]))
    [] op \in StartOps -> Read /\ Ret(op, a, Starts(a[1]))
    [] op \in EndOps   -> Read /\ Ret(op, a, Ends(a[1]))
    [] op = "starts_ch" -> Read /\ Ret(op, a, n > 0 /\ h[1] = a[1])
    [] op = "ends_ch"  -> Read /\ Ret(op, a, n > 0 /\ h[n] = a[1])
    [] op \in {"cmp_c", "cmp_s"} -> Read /\ Ret(op, a, Cmp(a[1]))
    [] op \in EqOps    -> Read /\ Ret(op, a, h = a[1])
    [] op = "hash_same" -> Read /\ Ret(op, a, TRUE)
    [] op = "remove_prefix" -> IsView /\ a[1] <= n /\ h' = SubSeq(h, a[1] + 1, n) /\ UNCHANGED cfg /\ Ret(op, a, 0)
    [] op = "remove_suffix" -> IsView /\ a[1] <= n /\ h' = SubSeq(h, 1, n - a[1]) /\ UNCHANGED cfg /\ Ret(op, a, 0)
    \* count -1 means npos
    [] op = "substr"   -> IsView /\ a[1] <= n /\ Read /\
         Ret(op, a, SubSeq(h, a[1] + 1, IF a[2] = -1 THEN n ELSE Min(n, a[1] + a[2])))
    [] OTHER -> FALSE

SeqsUpTo(k) == UNION {[1..m -> Alpha] : m \in 0..k}
Next ==
  \/ h = <<>> /\ \E t \in SeqsUpTo(MaxHay) : Do("set", <<t>>)
  \/ h # <<>> /\ Do("set", <<<<>>>>)
  \/ \E t \in SeqsUpTo(MaxNeedle) :
       \/ \E p \in 0..(MaxHay + 1), op \in FindOps \cup FirstOps : Do(op, <<t, p>>)
       \/ \E p \in -1..(MaxHay + 1), op \in RFindOps \cup LastOps : Do(op, <<t, p>>)
       \/ \E op \in NeedleOps : Do(op, <<t>>)
  \/ \E op \in NeedleOps : Do(op, <<h>>)
  \/ \E c \in Alpha : Do("starts_ch", <<c>>) \/ Do("ends_ch", <<c>>) \/ \E p \in 0..(MaxHay + 1) : Do("find_ch", <<c, p>>)
  \/ Do("hash_same", <<>>)
  \/ \E k \in 0..2 : Do("remove_prefix", <<k>>) \/ Do("remove_suffix", <<k>>)
  \/ \E p \in 0..MaxHay, k \in -1..(MaxHay + 1) : Do("substr", <<p, k>>)

TypeOK == n <= 400 /\ \A i \in 1..n : h[i] \in 0..255
\* consistency of the search results with one another
Sane == \A c \in Alpha :
          /\ (FindR(<<c>>, 0) = -1) = (RFindR(<<c>>, -1) = -1)
          /\ FindR(<<c>>, 0) <= RFindR(<<c>>, -1)
          /\ FirstOfR(<<c>>, 0) = FindR(<<c>>, 0) /\ LastOfR(<<c>>, -1) = RFindR(<<c>>, -1)
=============================================================================
