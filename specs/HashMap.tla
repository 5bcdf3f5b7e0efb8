------------------------------- MODULE HashMap ------------------------------
(* layer1/layer2 unordered_map and unordered_set: open hashing over a fixed
   table of N slots.  cfg = <<kind, N, hashmod, nkeys>>; a key k hashes to k
   (hashmod 0) or k % hashmod, and its bucket starts at slot 4*hash % N.

   State: the slot table t.  <<>> null, <<b>> sparse (erased, still part of
   bucket b), <<k, v>> active.  A bucket is the run of slots from its start
   holding its own active entries and its own sparse slots.

   The specification is two-level: the abstract content is the map from keys
   to the sequence of their values (Abs); the properties at the end state that
   the slot table always represents it and that each operation changes it only
   as a map operation may.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals
VARIABLES cfg, t, dead, act
vars == <<cfg, t, dead, act>>
Kind == cfg[1]
N == cfg[2]
NK == cfg[4]
IsSet == Kind = "set"
NullKey == IF Kind = "mapopt" THEN -1 ELSE 0
Idx(k) == (4 * (IF cfg[3] = 0 THEN k ELSE k % cfg[3])) % N

Active(p) == Len(t[p]) = 2
IsNull(p) == Len(t[p]) = 0
Sparse(p, b) == Len(t[p]) = 1 /\ t[p][1] = b
Own(p, b) == Sparse(p, b) \/ (Active(p) /\ Idx(t[p][1]) = b)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* first slot past the bucket starting at slot b (0-based), N+1 when it runs to the end
BEnd(b) == MinOf({N + 1} \cup {p \in (b + 1)..N : ~Own(p, b)})
Run(b) == (b + 1)..(BEnd(b) - 1)
Occ(k) == {p \in Run(Idx(k)) : Active(p) /\ t[p][1] = k}
\* i-th (0-based) occurrence of k in bucket order, 0 when there is none
Nth(k, i) == LET S == {p \in Occ(k) : Cardinality({q \in Occ(k) : q < p}) = i} IN IF S = {} THEN 0 ELSE MinOf(S)
SlotFor(b) == LET sp == {p \in Run(b) : Sparse(p, b)}
                  e == BEnd(b)
              IN IF sp # {} THEN MinOf(sp) ELSE IF e <= N /\ IsNull(e) THEN e ELSE 0

RECURSIVE List(_)
List(p) == IF p > N THEN <<>> ELSE (IF Active(p) THEN <<t[p]>> ELSE <<>>) \o List(p + 1)
RECURSIVE BList(_, _)
BList(b, p) == IF p >= BEnd(b) THEN <<>> ELSE (IF Active(p) THEN <<t[p]>> ELSE <<>>) \o BList(b, p + 1)

Key == <<cfg, t, dead>>
Obs == IF dead THEN [z |-> 1] ELSE
  LET l == List(1) IN
  [ n |-> Len(l), e |-> l = <<>>, it |-> l, st |-> TRUE,
    ks |-> [k \in 1..NK |-> <<Occ(k) # {}, Cardinality(Occ(k)), IF Occ(k) = {} THEN -1 ELSE t[Nth(k, 0)][2]>>] ]

Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Empty(n) == [p \in 1..n |-> <<>>]
InitCfg(c) == cfg = c /\ t = Empty(c[2]) /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ t' = Empty(c[2]) /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Keep == UNCHANGED <<cfg, dead>>
Read == UNCHANGED <<cfg, t, dead>>

\* <<inserted, value found at the returned position (or -1 when there is none)>>
InsTo(op, a, k, v, dup, assign) ==
  IF k = NullKey THEN Read /\ Ret(op, a, <<FALSE, -1>>)
  ELSE IF ~dup /\ Occ(k) # {}
  THEN LET p == Nth(k, 0) IN
       /\ t' = (IF assign THEN [t EXCEPT ![p] = <<k, v>>] ELSE t) /\ Keep
       /\ Ret(op, a, <<FALSE, IF assign THEN v ELSE t[p][2]>>)
  ELSE LET p == SlotFor(Idx(k)) IN
       IF p = 0 THEN Read /\ Ret(op, a, <<FALSE, -1>>)
       ELSE t' = [t EXCEPT ![p] = <<k, v>>] /\ Keep /\ Ret(op, a, <<TRUE, v>>)

\* erase without moving anything: the slot becomes sparse, or null (together with
\* the sparse slots just before it) when nothing can follow it
EraseAt(p) ==
  LET b == Idx(t[p][1]) IN
  IF p = N \/ IsNull(p + 1)
  THEN LET stop == {q \in (b + 1)..(p - 1) : ~Sparse(q, b)}
           from == IF stop = {} THEN b + 1 ELSE (CHOOSE x \in stop : \A y \in stop : x >= y) + 1
       IN [q \in 1..N |-> IF q >= from /\ q <= p THEN <<>> ELSE t[q]]
  ELSE [t EXCEPT ![p] = <<b>>]
\* erase by moving the last entry of the bucket into the hole
EraseGc(p) ==
  LET b == Idx(t[p][1])
      S == {q \in Run(b) : Active(q) /\ q >= p}
      l == CHOOSE x \in S : \A y \in S : x >= y
  IN [t EXCEPT ![p] = t[l], ![l] = <<>>]
NextKey(p, tt) == LET S == {q \in (p + 1)..N : Len(tt[q]) = 2} IN IF S = {} THEN -1 ELSE tt[MinOf(S)][1]

EraseKey(k) == ~IsSet /\ (IF k = NullKey \/ Occ(k) = {} THEN Read /\ Ret("erase", <<k>>, 0)
               ELSE t' = EraseAt(Nth(k, 0)) /\ Keep /\ Ret("erase", <<k>>, 1))
EraseSet(k) == IsSet /\ (IF k = NullKey \/ Occ(k) = {} THEN Read /\ Ret("erase", <<k>>, 0)
               ELSE t' = EraseGc(Nth(k, 0)) /\ Keep /\ Ret("erase", <<k>>, 1))
EraseIt(k, i) == ~IsSet /\ LET p == Nth(k, i) IN p # 0 /\ t' = EraseAt(p) /\ Keep /\ Ret("erase_it", <<k, i>>, NextKey(p, t))
EraseGcIt(op, k, i) == ~IsSet /\ LET p == Nth(k, i) IN p # 0 /\ t' = EraseGc(p) /\ Keep /\ Ret(op, <<k, i>>, 0)
\* gc_active moves an entry to the first sparse slot of its own bucket before it
Gc(k, i) == ~IsSet /\ LET p == Nth(k, i)
                          b == Idx(k)
                          S == {q \in Run(b) : q < p /\ Sparse(q, b)}
                      IN p # 0 /\ Keep /\ Ret("gc", <<k, i>>, k) /\
                         t' = (IF S = {} THEN t ELSE [t EXCEPT ![MinOf(S)] = t[p], ![p] = t[MinOf(S)]])
IndexSet(k, v) == Kind \in {"map", "mapopt"} /\ k # NullKey /\ (Occ(k) # {} \/ SlotFor(Idx(k)) # 0) /\ Keep
                  /\ t' = [t EXCEPT ![IF Occ(k) # {} THEN Nth(k, 0) ELSE SlotFor(Idx(k))] = <<k, v>>]
                  /\ Ret("index_set", <<k, v>>, 0)
Bucket(k) == Read /\ ~IsSet /\ Ret("bucket", <<k>>, <<Idx(k), BList(Idx(k), Idx(k) + 1), Len(BList(Idx(k), Idx(k) + 1))>>)
Clear == ~IsSet /\ t' = Empty(N) /\ Keep /\ Ret("clear", <<>>, 0)
Missing(k) == Read /\ Ret("missing", <<k>>, <<k # NullKey /\ Occ(k) # {}, IF k = NullKey THEN 0 ELSE Cardinality(Occ(k))>>)
\* equality with a set built by inserting the elements of s, in that order, into an equal table
RECURSIVE Build(_, _)
Build(tt, s) == IF s = <<>> THEN {} ELSE {s[1]} \cup Build(tt, Tail(s))
EqSet(s) == IsSet /\ Read /\ Ret("eq", <<s>>, {l[1] : l \in {t[p] : p \in {q \in 1..N : Active(q)}}} = Build(t, s))
End == t' = Empty(N) /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)

MapIns == {"insert", "insert_m", "emplace", "piecewise", "try_emplace"}
Do(op, a) == ~dead /\
  CASE op \in MapIns -> ~IsSet /\ InsTo(op, a, a[1], a[2], FALSE, FALSE)
    [] op \in {"insert_dup", "insert_dup_m", "piecewise_dup"} -> ~IsSet /\ InsTo(op, a, a[1], a[2], TRUE, FALSE)
    [] op = "insert_or_assign" -> ~IsSet /\ InsTo(op, a, a[1], a[2], FALSE, TRUE)
    [] op = "add" -> IsSet /\ InsTo(op, a, a[1], a[1], FALSE, FALSE)
    [] op = "index_set" -> IndexSet(a[1], a[2])
    [] op = "erase" -> EraseKey(a[1])
    [] op = "remove" -> IsSet /\ (IF a[1] = NullKey \/ Occ(a[1]) = {} THEN Read /\ Ret(op, a, 0)
                                  ELSE t' = EraseGc(Nth(a[1], 0)) /\ Keep /\ Ret(op, a, 1))
    [] op = "erase_it" -> EraseIt(a[1], a[2])
    [] op \in {"erase_gc", "erase_gc_l"} -> EraseGcIt(op, a[1], a[2])
    [] op = "gc" -> Gc(a[1], a[2])
    [] op = "bucket" -> Bucket(a[1])
    [] op = "clear" -> Clear
    [] op = "missing" -> Missing(a[1])
    [] op = "eq" -> EqSet(a[1])
    [] op = "end" -> End
    [] OTHER -> FALSE

Seqs == {<<>>} \cup {<<x>> : x \in Keys} \cup {<<x, y>> : x, y \in Keys} \cup {<<x, y, z>> : x, y, z \in Keys}
Next ==
  \/ \E k \in Keys \cup {NullKey}, v \in Vals : \E op \in {"insert", "insert_m", "emplace", "piecewise", "try_emplace", "insert_dup", "insert_dup_m", "piecewise_dup",
            "insert_or_assign", "index_set"} : Do(op, <<k, v>>)
  \/ \E k \in Keys \cup {NullKey}, op \in {"erase", "add", "remove", "missing"} : Do(op, <<k>>)
  \/ \E k \in Keys : Do("bucket", <<k>>)
  \/ \E k \in Keys, i \in {0, 1, 2}, op \in {"erase_it", "erase_gc", "erase_gc_l", "gc"} : Do(op, <<k, i>>)
  \/ IsSet /\ \E s \in Seqs : Cardinality({s[i] : i \in 1..Len(s)}) = Len(s) /\ Do("eq", <<s>>)
  \/ \E op \in {"clear", "end"} : Do(op, <<>>)

----------------------------------------------------------------------------
\* every active entry is reachable from the start of its bucket
TypeOK == Len(t) = N /\ (dead \/ \A p \in 1..N : Active(p) => p \in Run(Idx(t[p][1])))
SeqOf(k) == [i \in 0..(N - 1) |-> IF Nth(k, i) = 0 THEN <<>> ELSE <<t[Nth(k, i)][2]>>]
Copies(k, x) == Cardinality({p \in 1..N : t[p] = <<k, x>>})
\* an operation on one key never changes what is stored under another (the gc
\* operations may reorder the duplicates of another key)
Others == [][act'.op \notin {"clear", "end", "eq", "reset"} /\ ~dead =>
             \A k \in Keys : k # act'.a[1] =>
               IF act'.op \in {"erase_gc", "erase_gc_l", "remove"}
               THEN \A x \in Vals \cup Keys : Copies(k, x)' = Copies(k, x) ELSE SeqOf(k)' = SeqOf(k)]_vars
\* references: only the gc operations move an entry
Stable == [][act'.op \notin {"clear", "end", "erase_gc", "erase_gc_l", "gc", "remove"} =>
             \A p \in 1..N : Active(p) /\ Len(t'[p]) = 2 => t'[p][1] = t[p][1]]_vars
=============================================================================
