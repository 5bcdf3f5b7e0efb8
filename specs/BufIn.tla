-------------------------------- MODULE BufIn --------------------------------
(* The buffered input stream buffer over a bipartite ring buffer.  cfg = <<kind, size, piece, modulus>>:
   the source behind it has `src` characters ready, more arrive with "supply", and gives at most `piece` of them
   per call.  Characters are numbered in sequence (ctr = the next the source gives).                        *)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, off, a, b, bin, src, ctr, dead, act
vars == <<cfg, off, a, b, bin, src, ctr, dead, act>>
Size == cfg[2]
Piece == cfg[3]
M == cfg[4]
MaxSrc == Size + 2
Alpha == <<97, 255, 0, 98, 10, 128, 99>>
Ch(i) == Alpha[(i % M) + 1]
Min2(p, q) == IF p < q THEN p ELSE q
Key == <<cfg, off, a, b, bin, src, ctr, dead>>
St == [off |-> off, a |-> a, b |-> b, bin |-> bin, src |-> src, ctr |-> ctr]
Unused(s) == IF s.bin THEN s.off - Len(s.b) ELSE Size - (s.off + Len(s.a))
Turn(s) == [s EXCEPT !.bin = @ \/ (Size - (s.off + Len(s.a)) < s.off - Len(s.b))]
Word(i, n) == [j \in 1..n |-> Ch(i + j - 1)]
FillN(s) == Min2(Min2(s.src, Piece), Unused(s))
Fill(s) == LET n == FillN(s) IN
           IF n = 0 THEN s
           ELSE LET t == [s EXCEPT !.src = @ - n, !.ctr = (@ + n) % M] IN
                Turn(IF s.bin THEN [t EXCEPT !.b = @ \o Word(s.ctr, n)] ELSE [t EXCEPT !.a = @ \o Word(s.ctr, n)])
Take(s, n) == IF n = 0 THEN s
              ELSE IF n < Len(s.a) THEN Turn([s EXCEPT !.a = SubSeq(s.a, n + 1, Len(s.a)), !.off = @ + n])
              ELSE [s EXCEPT !.a = s.b, !.b = <<>>, !.off = 0, !.bin = FALSE]
Peek(s) == IF s.a = <<>> THEN Fill(s) ELSE s
Head1(s) == IF s.a = <<>> THEN 0 - 1 ELSE s.a[1]
Bump(s) == IF s.a = <<>> THEN s ELSE Take(s, 1)
RECURSIVE Gets(_, _)
Gets(s, n) == LET t == Peek(s)
                  k == Min2(n, Len(t.a)) IN
              IF n = 0 THEN [s |-> s, w |-> <<>>]
              ELSE IF t.a = <<>> THEN [s |-> t, w |-> <<>>]
              ELSE LET m == Gets(Take(t, k), n - k) IN [s |-> m.s, w |-> SubSeq(t.a, 1, k) \o m.w]
Set(s) == off' = s.off /\ a' = s.a /\ b' = s.b /\ bin' = s.bin /\ src' = s.src /\ ctr' = s.ctr
Ret(op, x, r) == act' = [op |-> op, a |-> x, r |-> r]
Fresh == [off |-> 0, a |-> <<>>, b |-> <<>>, bin |-> FALSE, src |-> 0, ctr |-> 0]
InitCfg(c) == /\ cfg = c /\ off = 0 /\ a = <<>> /\ b = <<>> /\ bin = FALSE /\ src = 0 /\ ctr = 0 /\ dead = FALSE
              /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ Set(Fresh) /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Obs == IF dead THEN [z |-> 1] ELSE [ src |-> src, avail |-> Len(a) + Len(b), contig |-> Len(a), bad |-> 0 ]
Sgetc == LET s == Peek(St) IN Set(s) /\ Ret("sgetc", <<>>, Head1(s))
Sbumpc == LET s == Peek(St) IN Set(Bump(s)) /\ Ret("sbumpc", <<>>, Head1(s))
Snextc == LET s == Peek(St)
              t == IF s.a = <<>> THEN s ELSE Peek(Bump(s)) IN
          Set(t) /\ Ret("snextc", <<>>, IF s.a = <<>> THEN 0 - 1 ELSE Head1(t))
Sgetn(n) == LET g == Gets(St, n) IN Set(g.s) /\ Ret("sgetn", <<n>>, g.w)
PubSync == Set(Fill(St)) /\ Ret("sync", <<>>, IF FillN(St) = 0 THEN 0 - 1 ELSE 0)
Supply(n) == src + n <= MaxSrc /\ Set([St EXCEPT !.src = @ + n]) /\ Ret("supply", <<n>>, 0)
End == Set(Fresh) /\ dead' = TRUE /\ cfg' = cfg /\ Ret("end", <<>>, 0)
Do(op, x) == ~dead /\
  IF op = "end" THEN End ELSE
  /\ UNCHANGED <<cfg, dead>>
  /\ CASE op = "sgetc" -> Sgetc [] op = "sbumpc" -> Sbumpc [] op = "snextc" -> Snextc [] op = "sgetn" -> Sgetn(x[1])
       [] op = "sync" -> PubSync [] op = "supply" -> Supply(x[1]) [] OTHER -> FALSE
Next == \/ \E op \in {"sgetc", "sbumpc", "snextc", "sync", "end"} : Do(op, <<>>)
        \/ \E n \in 0..2 * Size + 1 : Do("sgetn", <<n>>)
        \/ \E n \in 1..MaxSrc : Do("supply", <<n>>)
TypeOK == /\ off + Len(a) <= Size /\ (b # <<>> => bin) /\ (bin => Len(b) <= off) /\ (a = <<>> => b = <<>> /\ off = 0)
          /\ src \in 0..MaxSrc
\* characters read, then those buffered, are the source's, in order
Conserved == [][act'.op \in {"sgetc", "sbumpc", "snextc", "sgetn", "sync"} =>
     /\ LET held == a' \o b'
            from == src - src'
            all == a \o b \o Word(ctr, from) IN
        /\ held = SubSeq(all, Len(all) - Len(held) + 1, Len(all))
        /\ act'.op = "sgetn" => act'.r \o held = all
        /\ act'.op = "sgetn" /\ Len(act'.r) < act'.a[1] => held = <<>> /\ src' = 0
        /\ act'.op = "sbumpc" => (IF act'.r = 0 - 1 THEN all = <<>> /\ src = 0 ELSE all = <<act'.r>> \o held)
        /\ act'.op \in {"sgetc", "sync"} => held = all ]_vars
=============================================================================
