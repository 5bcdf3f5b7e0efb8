------------------------------ MODULE StreamBuf ------------------------------
(* The position-keeping stream buffers.  cfg = <<kind, n, cap>>:
     "span"  in_span_streambuf over n characters          get area only
     "l2"    basic_stringbuf over an unbounded layer2 C string of n characters, get only
     "l1","l1n","l3"  basic_stringbuf over a fixed string (null terminated / not / layer3) of
             capacity cap, initially empty: get position gp, put at the end
     "ol1"   out_stringbuf of capacity cap
     "ospan","ospan32"  out_span_streambuf of cap 8-bit / 32-bit characters: d is the whole
             span (initially 238s), pp the put position.
   A character is its code 0..255; -1 is eof.  The sequence is never longer than its
   capacity, and a write that does not fit stores the part which does.                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals, MaxArg
VARIABLES cfg, d, gp, pp, dead, act
vars == <<cfg, d, gp, pp, dead, act>>
Kind == cfg[1]
Ins == Kind \in {"span", "l2", "l1", "l1n", "l3"}
RW == Kind \in {"l1", "l1n", "l3"}
OSpan == Kind \in {"ospan", "ospan32"}
Cap == IF OSpan THEN Len(d) ELSE cfg[3]
Outs == RW \/ OSpan \/ Kind = "ol1"
Pat(k, i) == IF i % 7 = 3 THEN 255 ELSE IF i % 7 = 5 /\ k = "span" THEN 0 ELSE 97 + ((i - 1) % 26)
Init0(c) == IF c[1] \in {"span", "l2"} THEN [i \in 1..c[2] |-> Pat(c[1], i)]
            ELSE IF c[1] \in {"ospan", "ospan32"} THEN [i \in 1..c[3] |-> 238] ELSE <<>>
Key == <<cfg, IF cfg[1] \in {"span", "l2"} THEN <<>> ELSE d, gp, pp, dead>>
Left == Len(d) - gp
Cur == IF Left > 0 THEN d[gp + 1] ELSE -1
Obs == IF dead THEN [z |-> 1] ELSE
  [ av |-> IF ~Ins THEN 0 ELSE IF Left > 0 THEN Left ELSE -1,
    cur |-> IF Ins THEN Cur ELSE -2,
    d |-> IF Outs THEN d ELSE <<>>, pp |-> pp ]
InitCfg(c) == cfg = c /\ d = Init0(c) /\ gp = 0 /\ pp = 0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ d' = Init0(c) /\ gp' = 0 /\ pp' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ret(op, x, r) == act' = [op |-> op, a |-> x, r |-> r]
Min(x, y) == IF x < y THEN x ELSE y
Keep == UNCHANGED <<cfg, dead>>
\* ---- get
Go(op, x, ng, r) == Ins /\ gp' = ng /\ UNCHANGED <<d, pp>> /\ Keep /\ Ret(op, x, r)
GetC == Go("sgetc", <<>>, gp, Cur)
BumpC == Go("sbumpc", <<>>, gp + Min(1, Left), Cur)
NextC == Go("snextc", <<>>, gp + Min(1, Left), IF Left > 1 THEN d[gp + 2] ELSE -1)
UngetC == Go("sungetc", <<>>, IF gp > 0 THEN gp - 1 ELSE gp, IF gp > 0 THEN d[gp] ELSE -1)
GetN(n) == LET k == Min(n, Left) IN Go("sgetn", <<n>>, gp + k, SubSeq(d, gp + 1, gp + k))
\* ---- put
Room == IF OSpan THEN Cap - pp ELSE Cap - Len(d)
Store(s) == IF OSpan THEN [i \in 1..Cap |-> IF i > pp /\ i <= pp + Len(s) THEN s[i - pp] ELSE d[i]] ELSE d \o s
Po(op, x, s, r) == Outs /\ d' = Store(s) /\ pp' = (IF OSpan THEN pp + Len(s) ELSE pp) /\ gp' = gp /\ Keep /\ Ret(op, x, r)
PutC(c) == IF Room > 0 THEN Po("sputc", <<c>>, <<c>>, c) ELSE Po("sputc", <<c>>, <<>>, -1)
PutN(s) == LET k == Min(Len(s), Room) IN Po("sputn", s, SubSeq(s, 1, k), k)
\* ---- seek: off, dir (0 beg, 1 end, 2 cur), which (4 in, 8 out, 12 both)
Seek(off, dir, which) ==
  LET in == which \in {4, 12}  out == which \in {8, 12}
      none == UNCHANGED <<d, gp, pp>> /\ Ret("seek", <<off, dir, which>>, -1)
      tgt(base, p) == (IF dir = 0 THEN 0 ELSE IF dir = 1 THEN base ELSE p) + off
  IN Keep /\
     IF Kind = "ol1" THEN UNCHANGED <<d, gp, pp>> /\ Ret("seek", <<off, dir, which>>, Len(d))
     ELSE IF OSpan THEN (IF ~out \/ tgt(Cap, pp) \notin 0..Cap THEN none
            ELSE pp' = tgt(Cap, pp) /\ UNCHANGED <<d, gp>> /\ Ret("seek", <<off, dir, which>>, pp'))
     ELSE IF ~in \/ tgt(Len(d), gp) \notin 0..Len(d) THEN none
     ELSE gp' = tgt(Len(d), gp) /\ UNCHANGED <<d, pp>> /\ Ret("seek", <<off, dir, which>>, gp')
\* a span may be put in place of the one written to
SetBuf(n) == OSpan /\ d' = [i \in 1..n |-> 238] /\ pp' = 0 /\ gp' = gp /\ Keep /\ Ret("setbuf", <<n>>, 0)
Sync == UNCHANGED <<d, gp, pp>> /\ Keep /\ Ret("pubsync", <<>>, 0)
End == d' = <<>> /\ gp' = 0 /\ pp' = 0 /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, 0)
Do(op, x) == ~dead /\
  CASE op = "sgetc" -> GetC [] op = "sbumpc" -> BumpC [] op = "snextc" -> NextC [] op = "sungetc" -> UngetC
    [] op = "sgetn" -> GetN(x[1]) [] op = "sputc" -> PutC(x[1]) [] op = "sputn" -> PutN(x)
    [] op = "seek" -> Seek(x[1], x[2], x[3]) [] op = "setbuf" -> SetBuf(x[1]) [] op = "pubsync" -> Sync [] op = "end" -> End [] OTHER -> FALSE
Seqs(n) == UNION {[1..k -> Vals] : k \in 0..n}
Next == \/ \E op \in {"sgetc", "sbumpc", "snextc", "sungetc", "pubsync", "end"} : Do(op, <<>>)
        \/ \E n \in 0..MaxArg + 1 : Do("sgetn", <<n>>)
        \/ Outs /\ \E c \in Vals : Do("sputc", <<c>>)
        \/ Outs /\ \E s \in Seqs(MaxArg) : Do("sputn", s)
        \/ \E n \in {cfg[3] - 1, cfg[3]} : n > 0 /\ Do("setbuf", <<n>>)
        \/ \E off \in (0 - MaxArg)..MaxArg, dir \in 0..2, which \in {4, 8, 12} : Do("seek", <<off, dir, which>>)
TypeOK == gp \in 0..Len(d) /\ (Outs => Len(d) <= Cap /\ pp \in 0..Cap)
\* written data is only ever extended (or, for spans, replaced at the put position)
Stable == [][~dead' /\ ~OSpan => SubSeq(d', 1, Len(d)) = d]_vars
=============================================================================
