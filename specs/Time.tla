-------------------------------- MODULE Time --------------------------------
(* Durations, time points and units as exact numbers of ticks.
   cfg = <<kind>> names two types (the table T): p is a count of the first, q of the second.  k1, k2:
   how many ticks of the common type (the coarsest that holds both) one tick of each is, as factors;
   tps: ticks of the first per second; r1, r2, rc: what counts the representations hold; off: a
   projecting unit shows its count this much higher than it keeps it.                            *)
EXTENDS Integers, Sequences, TLC, Wide
CONSTANTS Vals, Ks
VARIABLES cfg, p, q, dead, act
vars == <<cfg, p, q, dead, act>>
Key == <<cfg, p, q, dead>>
I(n) == <<TRUE, n>>
U(n) == <<FALSE, n>>
E(k1, k2, r1, r2, rc, tps, unit, off) == [k1 |-> k1, k2 |-> k2, r1 |-> r1, r2 |-> r2, rc |-> rc, tps |-> tps, unit |-> unit, off |-> off]
T == [ sms  |-> E(<<1000>>, <<1>>, I(64), I(64), I(64), <<1>>, FALSE, 0),            \* seconds, milliseconds
       ms8  |-> E(<<1>>, <<1000>>, I(16), I(8), I(16), <<1000>>, FALSE, 0),          \* int16 milliseconds, int8 seconds
       ds   |-> E(<<1>>, <<100>>, U(16), U(8), U(16), <<1000>>, FALSE, 0),           \* uint16 milliseconds, uint8 tenths
       odd  |-> E(<<3>>, <<28>>, I(32), I(32), I(32), <<7>>, FALSE, 0),              \* sevenths, four thirds
       nsh  |-> E(<<1>>, <<1000000, 1000, 3600>>, I(64), I(32), I(64), <<1000000, 1000>>, FALSE, 0),  \* nanoseconds, hours
       nsm  |-> E(<<1>>, <<1000000, 60000>>, I(64), I(32), I(64), <<1000000, 1000>>, FALSE, 0),  \* nanoseconds, minutes
       usm  |-> E(<<1>>, <<1000>>, U(32), I(32), I(64), <<1000000>>, FALSE, 0),      \* uint32 microseconds, int32 milliseconds
       tick |-> E(<<200>>, <<3>>, I(64), I(64), I(64), <<15>>, FALSE, 0),            \* a clock of 15 ticks a second, milliseconds
       dw   |-> E(<<1>>, <<7>>, I(32), I(32), I(32), <<>>, FALSE, 0),                \* days, weeks
       ym   |-> E(<<12>>, <<1>>, I(16), I(32), I(32), <<>>, FALSE, 0),               \* years, months
       hm   |-> E(<<60>>, <<1>>, I(32), I(32), I(32), <<>>, FALSE, 0),               \* hours, minutes
       same |-> E(<<1>>, <<1>>, I(16), I(8), I(16), <<1000>>, FALSE, 0),             \* milliseconds in 16 and 8 bits
       pct  |-> E(<<100>>, <<1024>>, I(16), U(32), I(32), <<>>, TRUE, 0),            \* 100/1024ths, whole percent
       byt  |-> E(<<1>>, <<1024>>, U(32), U(16), U(32), <<>>, TRUE, 0),              \* bytes, kilobytes
       pj   |-> E(<<1>>, <<2>>, I(16), I(32), I(32), <<>>, TRUE, 0 - 40),            \* halves, kept 40 higher than shown; ones
       pk   |-> E(<<1>>, <<1>>, U(8), I(16), I(16), <<>>, TRUE, 0 - 125) ]           \* ones, kept 125 higher than shown; ones
K == cfg[1]
D == T[K]
Proj == D.off # 0
Chrono == ~D.unit
C1 == WAdd(p, Of(D.off))      \* what the first shows
C2 == q
Wid == I(64)
W1(w) == WMulAll(w, D.k1)     \* in common ticks
W2(w) == WMulAll(w, D.k2)
To2(w) == WDivAll(W1(w), D.k2)
To1(w) == WDivAll(W2(w), D.k1)
Obs == IF dead THEN [z |-> 1] ELSE [p |-> C1, q |-> C2, root |-> p]
InitCfg(c) == cfg = c /\ p = WZero /\ q = WZero /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ p' = WZero /\ q' = WZero /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Ask(op, a, r) == UNCHANGED <<cfg, p, q, dead>> /\ act' = [op |-> op, a |-> a, r |-> r]
Put1(op, a, w) == WFits(w, D.r1) /\ (D.off # 0 => WFits(WAdd(w, Of(D.off)), I(16))) /\ p' = w /\ UNCHANGED <<cfg, q, dead>> /\ act' = [op |-> op, a |-> a, r |-> 0]
Put2(op, a, w) == WFits(w, D.r2) /\ q' = w /\ UNCHANGED <<cfg, p, dead>> /\ act' = [op |-> op, a |-> a, r |-> 0]
\* conversion truncates towards zero and keeps everything the target can hold
Vias == IF Chrono THEN {"ctor", "cast", "asg", "std", "stdcast"} ELSE {"ctor", "asg"}
\* (no negative counts where either side's representation has none)
Pos == D.r1[1] = D.r2[1] \/ (C1[1] = 0 /\ C2[1] = 0)
C12(v) == v \in Vias /\ Pos /\ WFits(C1, Wid) /\ WFits(W1(C1), Wid) /\ Put2("c12", <<v>>, To2(C1))
C21(v) == v \in Vias /\ Pos /\ WFits(W2(C2), Wid) /\ Put1("c21", <<v>>, WSub(To1(C2), Of(D.off)))
\* both in the common type
Both == ~Proj /\ WFits(W1(p), D.rc) /\ WFits(W2(q), D.rc)
Sum == Both /\ LET s == WAdd(W1(p), W2(q)) IN WFits(s, D.rc) /\ Ask("sum", <<>>, s)
Diff(v) == Both /\ v \in (IF Chrono THEN {"d", "t"} ELSE {"d"}) /\ LET s == WSub(W1(p), W2(q)) IN WFits(s, D.rc) /\ Ask("diff", <<v>>, s)
Cmp(v) == Both /\ v \in (IF Chrono THEN {"d", "t"} ELSE {"d"}) /\ LET l == WLess(W1(p), W2(q)) g == WLess(W2(q), W1(p)) IN Ask("cmp", <<v>>, <<l, g, ~g, ~l, ~l /\ ~g, l \/ g>>)
\* += of the other type: what it is in ticks of this one
AddM(s) == ~Proj /\ s \in {1, 0 - 1} /\ (D.unit => D.k1 = <<1>> /\ D.rc = D.r1) /\ WFits(W2(q), Wid) /\ WFits(To1(q), D.r1)
           /\ Put1("addm", <<s>>, IF s = 1 THEN WAdd(p, To1(q)) ELSE WSub(p, To1(q)))
Add(v, s, w) == ~Proj /\ v \in (IF Chrono THEN {"d", "t", "tp"} ELSE {"d"}) /\ s \in {1, 0 - 1} /\ WFits(w, D.r1) /\ Put1("add", <<v, s, w>>, IF s = 1 THEN WAdd(p, w) ELSE WSub(p, w))
Mul(k) == Chrono /\ WFits(Of(k), D.r1) /\ Put1("mul", <<k>>, WMul(p, k))
Times(k) == Chrono /\ k \in 0..9 /\ D.r1[2] >= 32 /\ LET w == WMul(p, k) IN WFits(w, I(D.r1[2])) /\ Ask("times", <<k>>, w)
Neg == ~Proj /\ D.r1[1] /\ Put1("neg", <<>>, WNeg(p))
Abs == Chrono /\ Put1("abs", <<>>, WAbs(p))
Inc == D.unit /\ Put1("inc", <<>>, WAdd(p, Of(1)))
Lim == Chrono /\ Ask("lim", <<>>, <<WMin(D.r1), WMax(D.r1), WZero>>)
\* hours, minutes, seconds and what is left, of the magnitude
Hms == Chrono /\ D.tps # <<>> /\ WFits(WAbs(p), D.r1) /\
  LET a == WAbs(p)
      s == WDivAll(a, D.tps)
      h == WDiv(s, 3600)
  IN WLess(h, Of(256)) /\ Ask("hms", <<>>, << p[1] = 1, h, Of(WMod(WDiv(s, 60), 60)), Of(WMod(s, 60)), WSub(a, WMulAll(s, D.tps)), p >>)
End == dead' = TRUE /\ UNCHANGED <<cfg, p, q>> /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
Do(op, x) == ~dead /\
  CASE op = "s1" -> Put1("s1", x, x[1]) [] op = "s2" -> Put2("s2", x, x[1]) [] op = "c12" -> C12(x[1]) [] op = "c21" -> C21(x[1])
    [] op = "sum" -> Sum [] op = "diff" -> Diff(x[1]) [] op = "cmp" -> Cmp(x[1]) [] op = "addm" -> AddM(x[1]) [] op = "add" -> Add(x[1], x[2], x[3])
    [] op = "mul" -> Mul(x[1]) [] op = "times" -> Times(x[1]) [] op = "neg" -> Neg [] op = "abs" -> Abs [] op = "inc" -> Inc [] op = "lim" -> Lim [] op = "hms" -> Hms
    [] op = "end" -> End [] OTHER -> FALSE
WVals == {Of(v) : v \in Vals}
\* (the graph is kept finite: counts change arithmetically only from the given ones)
Given == p \in WVals \cup {WNeg(w) : w \in WVals} /\ q \in WVals
Next == \/ \E op \in {"end", "sum", "neg", "abs", "lim", "hms"} : Do(op, <<>>)
        \/ \E w \in WVals, op \in {"s1", "s2"} : Do(op, <<w>>)
        \/ \E v \in {"ctor", "cast", "asg", "std", "stdcast"}, op \in {"c12", "c21"} : Do(op, <<v>>)
        \/ \E v \in {"d", "t"}, op \in {"diff", "cmp"} : Do(op, <<v>>)
        \/ Given /\ Do("inc", <<>>)
        \/ Given /\ \E s \in {1, 0 - 1} : Do("addm", <<s>>) \/ \E v \in {"d", "t", "tp"}, w \in WVals : Do("add", <<v, s, w>>)
        \/ Given /\ \E k \in Ks, op \in {"mul", "times"} : Do(op, <<k>>)
TypeOK == IsWide(p) /\ IsWide(q) /\ WFits(p, D.r1) /\ WFits(q, D.r2)
\* converting to the finer of two types and back changes nothing
RoundTrip == ~Proj /\ D.k1 = <<1>> => To2(W2(q)) = q
=============================================================================
