------------------------------ MODULE StreamIter ------------------------------
(* Iterators over streams.  cfg = <<kind, n>>.
   "span", "str": an input buffer over a text of n characters; "src": a source over which characters
   become ready in pieces and which may be closed.  Two input iterators, and the proxy left by it++.
   "obuf": an output buffer iterator over a string of capacity n; "ostr": an output stream iterator;
   "back": a back insert iterator; "filt": a transforming iterator over n elements.
   Text is numbered from the alphabet Alpha (255 among it: not the end).                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals
VARIABLES cfg, pos, ready, closed, it, px, out, bad, dead, act
vars == <<cfg, pos, ready, closed, it, px, out, bad, dead, act>>
Key == <<cfg, pos, ready, closed, it, px, out, bad, dead>>
Alpha == <<97, 255, 98, 10, 128>>
Kind == cfg[1]
N == cfg[2]
In == Kind \in {"span", "str", "src"}
Ch(i) == Alpha[(i % 5) + 1]
EOF == 0 - 1
None == 0 - 2
Ready0(c) == IF c[1] = "src" THEN 0 ELSE c[2]
InitCfg(c) == cfg = c /\ pos = 0 /\ ready = Ready0(c) /\ closed = (c[1] # "src") /\ it = <<"end", "end">> /\ px = None /\ out = <<>> /\ bad = FALSE /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ pos' = 0 /\ ready' = Ready0(c) /\ closed' = (c[1] # "src") /\ it' = <<"end", "end">> /\ px' = None /\ out' = <<>> /\ bad' = FALSE /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Peek(p) == IF p < ready THEN Ch(p) ELSE EOF
Obs == IF dead THEN [z |-> 1] ELSE
  [ left |-> IF In THEN ready - pos ELSE 0, out |-> out, bad |-> bad, now |-> IF In THEN Peek(pos) ELSE 0 ]
Src == UNCHANGED <<ready, closed>>
Fin(op, x, r) == act' = [op |-> op, a |-> x, r |-> r]
I(i) == i \in 1..2
\* moving on: to the end exactly when nothing is left and nothing will come
Step(p) == IF p < ready THEN p + 1 ELSE p
Over(p) == p >= ready /\ closed
New(i) == In /\ I(i) /\ it' = [it EXCEPT ![i] = "live"] /\ UNCHANGED <<pos, px>> /\ Src /\ Fin("new", <<i>>, 0)
Def(i) == In /\ I(i) /\ it' = [it EXCEPT ![i] = "end"] /\ UNCHANGED <<pos, px>> /\ Src /\ Fin("def", <<i>>, 0)
Cpy(i) == In /\ I(i) /\ it' = [it EXCEPT ![i] = it[3 - i]] /\ UNCHANGED <<pos, px>> /\ Src /\ Fin("cpy", <<i>>, 0)
Go(i) == IF it[i] = "end" THEN UNCHANGED <<pos, it>>
         ELSE pos' = Step(pos) /\ it' = [it EXCEPT ![i] = IF Over(Step(pos)) THEN "end" ELSE "live"]
Pre(i) == In /\ I(i) /\ Go(i) /\ px' = px /\ Src /\ Fin("pre", <<i>>, 0)
Post(i) == In /\ I(i) /\ Go(i) /\ px' = (IF it[i] = "end" THEN EOF ELSE Peek(pos)) /\ Src /\ Fin("post", <<i>>, px')
Deref(i) == In /\ I(i) /\ it[i] = "live" /\ UNCHANGED <<pos, it, px>> /\ Src /\ Fin("deref", <<i>>, Peek(pos))
Cmp == In /\ UNCHANGED <<pos, it, px>> /\ Src /\ Fin("cmp", <<>>, <<it[1] = it[2], it[1] = "end", it[2] = "end">>)
\* the proxy of the last it++ counts as the end when it had no character
PCmp(i) == In /\ I(i) /\ px # None /\ UNCHANGED <<pos, it, px>> /\ Src /\ Fin("pcmp", <<i>>, (px = EOF) = (it[i] = "end"))
PDeref == In /\ px >= 0 /\ UNCHANGED <<pos, it, px>> /\ Src /\ Fin("pderef", <<>>, px)
\* somebody else reads from the buffer
Bump == In /\ pos' = Step(pos) /\ UNCHANGED <<it, px>> /\ Src /\ Fin("bump", <<>>, Peek(pos))
\* a loop from iterator i to the end
Loop(i) == In /\ I(i) /\ closed /\ pos' = (IF it[i] = "end" THEN pos ELSE ready) /\ it' = [it EXCEPT ![i] = "end"] /\ px' = px /\ Src
  /\ Fin("loop", <<i>>, IF it[i] = "end" THEN <<>> ELSE IF pos >= ready THEN <<EOF>> ELSE [k \in 1..(ready - pos) |-> Ch(pos + k - 1)])
Supply(n) == Kind = "src" /\ ~closed /\ ready + n <= N /\ ready' = ready + n /\ UNCHANGED <<pos, it, px, closed>> /\ Fin("supply", <<n>>, 0)
Close == Kind = "src" /\ closed' = TRUE /\ UNCHANGED <<pos, it, px, ready>> /\ Fin("close", <<>>, 0)
\* output: written while there is room; the iterator that wrote knows whether its last one failed
Keep == UNCHANGED <<pos, it, px>> /\ Src
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
OPut(f, v) == Kind = "obuf" /\ f \in {"=", "pre", "post"} /\ v \in 0..255 /\ Keep
  /\ out' = (IF Len(out) < N THEN Append(out, v) ELSE out) /\ bad' = (IF f = "post" THEN bad ELSE Len(out) >= N) /\ Fin("oput", <<f, v>>, Len(out) < N)
ONone(v) == Kind = "obuf" /\ Keep /\ UNCHANGED <<out, bad>> /\ Fin("onone", <<v>>, TRUE)
OFresh == Kind = "obuf" /\ Keep /\ out' = out /\ bad' = FALSE /\ Fin("ofresh", <<>>, 0)
OStr(f, v) == Kind = "ostr" /\ f \in {"=", "star", "pre", "post"} /\ Keep /\ Len(out) <= 200 /\ out' = out \o Dec(v) /\ bad' = bad /\ Fin("ostr", <<f, v>>, 0)
OText(s) == Kind = "ostr" /\ Keep /\ Len(out) <= 200 /\ out' = out \o s /\ bad' = bad /\ Fin("otext", <<s>>, 0)
Back(v) == Kind = "back" /\ Keep /\ Len(out) < N /\ out' = Append(out, v) /\ bad' = bad /\ Fin("back", <<v>>, 0)
\* the transforming iterator: element i shows as 3 * i + 1
FGo(f) == Kind = "filt" /\ f \in {"pre", "post"} /\ pos < N /\ pos' = pos + 1 /\ UNCHANGED <<it, px, out, bad>> /\ Src
  /\ Fin("fgo", <<f>>, IF f = "post" THEN 3 * pos + 1 ELSE IF pos + 1 < N THEN 3 * pos + 4 ELSE 0)
FAt == Kind = "filt" /\ pos < N /\ Keep /\ UNCHANGED <<out, bad>> /\ Fin("fat", <<>>, 3 * pos + 1)
End == dead' = TRUE /\ UNCHANGED <<cfg, pos, ready, closed, it, px, out, bad>> /\ act' = [op |-> "end", a |-> <<>>, r |-> 0]
OutOp(op) == op \in {"oput", "onone", "ofresh", "ostr", "otext", "back"}
Do(op, x) == ~dead /\ IF op = "end" THEN End ELSE /\ UNCHANGED <<cfg, dead>> /\ (OutOp(op) \/ UNCHANGED <<out, bad>>)
  /\ CASE op = "new" -> New(x[1]) [] op = "def" -> Def(x[1]) [] op = "cpy" -> Cpy(x[1]) [] op = "pre" -> Pre(x[1]) [] op = "post" -> Post(x[1]) [] op = "deref" -> Deref(x[1])
    [] op = "cmp" -> Cmp [] op = "pcmp" -> PCmp(x[1]) [] op = "pderef" -> PDeref [] op = "bump" -> Bump [] op = "loop" -> Loop(x[1]) [] op = "supply" -> Supply(x[1])
    [] op = "close" -> Close [] op = "oput" -> OPut(x[1], x[2]) [] op = "onone" -> ONone(x[1]) [] op = "ofresh" -> OFresh [] op = "ostr" -> OStr(x[1], x[2]) [] op = "otext" -> OText(x[1])
    [] op = "back" -> Back(x[1]) [] op = "fgo" -> FGo(x[1]) [] op = "fat" -> FAt [] OTHER -> FALSE
Next == \/ \E op \in {"cmp", "pderef", "bump", "close", "ofresh", "fat", "end"} : Do(op, <<>>)
        \/ \E i \in 1..2, op \in {"new", "def", "cpy", "pre", "post", "deref", "pcmp", "loop"} : Do(op, <<i>>)
        \/ \E n \in 1..2 : Do("supply", <<n>>)
        \/ \E v \in Vals : Do("onone", <<v>>) \/ Do("back", <<v>>) \/ (Len(out) < 4 /\ (Do("otext", <<<<v, 65>>>>) \/ \E f \in {"=", "star", "pre", "post"} : Do("oput", <<f, v>>) \/ Do("ostr", <<f, v>>)))
        \/ \E f \in {"pre", "post"} : Do("fgo", <<f>>)
TypeOK == pos \in 0..N /\ ready \in 0..N /\ (In => pos <= ready)
\* an iterator that became the end by moving on left nothing behind
Complete == [][\A i \in 1..2 : it[i] = "live" /\ it'[i] = "end" /\ act'.op \in {"pre", "post", "loop"} => pos' = ready' /\ closed']_vars
=============================================================================
