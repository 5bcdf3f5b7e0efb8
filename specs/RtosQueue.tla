------------------------------ MODULE RtosQueue ------------------------------
(* A queue of the operating system, seen from one task; cfg = <<kind, capacity>>.
   q  what is in it. In a wait of at most n ticks the other task acts d ticks from now, or not at all (d = -1). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, q, dead, act
vars == <<cfg, q, dead, act>>
Key == <<cfg, q, dead>>
Forever == 1000000000
Raw == {"raw", "rawstatic"}
K == cfg[1]
Cap == cfg[2]
Ticks(unit, n) == IF n <= 0 THEN 0 ELSE CASE unit = "tick" -> n [] unit = "ms" -> n \div 10 [] unit = "s" -> n * 100
Obs == IF dead THEN [z |-> 1] ELSE [q |-> q, live |-> 1, errs |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ q = <<>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ q' = <<>> /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Frame == UNCHANGED <<cfg, dead>>
Wait(form, unit, n) == IF form = "wait" THEN Forever ELSE Ticks(unit, n)
InWait(d, w) == d >= 0 /\ w > 0 /\ d <= w
\* form: "wait" as long as it takes, "for" a time; "back" the same by another name
Send(form, v, unit, n, d) ==
  LET w == Wait(form, unit, n) a == <<form, v, unit, n, d>> IN
  /\ Frame /\ (form = "back" => K \in Raw)
  /\ CASE Len(q) < Cap -> q' = Append(q, v) /\ Ret("send", a, <<TRUE, 0>>)
       [] Len(q) = Cap /\ InWait(d, w) -> q' = Append(Tail(q), v) /\ Ret("send", a, <<TRUE, d>>)
       [] OTHER -> w # Forever /\ UNCHANGED q /\ Ret("send", a, <<FALSE, w>>)
\* the other task would send x; what is not received leaves the receiver's variable alone
Recv(op, form, unit, n, d, x) ==
  LET w == Wait(form, unit, n) a == <<form, unit, n, d, x>> keep == op = "peek" IN
  /\ Frame /\ (keep => K \in Raw)
  /\ CASE Len(q) > 0 -> q' = (IF keep THEN q ELSE Tail(q)) /\ Ret(op, a, <<TRUE, 0, Head(q)>>)
       [] Len(q) = 0 /\ InWait(d, w) -> q' = (IF keep THEN <<x>> ELSE <<>>) /\ Ret(op, a, <<TRUE, d, x>>)
       [] OTHER -> w # Forever /\ UNCHANGED q /\ Ret(op, a, <<FALSE, w, -1>>)
SendIsr(v, w) == Frame /\ w \in BOOLEAN /\ q' = (IF Len(q) < Cap THEN Append(q, v) ELSE q) /\ Ret("send_isr", <<v, w>>, <<Len(q) < Cap, w /\ q = <<>>>>)
PeekIsr == K \in Raw /\ Frame /\ UNCHANGED q /\ Ret("peek_isr", <<>>, IF q = <<>> THEN <<FALSE, -1>> ELSE <<TRUE, Head(q)>>)
Over(v) == K \in Raw /\ Cap = 1 /\ Frame /\ q' = <<v>> /\ Ret("over", <<v>>, TRUE)
OverIsr(v, w) == K \in Raw /\ Cap = 1 /\ Frame /\ q' = <<v>> /\ Ret("over_isr", <<v, w>>, <<TRUE, w /\ q = <<>>>>)
Clear == K \in Raw /\ Frame /\ q' = <<>> /\ Ret("clear", <<>>, TRUE)
Ask(op) == Frame /\ UNCHANGED q /\
  CASE op = "waiting" -> Ret(op, <<>>, Len(q))
    [] op = "spaces" -> K \in Raw /\ Ret(op, <<>>, Cap - Len(q))
    [] op = "buffers" -> K \in {"static", "layer1"} /\ Ret(op, <<>>, TRUE)
End == q' = <<>> /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\
  CASE op = "send" -> Send(a[1], a[2], a[3], a[4], a[5])
    [] op \in {"recv", "peek"} -> Recv(op, a[1], a[2], a[3], a[4], a[5])
    [] op = "send_isr" -> SendIsr(a[1], a[2])
    [] op = "peek_isr" -> PeekIsr
    [] op = "over" -> Over(a[1])
    [] op = "over_isr" -> OverIsr(a[1], a[2])
    [] op = "clear" -> Clear
    [] op \in {"waiting", "spaces", "buffers"} -> Ask(op)
    [] op = "end" -> End
    [] OTHER -> FALSE
V == 0..1
Times == {<<"tick", 0>>, <<"tick", 1>>, <<"tick", 2>>, <<"ms", 9>>, <<"ms", 10>>, <<"ms", 19>>, <<"s", 1>>}
Delays == {-1, 0, 1, 2, 100}
Next ==
  \/ \E v \in V, d \in Delays : Do("send", <<"wait", v, "tick", 0, d>>)
  \/ \E v \in V, d \in Delays, t \in Times, form \in {"for", "back"} : Do("send", <<form, v, t[1], t[2], d>>)
  \/ \E v \in V, d \in Delays, op \in {"recv", "peek"} : Do(op, <<"wait", "tick", 0, d, v>>)
  \/ \E v \in V, d \in Delays, t \in Times, op \in {"recv", "peek"} : Do(op, <<"for", t[1], t[2], d, v>>)
  \/ \E v \in V, w \in BOOLEAN, op \in {"send_isr", "over_isr"} : Do(op, <<v, w>>)
  \/ \E v \in V : Do("over", <<v>>)
  \/ \E op \in {"peek_isr", "clear", "waiting", "spaces", "buffers", "end"} : Do(op, <<>>)
TypeOK == Len(q) <= Cap
\* a queue is in order: nothing but its ends change
InOrder == [][act'.op \in {"send", "recv", "send_isr"} => LET m == Len(q) k == Len(q') IN
    \E drop \in 0..1 : k >= m - drop /\ \A i \in 1..(m - drop) : q'[i] = q[i + drop]]_vars
=============================================================================
