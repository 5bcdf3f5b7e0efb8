------------------------------ MODULE RtosMisc ------------------------------
(* Event groups, timers, tasks and waiting of the operating system; cfg = <<kind, alloc>>.
   bits           the bits of the event group
   tm = <<active, period, due, id>>  the timer; due: ticks from now to its expiry, when it was ever started
   tk = <<suspended, pending, value>> the task and its notification                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, bits, tm, tk, dead, act
vars == <<cfg, bits, tm, tk, dead, act>>
Key == <<cfg, bits, tm, tk, dead>>
K == cfg[1]
Forever == 1000000000
B == 0..2
Pow(i) == CASE i = 0 -> 1 [] i = 1 -> 2 [] OTHER -> 4
Set(n) == {i \in B : (n \div Pow(i)) % 2 = 1}
Num(s) == (IF 0 \in s THEN 1 ELSE 0) + (IF 1 \in s THEN 2 ELSE 0) + (IF 2 \in s THEN 4 ELSE 0)
Ticks(unit, n) == IF n <= 0 THEN 0 ELSE CASE unit = "tick" -> n [] unit = "ms" -> n \div 10 [] unit = "s" -> n * 100 [] unit = "max" -> Forever
Obs == IF dead THEN [z |-> 1] ELSE
  CASE K = "group" -> [bits |-> Num(bits), live |-> 1, errs |-> 0]
    [] K = "timer" -> [active |-> tm[1], dormant |-> ~tm[1], period |-> tm[2], id |-> tm[4], name |-> "T", live |-> 1, errs |-> 0]
    [] K = "task" -> [susp |-> tk[1], pend |-> tk[2], value |-> tk[3], name |-> "task", live |-> 1, errs |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
T0 == <<FALSE, 5, 0, 0>>
K0 == <<FALSE, FALSE, 0>>
InitCfg(c) == cfg = c /\ bits = {} /\ tm = T0 /\ tk = K0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ bits' = {} /\ tm' = T0 /\ tk' = K0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Frame == UNCHANGED <<cfg, dead>>
Put(op, n, w) == /\ K = "group" /\ Frame /\ UNCHANGED <<tm, tk>> /\ n \in 0..7
  /\ CASE op = "set" -> bits' = bits \cup Set(n) /\ Ret(op, <<n, w>>, Num(bits \cup Set(n)))
       [] op = "clear" -> bits' = bits \ Set(n) /\ Ret(op, <<n, w>>, Num(bits))
       [] op = "set_isr" -> bits' = bits \cup Set(n) /\ Ret(op, <<n, w>>, <<TRUE, w /\ ~(Set(n) \subseteq bits)>>)
       [] op = "clear_isr" -> bits' = bits \ Set(n) /\ Ret(op, <<n, w>>, TRUE)
\* wait for some or all of the bits n, clearing them or not; the other task sets ob after d ticks
Met(b, n, all) == IF all THEN Set(n) \subseteq b ELSE Set(n) \cap b # {}
Await(n, clear, all, unit, t, d, ob) ==
  LET w == Ticks(unit, t) a == <<n, clear, all, unit, t, d, ob>> late == bits \cup Set(ob)
      at == d >= 0 /\ w > 0 /\ d <= w
      end == IF Met(bits, n, all) \/ ~at THEN bits ELSE late
      ok == Met(end, n, all)
      time == IF Met(bits, n, all) THEN 0 ELSE IF ok THEN d ELSE w
  IN /\ K = "group" /\ n \in 1..7 /\ Frame /\ UNCHANGED <<tm, tk>> /\ time # Forever
     /\ bits' = (IF ok /\ clear THEN end \ Set(n) ELSE end) /\ Ret("await", a, <<Num(end), time>>)
\* set, then wait for all, and clear those
Sync(s, n, unit, t, d, ob) ==
  LET w == Ticks(unit, t) a == <<s, n, unit, t, d, ob>> b == bits \cup Set(s) at == d >= 0 /\ w > 0 /\ d <= w
      end == IF Met(b, n, TRUE) \/ ~at THEN b ELSE b \cup Set(ob)
      ok == Met(end, n, TRUE)
      time == IF Met(b, n, TRUE) THEN 0 ELSE IF ok THEN d ELSE w
  IN /\ K = "group" /\ n \in 1..7 /\ s \in 0..7 /\ Frame /\ UNCHANGED <<tm, tk>> /\ time # Forever
     /\ bits' = (IF ok THEN end \ Set(n) ELSE end) /\ Ret("sync", a, <<Num(end), time>>)
\* ---- timers; the last argument of a command is how long it may wait to be accepted
Cmd(op, unit, t) == /\ K = "timer" /\ Frame /\ UNCHANGED <<bits, tk>>
  /\ tm' = (IF op = "stop" THEN [tm EXCEPT ![1] = FALSE] ELSE <<TRUE, tm[2], tm[2], tm[4]>>) /\ Ret(op, <<unit, t>>, <<TRUE, Ticks(unit, t)>>)
CmdIsr(op, w) == /\ K = "timer" /\ Frame /\ UNCHANGED <<bits, tk>>
  /\ tm' = (IF op = "stop_isr" THEN [tm EXCEPT ![1] = FALSE] ELSE <<TRUE, tm[2], tm[2], tm[4]>>) /\ Ret(op, <<w>>, <<TRUE, w>>)
Period(unit, p, bu, bt) == LET n == Ticks(unit, p) IN /\ K = "timer" /\ n > 0 /\ n # Forever /\ Frame /\ UNCHANGED <<bits, tk>>
  /\ tm' = <<TRUE, n, n, tm[4]>> /\ Ret("period", <<unit, p, bu, bt>>, <<TRUE, Ticks(bu, bt)>>)
Id(n) == K = "timer" /\ n \in 0..2 /\ Frame /\ UNCHANGED <<bits, tk>> /\ tm' = [tm EXCEPT ![4] = n] /\ Ret("id", <<n>>, 0)
Expiry == K = "timer" /\ tm[1] /\ Frame /\ UNCHANGED <<bits, tm, tk>> /\ Ret("expiry", <<>>, tm[3])
Pend(n, unit, t) == K = "timer" /\ Frame /\ UNCHANGED <<bits, tm, tk>> /\ Ret("pend", <<n, unit, t>>, <<TRUE, n, Ticks(unit, t)>>)
\* let time pass; not up to the expiry of a running timer
Sleep(op, unit, t) == LET n == Ticks(unit, t) IN /\ K = "timer" /\ n # Forever /\ (tm[1] => n < tm[3]) /\ Frame /\ UNCHANGED <<bits, tk>>
  /\ tm' = [tm EXCEPT ![3] = IF tm[1] THEN tm[3] - n ELSE 0] /\ Ret(op, <<unit, t>>, n)
\* ---- tasks
Suspend(op) == K = "task" /\ Frame /\ UNCHANGED <<bits, tm>> /\ tk' = [tk EXCEPT ![1] = op = "suspend"] /\ Ret(op, <<>>, 0)
\* what a notification does to the value: nothing, set bits, count, overwrite, write unless one is pending
Note(how, n, isr, w) ==
  LET ok == ~(how = "unless" /\ tk[2])
      v == CASE how = "none" -> tk[3] [] how = "bits" -> Num(Set(tk[3]) \cup Set(n)) [] how = "inc" -> tk[3] + 1 [] how = "write" -> n [] how = "unless" -> IF ok THEN n ELSE tk[3]
  IN /\ K = "task" /\ n \in 0..7 /\ v \in 0..7 /\ Frame /\ UNCHANGED <<bits, tm>>
     /\ tk' = <<tk[1], TRUE, v>> /\ Ret("note", <<how, n, isr, w>>, IF isr THEN <<ok, w>> ELSE ok)
GiveT(isr, w) == K = "task" /\ tk[3] < 7 /\ Frame /\ UNCHANGED <<bits, tm>> /\ tk' = <<tk[1], TRUE, tk[3] + 1>> /\ Ret("give", <<isr, w>>, isr = "isr" => w)
Take(op, n) == K = "task" /\ n \in 0..7 /\ Frame /\ UNCHANGED <<bits, tm>> /\
  IF op = "value_clear" THEN tk' = <<tk[1], tk[2], Num(Set(tk[3]) \ Set(n))>> /\ Ret(op, <<n>>, tk[3])
  ELSE tk' = <<tk[1], FALSE, tk[3]>> /\ Ret(op, <<n>>, tk[2])
End == bits' = {} /\ tm' = T0 /\ tk' = K0 /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\
  CASE op \in {"set", "clear", "set_isr", "clear_isr"} -> Put(op, a[1], a[2])
    [] op = "await" -> Await(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
    [] op = "sync" -> Sync(a[1], a[2], a[3], a[4], a[5], a[6])
    [] op \in {"start", "stop", "restart"} -> Cmd(op, a[1], a[2])
    [] op \in {"start_isr", "stop_isr", "restart_isr"} -> CmdIsr(op, a[1])
    [] op = "period" -> Period(a[1], a[2], a[3], a[4])
    [] op = "id" -> Id(a[1])
    [] op = "expiry" -> Expiry
    [] op = "pend" -> Pend(a[1], a[2], a[3])
    [] op \in {"sleep_for", "sleep_until"} -> Sleep(op, a[1], a[2])
    [] op \in {"suspend", "resume"} -> Suspend(op)
    [] op = "note" -> Note(a[1], a[2], a[3], a[4])
    [] op = "give" -> GiveT(a[1], a[2])
    [] op \in {"value_clear", "state_clear"} -> Take(op, a[1])
    [] op = "end" -> End
    [] OTHER -> FALSE
Times == {<<"tick", 0>>, <<"tick", 2>>, <<"ms", 19>>, <<"s", 1>>, <<"max", 1>>}
Late == {<<-1, 0>>, <<0, 1>>, <<1, 2>>, <<2, 3>>, <<2, 6>>, <<100, 7>>}
Next ==
  \/ \E op \in {"set", "clear", "set_isr", "clear_isr"}, n \in 0..7, w \in BOOLEAN : Do(op, <<n, w>>)
  \/ \E n \in {1, 2, 5, 7}, c, all \in BOOLEAN, t \in Times, dl \in Late : Do("await", <<n, c, all, t[1], t[2], dl[1], dl[2]>>)
  \/ \E s \in {0, 1, 6}, n \in {1, 3, 7}, t \in Times, dl \in Late : Do("sync", <<s, n, t[1], t[2], dl[1], dl[2]>>)
  \/ \E op \in {"start", "stop", "restart"}, t \in Times : Do(op, t)
  \/ \E op \in {"start_isr", "stop_isr", "restart_isr"}, w \in BOOLEAN : Do(op, <<w>>)
  \/ \E p \in {<<"tick", 1>>, <<"tick", 3>>, <<"ms", 70>>, <<"ms", 29>>, <<"s", 1>>}, t \in Times : Do("period", <<p[1], p[2], t[1], t[2]>>)
  \/ \E n \in 0..2 : Do("id", <<n>>)
  \/ Do("expiry", <<>>)
  \/ \E n \in 0..2, t \in Times : Do("pend", <<n, t[1], t[2]>>)
  \/ \E op \in {"sleep_for", "sleep_until"}, t \in {<<"tick", 0>>, <<"tick", 1>>, <<"tick", 2>>, <<"ms", 9>>, <<"ms", 10>>, <<"ms", 39>>, <<"ms", -30>>, <<"s", 1>>, <<"tick", -1>>} : (tm[3] < 10 \/ t[1] # "tick") /\ Do(op, t)
  \/ \E op \in {"suspend", "resume", "end"} : Do(op, <<>>)
  \/ \E how \in {"none", "bits", "inc", "write", "unless"}, n \in {0, 1, 2, 6}, isr, w \in BOOLEAN : Do("note", <<how, n, isr, w>>)
  \/ \E isr \in {"", "index", "isr"}, w \in BOOLEAN : Do("give", <<isr, w>>)
  \/ \E n \in 0..7 : Do("value_clear", <<n>>)
  \/ Do("state_clear", <<0>>)
TypeOK == bits \subseteq B /\ tm[2] > 0 /\ tk[3] \in 0..7
\* waiting never clears what it did not wait for
ClearsOnly == [][act'.op = "await" => \A i \in bits \ bits' : i \in Set(act'.a[1]) /\ act'.a[2]]_vars
=============================================================================
