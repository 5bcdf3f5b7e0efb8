------------------------------ MODULE RtosLock ------------------------------
(* A lock of the operating system: mutexes, recursive mutexes and semaphores, seen from one task.
   cfg = <<kind, alloc, init>>
   cnt    how often it can be taken now        own  who holds the mutex: 0 nobody, 1 this task, 2 another
   depth  how often this task holds the recursive mutex
   A wait of at most n ticks: the other task gives d ticks from now, or not at all (d = -1)      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, cnt, own, depth, dead, act
vars == <<cfg, cnt, own, depth, dead, act>>
Key == <<cfg, cnt, own, depth, dead>>
Forever == 1000000000
K == cfg[1]
Mutexes == {"mutex", "tmutex"}
Binary == {"bmutex", "btmutex", "bin"}
Sems == {"sem", "bin"}
Counts(k) == k \in Binary \cup {"sem"}
Max == IF K = "sem" THEN 2 ELSE 1
First(c) == IF c[1] = "sem" THEN c[3] ELSE IF c[1] \in Binary THEN 0 ELSE 1
\* whole ticks (of 10 ms) in a time; none in one that is over already
Ticks(unit, n) == IF n <= 0 THEN 0 ELSE CASE unit = "tick" -> n [] unit = "ms" -> n \div 10 [] unit = "s" -> n * 100
Obs == IF dead THEN [z |-> 1] ELSE [cnt |-> cnt, own |-> own, depth |-> depth, live |-> 1, errs |-> 0]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
InitCfg(c) == cfg = c /\ cnt = First(c) /\ own = 0 /\ depth = 0 /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ cnt' = First(c) /\ own' = 0 /\ depth' = 0 /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Frame == UNCHANGED <<cfg, dead>>
Mine == K \in Mutexes \cup {"rec"}
Wait(form, unit, n) == IF form = "wait" THEN Forever ELSE IF form = "try" THEN 0 ELSE Ticks(unit, n)
Has(form) == form \in {"wait", "try"} \/ K \in {"tmutex", "btmutex"} \/ K \in Sems
\* the other task can give what it holds; anybody can raise a count
Gives(d) == d = -1 \/ (d >= 0 /\ (Mine => own = 2))
Take(form, unit, n, d) ==
  LET w == Wait(form, unit, n) a == <<form, unit, n, d>> IN
  /\ Has(form) /\ Gives(d) /\ Frame
  /\ CASE K = "rec" /\ own = 1 -> depth' = depth + 1 /\ UNCHANGED <<cnt, own>> /\ Ret("take", a, <<TRUE, 0>>)
       [] cnt > 0 -> cnt' = cnt - 1 /\ own' = (IF Mine THEN 1 ELSE own) /\ depth' = (IF K = "rec" THEN 1 ELSE depth) /\ Ret("take", a, <<TRUE, 0>>)
       [] cnt = 0 /\ d >= 0 /\ w > 0 /\ d <= w /\ ~(K = "rec" /\ own = 1) ->
            /\ UNCHANGED cnt /\ own' = (IF Mine THEN 1 ELSE own) /\ depth' = (IF K = "rec" THEN 1 ELSE depth) /\ Ret("take", a, <<TRUE, d>>)
       [] OTHER -> w # Forever /\ UNCHANGED <<cnt, own, depth>> /\ Ret("take", a, <<FALSE, w>>)
\* unlock or release
Give ==
  /\ Frame
  /\ CASE K = "rec" -> IF own = 1 THEN depth' = depth - 1 /\ own' = (IF depth = 1 THEN 0 ELSE 1) /\ cnt' = (IF depth = 1 THEN 1 ELSE 0) /\ Ret("give", <<>>, TRUE)
                                  ELSE UNCHANGED <<cnt, own, depth>> /\ Ret("give", <<>>, FALSE)
       [] K \in Mutexes -> own # 2 /\ cnt' = 1 /\ own' = 0 /\ UNCHANGED depth /\ Ret("give", <<>>, own = 1)
       [] OTHER -> cnt' = (IF cnt < Max THEN cnt + 1 ELSE cnt) /\ UNCHANGED <<own, depth>> /\ Ret("give", <<>>, IF K \in Sems THEN TRUE ELSE cnt < Max)
\* from an interrupt, asking (or not) whether a task was woken
Isr(op, w) ==
  /\ Counts(K) /\ w \in BOOLEAN /\ Frame /\ UNCHANGED <<own, depth>>
  /\ IF op = "take_isr" THEN cnt' = (IF cnt > 0 THEN cnt - 1 ELSE 0) /\ Ret(op, <<w>>, <<cnt > 0, w /\ cnt = 1>>)
     ELSE cnt' = (IF cnt < Max THEN cnt + 1 ELSE cnt) /\ Ret(op, <<w>>, <<cnt < Max, w /\ cnt = 0>>)
Other(op) ==
  /\ Frame /\ UNCHANGED depth
  /\ IF op = "other_take" THEN cnt > 0 /\ cnt' = cnt - 1 /\ own' = (IF Mine THEN 2 ELSE own)
     ELSE (IF Mine THEN own = 2 ELSE cnt < Max) /\ cnt' = cnt + 1 /\ own' = 0
  /\ Ret(op, <<>>, 0)
\* lock_guard and unique_lock: held inside, given back after; how: "guard", "unique", "try", "timed"
Scoped(how, n, d) ==
  LET w == CASE how \in {"guard", "unique"} -> Forever [] how = "try" -> 0 [] OTHER -> Ticks("tick", n) a == <<how, n, d>> IN
  /\ K \notin Sems /\ (how = "timed" => K \in {"tmutex", "btmutex"}) /\ Gives(d) /\ Frame /\ UNCHANGED depth
  /\ CASE K = "rec" /\ own = 1 -> UNCHANGED <<cnt, own>> /\ Ret("scoped", a, <<TRUE, 0>>)
       [] cnt > 0 -> UNCHANGED <<cnt, own>> /\ Ret("scoped", a, <<TRUE, 0>>)
       [] cnt = 0 /\ d >= 0 /\ w > 0 /\ d <= w /\ ~(K = "rec" /\ own = 1) -> cnt' = 1 /\ own' = 0 /\ Ret("scoped", a, <<TRUE, d>>)
       [] OTHER -> w # Forever /\ UNCHANGED <<cnt, own>> /\ Ret("scoped", a, <<FALSE, w>>)
Ask(op) ==
  /\ Frame /\ UNCHANGED <<cnt, own, depth>>
  /\ CASE op = "count" -> Ret(op, <<>>, cnt)
       [] op = "holder" -> Mine /\ Ret(op, <<>>, own)
       [] op = "max" -> K \in Sems /\ Ret(op, <<>>, Max)
End == cnt' = 0 /\ own' = 0 /\ depth' = 0 /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<0, 0>>)
Do(op, a) == ~dead /\
  CASE op = "take" -> Take(a[1], a[2], a[3], a[4])
    [] op = "give" -> Give
    [] op \in {"take_isr", "give_isr"} -> Isr(op, a[1])
    [] op \in {"other_take", "other_give"} -> Other(op)
    [] op = "scoped" -> Scoped(a[1], a[2], a[3])
    [] op \in {"count", "holder", "max"} -> Ask(op)
    [] op = "end" -> End
    [] OTHER -> FALSE
Delays == {-1, 0, 1, 2, 3}
Next ==
  \/ \E form \in {"wait", "try"}, d \in Delays \cup {150} : depth < 3 /\ Do("take", <<form, "tick", 0, d>>)
  \/ \E form \in {"for", "until"}, n \in -2..3, d \in Delays : depth < 3 /\ Do("take", <<form, "tick", n, d>>)
  \/ \E form \in {"for", "until"}, n \in {-25, -10, 0, 1, 9, 10, 19, 20, 25}, d \in Delays : depth < 3 /\ Do("take", <<form, "ms", n, d>>)
  \/ \E form \in {"for", "until"}, n \in {-1, 0, 1}, d \in {-1, 99, 100, 101} : depth < 3 /\ Do("take", <<form, "s", n, d>>)
  \/ Do("give", <<>>)
  \/ \E op \in {"take_isr", "give_isr"}, w \in BOOLEAN : Do(op, <<w>>)
  \/ \E op \in {"other_take", "other_give", "count", "holder", "max", "end"} : Do(op, <<>>)
  \/ \E how \in {"guard", "unique", "try", "timed"}, n \in {0, 2}, d \in Delays : Do("scoped", <<how, n, d>>)
TypeOK == cnt \in 0..2 /\ own \in 0..2 /\ depth \in 0..1000
\* a mutex is free or held, never both
OneHolder == Mine /\ ~dead => (cnt = 1 <=> own = 0) /\ (depth > 0 <=> K = "rec" /\ own = 1)
\* taken only by who waited no longer than told
InTime == [][act'.op = "take" /\ act'.r[1] /\ act'.a[1] # "wait" => act'.r[2] <= Wait(act'.a[1], act'.a[2], act'.a[3])]_vars
\* a held mutex changes hands only when its holder gives
Exclusive == [][Mine /\ own = 2 /\ own' = 1 => act'.op = "reset" \/ (act'.op = "take" /\ act'.a[4] >= 0)]_vars
=============================================================================
