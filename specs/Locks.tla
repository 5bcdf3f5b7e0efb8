-------------------------------- MODULE Locks --------------------------------
(* Scoped locks over one mutex which allows one holder at a time: lock_guard g and two unique_locks u[1], u[2].
   cfg = <<"m">>.
   own    who holds the mutex: "none", "g", "u1", "u2", "user" (locked by hand), "other" (someone else)
   u[i] = <<alive, associated, owns>>                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, own, g, u, dead, act
vars == <<cfg, own, g, u, dead, act>>
Key == <<cfg, own, g, u, dead>>
Name(i) == IF i = 1 THEN "u1" ELSE "u2"
None == <<FALSE, FALSE, FALSE>>
Obs == IF dead THEN [z |-> 1] ELSE
  [ held |-> own # "none", g |-> g, u |-> u, misuse |-> 0 ]
Ret(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Start == own' = "none" /\ g' = FALSE /\ u' = <<None, None>>
InitCfg(c) == cfg = c /\ own = "none" /\ g = FALSE /\ u = <<None, None>> /\ dead = FALSE /\ act = [op |-> "reset", a |-> c, r |-> 0]
Reset(c) == cfg' = c /\ Start /\ dead' = FALSE /\ act' = [op |-> "reset", a |-> c, r |-> 0]
Frame == UNCHANGED <<cfg, dead>>
\* by hand, and by someone else
User(op) == Frame /\ UNCHANGED <<g, u>> /\ Ret(op, <<>>, 0) /\
  CASE op = "hand_lock" -> own = "none" /\ own' = "user"
    [] op = "hand_unlock" -> own = "user" /\ own' = "none"
    [] op = "other_lock" -> own = "none" /\ own' = "other"
    [] op = "other_unlock" -> own = "other" /\ own' = "none"
GMake == ~g /\ own = "none" /\ own' = "g" /\ g' = TRUE /\ UNCHANGED u /\ Frame /\ Ret("g_make", <<>>, 0)
GKill == g /\ own' = "none" /\ g' = FALSE /\ UNCHANGED u /\ Frame /\ Ret("g_kill", <<>>, 0)
\* construction; how: "none" (no mutex), "lock", "defer", "adopt", "try", "timed"
Make(i, how) ==
  /\ ~u[i][1] /\ UNCHANGED g /\ Frame /\ Ret("make", <<i, how>>, 0)
  /\ how = "lock" => own = "none"
  /\ how = "adopt" => own = "user"
  /\ LET owns == how \in {"lock", "adopt"} \/ (how \in {"try", "timed"} /\ own = "none")
     IN own' = (IF owns THEN Name(i) ELSE own) /\ u' = [u EXCEPT ![i] = <<TRUE, how # "none", owns>>]
Kill(i) == u[i][1] /\ own' = (IF u[i][3] THEN "none" ELSE own) /\ u' = [u EXCEPT ![i] = None] /\ UNCHANGED g /\ Frame /\ Ret("kill", <<i>>, 0)
Lock(i) == u[i][2] /\ ~u[i][3] /\ own = "none" /\ own' = Name(i) /\ u' = [u EXCEPT ![i][3] = TRUE] /\ UNCHANGED g /\ Frame /\ Ret("lock", <<i>>, 0)
Try(op, i) == u[i][2] /\ ~u[i][3] /\ UNCHANGED g /\ Frame /\ Ret(op, <<i>>, own = "none")
  /\ IF own = "none" THEN own' = Name(i) /\ u' = [u EXCEPT ![i][3] = TRUE] ELSE UNCHANGED <<own, u>>
Unlock(i) == u[i][3] /\ own' = "none" /\ u' = [u EXCEPT ![i][3] = FALSE] /\ UNCHANGED g /\ Frame /\ Ret("unlock", <<i>>, 0)
\* the mutex stays as it is: locked by hand from here on, if it was ours
Release(i) == u[i][1] /\ own' = (IF u[i][3] THEN "user" ELSE own) /\ u' = [u EXCEPT ![i] = <<TRUE, FALSE, FALSE>>] /\ UNCHANGED g /\ Frame
  /\ Ret("release", <<i>>, u[i][2])
End == Start /\ dead' = TRUE /\ UNCHANGED cfg /\ Ret("end", <<>>, <<IF own \in {"user", "other"} THEN 1 ELSE 0, 0>>)
Hands == {"hand_lock", "hand_unlock", "other_lock", "other_unlock"}
Hows == {"none", "lock", "defer", "adopt", "try", "timed"}
Do(op, a) == ~dead /\
  CASE op \in Hands -> User(op)
    [] op = "g_make" -> GMake
    [] op = "g_kill" -> GKill
    [] op = "make" -> Make(a[1], a[2])
    [] op = "kill" -> Kill(a[1])
    [] op = "lock" -> Lock(a[1])
    [] op \in {"try_lock", "try_lock_for"} -> Try(op, a[1])
    [] op = "unlock" -> Unlock(a[1])
    [] op = "release" -> Release(a[1])
    [] op = "end" -> End
    [] OTHER -> FALSE
Next ==
  \/ \E op \in Hands \cup {"g_make", "g_kill", "end"} : Do(op, <<>>)
  \/ \E i \in {1, 2}, how \in Hows : Do("make", <<i, how>>)
  \/ \E i \in {1, 2} : \E op \in {"kill", "lock", "try_lock", "try_lock_for", "unlock", "release"} : Do(op, <<i>>)
TypeOK == (g <=> own = "g") /\ \A i \in {1, 2} : (u[i][3] <=> own = Name(i)) /\ (u[i][3] => u[i][2]) /\ (u[i][2] => u[i][1])
\* nothing but its owner gives the mutex back
OnlyOwner == [][own # own' /\ own \in {"g", "u1", "u2"} /\ act'.op # "end" =>
   \/ own = "g" /\ act'.op = "g_kill"
   \/ own \in {"u1", "u2"} /\ act'.op \in {"kill", "unlock", "release"} /\ Name(act'.a[1]) = own]_vars
=============================================================================
