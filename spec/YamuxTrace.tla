----------------------------- MODULE YamuxTrace -----------------------------
(* Conformance: is each recorded execution of the real code a behaviour of YamuxCore in which
   no step violates one of the properties in Enforced?  One initial state per trace; a trace is
   accepted when some path consumes all of its events. *)
EXTENDS YamuxCore, Json, IOUtils

File == IOEnv.TRACE
Enforced == LET p == IOEnv.ENFORCED IN IF p = "ALL" THEN ALL ELSE {p}
T == ndJsonDeserialize(File)

VARIABLES tr, l, c,
  f   \* what the operation that is being executed has not done yet (see Parts)

Ev(t, i) == T[t].ev[i]
CfgOf(e) == [srv |-> e.srv, maxs |-> e.maxs, maxc |-> e.maxc, rac |-> e.rac, split |-> e.split]
Dummy == [srv |-> FALSE, maxs |-> 1, maxc |-> -1, rac |-> TRUE, split |-> 1]

Init == /\ tr \in 1..Len(T)
        /\ l = IF Ev(tr, 1).e = "cfg" THEN 2 ELSE 1
        /\ c = NewC(IF Ev(tr, 1).e = "cfg" THEN CfgOf(Ev(tr, 1)) ELSE Dummy)
        /\ f = <<>>

Legal(o) == IF o.v \cap Enforced = {} THEN TRUE
            ELSE PrintT("@DEAD " \o T[tr].id \o " " \o ToString(l) \o " " \o ToJson(o.v)) /\ FALSE

(* An operation of another task begins before the one that was called has returned. *)
Call == /\ Ev(tr, l).e = "call"
        /\ f' = f \o Parts(Ev(tr, l).op)
        /\ c' = Cov(c, "race-" \o Ev(tr, l).op.e)
(* A part of it takes place. *)
Happen == /\ f # <<>>
          /\ \E o \in Step(c, Head(f)) : Legal(o) /\ c' = o.c
          /\ f' = Tail(f)
          /\ UNCHANGED <<tr, l>>
(* It returns: all of it has taken place. *)
Return == Ev(tr, l).e = "ret" /\ f = <<>> /\ UNCHANGED <<c, f>>
(* Everything else is observed when it happens. *)
Observe == /\ Ev(tr, l).e \notin {"call", "ret"}
           /\ \E o \in Step(c, Ev(tr, l)) : Legal(o) /\ c' = o.c
           /\ UNCHANGED f

Next ==
  \/ /\ l <= T[tr].n
     /\ Call \/ Return \/ Observe
     /\ l' = l + 1
     /\ UNCHANGED tr
  \/ Happen
  \/ /\ l = T[tr].n + 1
     /\ PrintT("@ACCEPT " \o T[tr].id \o " " \o ToJson(c.cov))
     /\ l' = l + 1
     /\ UNCHANGED <<tr, c, f>>

Spec == Init /\ [][Next]_<<tr, l, c, f>>
=============================================================================
