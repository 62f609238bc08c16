----------------------------- MODULE YamuxPairSim -----------------------------
(***************************************************************************)
(* Random behaviours of the two-endpoint model, written down as schedules  *)
(* for two endpoints of the implementation.                                *)
(***************************************************************************)
EXTENDS YamuxPair
CONSTANT DEPTH
VARIABLE h
T(i, t) == h' = Append(h, <<i>> \o t)
\* size of what is pushed or received, in units of data, -1 for what is only a header
Sz(m) == IF m.y = 0 THEN Num(<<m.h, m.l>>) ELSE IF m.y = 8 THEN -2 ELSE -1
SimInit == Init /\ h = <<>>
Act == \E i \in P :
  \/ Open(i) /\ T(i, <<"open">>)
  \/ CloseC(i) /\ T(i, <<"cc">>)
  \/ Ping(i) /\ T(i, <<"ping">>)
  \/ Send(i) /\ T(i, <<"poll">>)
  \/ Push(i) /\ T(i, <<"push", Sz(Head(k[i]))>>)
  \/ Part(i) /\ T(i, <<"dlv", -2>>)
  \/ Recv(i) /\ T(i, <<"dlv", Sz(Head(w[O(i)]))>>)
  \/ Sweep(i) /\ T(i, <<"poll">>)
  \/ Finished(i) /\ T(i, <<"poll">>)
  \/ Told(i) /\ T(i, <<"poll">>)
  \/ \E s \in Mine(i) :
       \/ \E z \in WSZ : Write(i, s) /\ T(i, <<"wr", s, z>>)
       \/ CloseS(i, s) /\ T(i, <<"cl", s>>)
       \* (dropping a stream closed before its end was read: the recorded finding of C08)
       \/ c[i].s[s].st # "sc" /\ DropS(i, s) /\ T(i, <<"dr", s>>)
       \/ \E z \in RSZ : Read(i, s) /\ T(i, <<"rd", s, z>>)
SimNext == Len(h) < DEPTH /\ Act
Emit == (Len(h) = DEPTH \/ (Still /\ Len(h) > 0)) => PrintT("@W " \o ToString(h))
=============================================================================
