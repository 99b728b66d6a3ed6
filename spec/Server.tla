--------------------------------- MODULE Server ----------------------------------
(***************************************************************************)
(* Who receives what. Clients come and go; the server's user sends         *)
(* messages to everybody, to the subscribers of a topic or to one          *)
(* connection, and a message from a client can be answered to it. A        *)
(* connection that has gone receives nothing and its subscriptions end     *)
(* with it, even for the same client once it's back. In a burst several    *)
(* threads send at the same time while clients may come and go: everybody  *)
(* who stays receives every thread's messages in that thread's order.      *)
(*                                                                         *)
(* Checked with TLC over every state of 3 clients and 2 topics; every      *)
(* state's way and everything that can be sent there is written for        *)
(* replay (Spec), as are random behaviours (SimSpec).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Clients == 1 .. 3
Topics == {"watch-0", "watch-1"}
VARIABLES cl, subs, left, log   \* connected clients; <<topic, client>>; how often the last one left; what happened so far
vars == <<cl, subs, left, log>>

None == <<>>
Out(f) == [c \in Clients |-> f[c]]
Msg(n) == "m" \o ToString(n)
To(a) == (* who receives what a sends *)
    CASE a.k = "all" -> cl
      [] a.k = "topic" -> {c \in cl : <<a.t, c>> \in subs}
      [] a.k = "one" -> {a.c} \cap cl
      [] OTHER -> {}
Sent(a) == [c \in Clients |-> IF a.k = "text" THEN (IF c = a.c THEN <<"a" \o a.m>> ELSE None) ELSE IF c \in To(a) THEN <<a.m>> ELSE None]
(* a burst: what client c receives from every thread; who leaves may miss some of it, who comes may receive some of it *)
Burst(a) == [c \in Clients |-> [i \in DOMAIN a.threads |-> FlattenSeq([j \in DOMAIN a.threads[i] |-> IF c \in To(a.threads[i][j]) THEN <<a.threads[i][j].m>> ELSE None])]]

NewCl(a) ==
    CASE a.k = "connect" -> cl \cup {a.c}
      [] a.k = "close" -> cl \ {a.c}
      [] a.k = "burst" -> (cl \ {a.leave}) \cup ({a.join} \ {0})
      [] OTHER -> cl
NewSubs(a) ==
    CASE a.k = "sub" -> IF a.c \in cl THEN subs \cup {<<a.t, a.c>>} ELSE subs
      [] a.k = "unsub" -> subs \ {<<a.t, a.c>>}
      [] a.k = "close" -> {x \in subs : x[2] # a.c}
      [] a.k = "burst" -> {x \in subs : x[2] # a.leave}
      [] OTHER -> subs
Do(a) ==
    /\ cl' = NewCl(a)
    /\ subs' = NewSubs(a)
    /\ left' = IF cl # {} /\ cl' = {} THEN left + 1 ELSE left
    /\ log' = Append(log, [a |-> a, out |-> IF a.k = "burst" THEN Burst(a) ELSE Sent(a), cl |-> cl', left |-> left'])

Changes ==
    {[k |-> "connect", c |-> c] : c \in Clients \ cl} \cup {[k |-> "close", c |-> c, how |-> h] : c \in cl, h \in {"ws", "rst"}}
    \cup {[k |-> k, t |-> t, c |-> c] : k \in {"sub", "unsub"}, t \in Topics, c \in Clients}
Sends(n) ==
    {[k |-> "all", m |-> Msg(n)]} \cup {[k |-> "topic", t |-> t, m |-> Msg(n)] : t \in Topics \cup {"nosuch"}}
    \cup {[k |-> "one", c |-> c, m |-> Msg(n)] : c \in Clients} \cup {[k |-> "text", c |-> c, m |-> "q" \o ToString(n)] : c \in cl}

(* every message sent in this state, one after the other *)
Probe == LET P == SetToSeq(Sends(Len(log))) IN [i \in DOMAIN P |-> [a |-> P[i], out |-> Sent(P[i]), cl |-> cl, left |-> left]]
Write(l) == Serialize(ToJson([log |-> l]) \o "\n", IOEnv.OUT,
                      [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Init == cl = {} /\ subs = {} /\ left = 0 /\ log = <<>>
View == <<cl, subs>>
Next == \E a \in Changes : Do(a)
Spec == Init /\ [][Next]_vars
Emit == Write(log \o Probe)
Inv == /\ \A x \in subs : x[2] \in cl
       /\ \A a \in Sends(0) : \A c \in Clients : (Sent(a)[c] # None) => c \in cl
       /\ Emit

(* random behaviours *)
R(S) == RandomElement(S)
RSend(n) == R({[k |-> "all", m |-> Msg(n)], [k |-> "topic", t |-> R(Topics), m |-> Msg(n)], [k |-> "one", c |-> R(Clients), m |-> Msg(n)]})
RBurst(n) ==
    LET lv == IF Cardinality(cl) > 1 /\ R(1 .. 2) = 1 THEN R(cl) ELSE 0
        out == Clients \ cl
        jn == IF out # {} /\ R(1 .. 2) = 1 THEN R(out) ELSE 0
    IN [k |-> "burst", threads |-> [i \in 1 .. R(2 .. 4) |-> [j \in 1 .. R(3 .. 25) |-> RSend(n * 10000 + i * 100 + j)]],
        leave |-> lv, join |-> jn]
RAct(k) == LET n == Len(log) IN
    CASE k < 4 /\ cl # Clients -> [k |-> "connect", c |-> R(Clients \ cl)]
      [] k = 4 /\ cl # {} -> [k |-> "close", c |-> R(cl), how |-> R({"ws", "rst"})]
      [] k \in 5 .. 8 -> [k |-> "sub", t |-> R(Topics), c |-> R(Clients)]
      [] k = 9 -> [k |-> "unsub", t |-> R(Topics), c |-> R(Clients)]
      [] k \in 10 .. 11 /\ cl # {} -> RBurst(n)
      [] k = 12 /\ cl # {} -> [k |-> "text", c |-> R(cl), m |-> "q" \o ToString(n)]
      [] OTHER -> LET m == RSend(n) IN m
Length == 24
SimNext ==
    \/ /\ Len(log) < Length /\ \E k \in {R(1 .. 16)} : \E a \in {RAct(k)} : Do(a)
    \/ /\ Len(log) = Length /\ Write(log) /\ log' = Append(log, [a |-> [k |-> "end"], out |-> None, cl |-> cl, left |-> left]) /\ UNCHANGED <<cl, subs, left>>
SimSpec == Init /\ [][SimNext]_vars
==================================================================================
