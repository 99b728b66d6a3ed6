-------------------------------- MODULE ReplayMC --------------------------------
(* All small waveforms, all ways of registering, removing, rewinding and stopping. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, IOUtils
VARIABLES W, now, inst, base, new, pend, gone, may, orig, cbs, running, phase,
          from,    \* where the presentation last began: the start or the edge rewound to
          shown,   \* <<callback, time>> presented since
          old,     \* callbacks that were there then
          left     \* actions left
R == INSTANCE Replay
rv == <<W, now, inst, base, new, pend, gone, may, orig, cbs, running, phase>>
vars == <<rv, from, shown, old, left>>
Deep == "DEEP" \in DOMAIN IOEnv
T == IF Deep THEN 4 ELSE 3
(* a recording of a one bit signal: a starting value or none, and the times it changes *)
Rec(v, ts) == LET s == SetToSortSeq(ts, <) IN (IF v = 2 THEN <<>> ELSE << <<0, <<v>> >> >>)
                  \o [k \in 1 .. Len(s) |-> <<s[k], <<(k + (IF v = 2 THEN 0 ELSE v)) % 2>> >>]
Recs == {Rec(v, ts) : v \in 0 .. 2, ts \in SUBSET (1 .. T)}
Waves == {[sigs |-> <<[w |-> 1, ch |-> a], [w |-> 1, ch |-> b]>>, refs |-> <<>>, start |-> s] : a \in Recs, b \in {Rec(0, {}), Rec(1, {2, T}), Rec(0, 1 .. T), Rec(2, {1, 3})}, s \in {0, 2}}
Init == /\ W \in Waves /\ R!Init /\ from = W.start /\ shown = {} /\ old = {} /\ left = (IF Deep THEN 4 ELSE 3)
Aux == UNCHANGED <<from, shown, old>>
Use == left > 0 /\ left' = left - 1
Next == /\ UNCHANGED W
        /\ \/ R!Start /\ Aux /\ UNCHANGED left
           \/ \E c \in DOMAIN cbs, t \in 0 .. T : R!Fire(c, t) /\ shown' = shown \cup {<<c, t>>} /\ UNCHANGED <<from, old, left>>
           \/ \E t \in 0 .. T + 1, k \in {{1}, {1, 2}}, ok \in BOOLEAN : Use /\ R!Rewind(t, k, ok)
                  /\ IF ok THEN from' = inst' /\ shown' = {} /\ old' = R!Live ELSE Aux
           \/ \E s \in {1, 2} : Use /\ Len(cbs) < 2 /\ R!Register(s, Len(cbs) + 1) /\ old' = (IF phase = "start" THEN old \cup {Len(cbs) + 1} ELSE old) /\ UNCHANGED <<from, shown>>
           \/ \E c \in DOMAIN cbs : Use /\ R!Unregister(c) /\ old' = old \ {c} /\ UNCHANGED <<from, shown>>
           \/ Use /\ running /\ phase = "run" /\ R!Stop /\ Aux
           \/ R!End /\ Aux /\ UNCHANGED left
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* at the end, whoever was watching has been shown every change since *)
Complete == phase = "end" /\ running => \A c \in old : \A t \in R!Times(cbs[c]) : t > from => <<c, t>> \in shown
(* nothing is shown that isn't a change, or from before *)
Sound == \A p \in shown : p[2] >= from /\ (cbs[p[1]] # 0 => p[2] \in R!Times(cbs[p[1]]))
(* forwards unless rewound *)
Forward == [][inst' < inst => from' = inst' /\ shown' = {}]_vars
(* a rewind lands on a rising edge strictly before, and the edge can be seen there *)
Lands == [][from' # from => /\ \E s \in new' : R!At(s, from') = <<1>> /\ R!At(s, base') # <<1>>
                            /\ \A s \in new' : R!Values(s)' = {<<1>>}]_vars
(* what is read is recorded *)
Recorded == \A s \in R!Sigs : inst # -1 => R!Values(s) \subseteq {R!At(s, inst), R!At(s, inst - 1)}
Bounded == <>[](phase = "end")
=================================================================================
