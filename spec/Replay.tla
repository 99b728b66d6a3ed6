--------------------------------- MODULE Replay ---------------------------------
(***************************************************************************)
(* Replay of a recorded waveform behind the simulator interface: value     *)
(* change callbacks in time order, reads inside callbacks, rewinding to    *)
(* the clock edge before a time, and going forward again from there.       *)
(*                                                                         *)
(* A waveform W: sigs, a sequence of [w, ch, elem]; ch is the recording of *)
(* a signal, a sequence of <<time, bits>>, times ascending, bits as        *)
(* written (highest first; 0, 1, 2 for x, 3 for z), leading bits may be    *)
(* left out; consecutive entries differ. refs, a sequence of [sig, lo, w]: *)
(* what a name stands for (an element of a packed array is a range of its  *)
(* signal), sig 0: no such name. start: where the replay starts.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE W          \* the waveform, never changes
VARIABLES now,      \* everything up to this time has been presented
          inst,     \* the time being presented, -1: none
          base,     \* what the other signals read: their last value at or before this
          new,      \* the signals whose change is being presented
          pend,     \* callbacks still due for this time
          gone,     \* signals whose only callback was removed before it was called for this time
          may,      \* callbacks that may or may not be called for this time
          orig,     \* the time the callback being executed is called for
          cbs,      \* callback -> signal, 0: removed
          running, phase
vars == <<now, inst, base, new, pend, gone, may, orig, cbs, running, phase>>

Sigs == 1 .. Len(W.sigs)
Ch(s) == W.sigs[s].ch
(* recorded value of s: its last one at or before t, <<>> if there is none *)
At(s, t) == LET k == Cardinality({i \in 1 .. Len(Ch(s)) : Ch(s)[i][1] <= t}) IN IF k = 0 THEN <<>> ELSE Ch(s)[k][2]
Times(s) == {Ch(s)[i][1] : i \in 1 .. Len(Ch(s))}
(* rising edges. what a signal has at time 0 is where it starts, not an edge *)
Edges(s) == {t \in Times(s) : t > 0 /\ At(s, t) = <<1>>}
Live == {c \in DOMAIN cbs : cbs[c] # 0}
Coming == {t \in UNION {Times(cbs[c]) : c \in Live} : t > now}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Due(t) == {c \in Live : t \in Times(cbs[c])}

(* ----- what a name reads ----- *)
(* whether a change without a callback left to present it is presented is left open *)
Values(s) == IF s \in new THEN {At(s, inst)} ELSE IF s \in gone THEN {At(s, inst), At(s, base)} ELSE {At(s, base)}
Bit(v, i) == IF i < Len(v) THEN v[Len(v) - i] ELSE 0         \* bit i of a value as written, lowest 0
Bits(r) == {[i \in 1 .. r.w |-> Bit(v, r.lo + i - 1)] : v \in Values(r.sig)}      \* lowest first
Unknown(b) == \E i \in 1 .. Len(b) : b[i] > 1
Int32(b) == [i \in 1 .. 32 |-> IF Unknown(b) \/ i > Len(b) THEN 0 ELSE b[i]]

(* ----- actions ----- *)
Init == /\ now = W.start /\ inst = -1 /\ base = W.start /\ new = {} /\ pend = {} /\ gone = {} /\ may = {} /\ orig = -1 /\ cbs = <<>> /\ running = TRUE /\ phase = "off"
Start == /\ phase = "off" /\ phase' = "start" /\ UNCHANGED <<now, inst, base, new, pend, gone, may, orig, cbs, running>>
Fire(c, t) ==
    /\ phase \in {"start", "run"} /\ phase' = "run"
    /\ \/ /\ pend \cup may # {} /\ t = inst /\ c \in pend \cup may
          /\ pend' = pend \ {c} /\ may' = may \ {c} /\ new' = new \cup {cbs[c]}
          /\ UNCHANGED <<now, inst, base, gone, orig>>
       \/ /\ pend = {} /\ running /\ Coming # {} /\ t = Min(Coming) /\ c \in Due(t)
          /\ now' = t /\ inst' = t /\ orig' = t /\ base' = t - 1 /\ pend' = Due(t) \ {c} /\ gone' = {} /\ may' = {} /\ new' = {cbs[c]}
    /\ UNCHANGED <<cbs, running>>
Rewind(t, clks, ok) ==
    LET before == {e \in UNION {Edges(s) : s \in clks} : e < t} IN
    /\ phase = "run"
    /\ ok = (before # {})
    /\ IF ok THEN LET e == Max(before) IN
                  /\ now' = e /\ inst' = e /\ base' = e - 1 /\ pend' = {}
                  \* going back is the end of what was being presented, except when it ends up there again
                  /\ may' = IF e = orig THEN Due(e) ELSE {}
                  /\ new' = {s \in clks : e \in Edges(s)} /\ gone' = {}
       ELSE UNCHANGED <<now, inst, base, pend, gone, may, new>>
    /\ UNCHANGED <<orig, cbs, running, phase>>
Register(s, c) ==
    /\ phase \in {"start", "run"} /\ c = Len(cbs) + 1
    /\ cbs' = Append(cbs, s)
    \* whether it already sees the change of this instant is left open
    /\ may' = IF phase = "run" /\ inst \in Times(s) THEN may \cup {c} ELSE may
    /\ UNCHANGED <<now, inst, base, new, pend, gone, orig, running, phase>>
Unregister(c) ==
    /\ c \in Live
    /\ cbs' = [cbs EXCEPT ![c] = 0] /\ pend' = pend \ {c} /\ may' = may \ {c}
    /\ gone' = IF c \in pend \cup may THEN gone \cup {cbs[c]} ELSE gone
    /\ UNCHANGED <<now, inst, base, new, orig, running, phase>>
(* the rest of this instant may or may not be presented *)
Stop == /\ running' = FALSE /\ may' = may \cup pend /\ pend' = {}
        /\ UNCHANGED <<now, inst, base, new, gone, orig, cbs, phase>>
End == /\ phase \in {"start", "run"} /\ pend = {} /\ (~running \/ Coming = {})
       /\ phase' = "end" /\ UNCHANGED <<now, inst, base, new, pend, gone, may, orig, cbs, running>>
=================================================================================
