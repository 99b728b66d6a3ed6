------------------------------ MODULE ReplayTrace -------------------------------
(* Logs of the replay engine, step by step against Replay.tla. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES j, i, now, inst, base, new, pend, gone, may, orig, cbs, running, phase
vars == <<j, i, now, inst, base, new, pend, gone, may, orig, cbs, running, phase>>
Waves == Job.waves
Wave == Waves[Job.logs[j].w]
R == INSTANCE Replay WITH W <- Wave
Log == Job.logs[j].log
E == Log[i]

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
NoZeros(s) == LET n == {k \in 1 .. Len(s) : s[k] # "0"} IN IF n = {} THEN <<>> ELSE SubSeq(s, R!Min(n), Len(s))
Written(b) == NoZeros([k \in 1 .. Len(b) |-> <<"0", "1", "x", "z">>[b[Len(b) + 1 - k] + 1]])
Group(g) == IF \A k \in 1 .. Len(g) : g[k] = 2 THEN "x" ELSE IF \E k \in 1 .. Len(g) : g[k] = 2 THEN "X"
            ELSE IF \A k \in 1 .. Len(g) : g[k] = 3 THEN "z" ELSE IF \E k \in 1 .. Len(g) : g[k] = 3 THEN "Z"
            ELSE Digit[1 + FoldLeft(LAMBDA a, k : a + (IF g[k] = 1 THEN 2 ^ (k - 1) ELSE 0), 0, [k \in 1 .. Len(g) |-> k])]
HexOf(b) == LET n == (Len(b) + 3) \div 4
            IN NoZeros([k \in 1 .. n |-> LET lo == 4 * (n - k) IN Group(SubSeq(b, lo + 1, IF lo + 4 > Len(b) THEN Len(b) ELSE lo + 4))])
(* a callback shows its signal as a number, so an unknown value shows as 0 while it is presented *)
Plain(r, b) == IF r.sig \in new /\ R!Unknown(b) THEN [k \in 1 .. Len(b) |-> 0] ELSE b
Read == LET r == Wave.refs[E.r] IN
        IF r.sig = 0 THEN ~E.known
        ELSE E.known /\ \E d \in R!Bits(r) : LET b == Plain(r, d) IN
              E.int = R!Int32(b) /\ NoZeros(E.bin) = Written(b) /\ NoZeros(E.hex) = HexOf(b) /\ (Wave.sizes => E.size = r.w)
Same == UNCHANGED <<now, inst, base, new, pend, gone, may, orig, cbs, running, phase>>
Step == /\ i <= Len(Log) /\ i' = i + 1 /\ j' = j
        /\ CASE E.e = "start" -> R!Start
             [] E.e = "fire" -> R!Fire(E.cb, E.t) /\ E.v = R!Int32(LET v == R!At(cbs[E.cb], E.t) IN [k \in 1 .. Wave.sigs[cbs[E.cb]].w |-> R!Bit(v, k - 1)])
             [] E.e = "read" -> Read /\ Same
             [] E.e = "time" -> E.t = (IF inst = -1 THEN Wave.start ELSE inst) /\ Same
             [] E.e = "rewind" -> R!Rewind(E.t, {E.clks[k] : k \in 1 .. Len(E.clks)}, E.ok) /\ E.now = inst'
             [] E.e = "reg" -> E.ok /\ R!Register(E.s, E.cb)
             [] E.e = "rem" -> E.ok /\ R!Unregister(E.cb)
             [] E.e = "stop" -> R!Stop
             [] E.e = "end" -> R!End
             [] OTHER -> FALSE
Init == j \in 1 .. Len(Job.logs) /\ i = 1 /\ R!Init
Finished == i > Len(Log) /\ phase = "end"
Next == Step
Spec == Init /\ [][Next]_vars
(* where a log leaves the specification *)
Told == ~ENABLED Step => Finished \/ Print(<<"STUCK", j, i>>, TRUE)
=================================================================================
