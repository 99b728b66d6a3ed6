-------------------------------- MODULE HgdbMC --------------------------------
(***************************************************************************)
(* Exhaustive exploration of HgdbCore for a finite list of actions         *)
(* (design.acts, after design.prefix) up to design.maxlen actions, modulo  *)
(* the state itself: the log is not part of the VIEW, so every state is    *)
(* expanded once, and every transition is written out together with a      *)
(* path to it, to be replayed against the implementation.                  *)
(***************************************************************************)
EXTENDS HgdbProps

OutFile == IOEnv.OUT

VARIABLES di, s, o, log
vars == <<di, s, o, log>>
D == Designs[di]

LogEntry(a, out, st) == [a |-> a, out |-> out, pc |-> st.pc, time |-> Time(st), cyc |-> st.cyc, att |-> st.att,
                         fin |-> st.fin, cl |-> st.cl]
Emit(l) == Len(l) < Len(D.prefix) \/
    Serialize(ToJson([design |-> di, log |-> l]) \o "\n", OutFile,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Set(st, a, out) ==
    /\ s' = st
    /\ o' = [a |-> a, out |-> out]
    /\ log' = IF st.pc = "eval" THEN log ELSE Append(log, LogEntry(a, out, st))
    /\ st.pc = "eval" \/ Emit(log')
    /\ UNCHANGED di
CanDo(st, a) ==
    CASE a.k = "connect" -> st.fin = 0 /\ a.c \notin st.cl
      [] a.k = "tick" -> st.pc = "idle" /\ st.cyc < D.maxcyc
      [] a.k = "assert" -> st.pc = "idle" /\ st.fin = 0
      [] a.k = "initdb" -> st.fin = 0
      [] OTHER -> a.c \in st.cl /\ st.fin = 0

Init == /\ di \in 1 .. Len(Designs)
        /\ s = S0(Designs[di])
        /\ o = [a |-> [k |-> "init"], out |-> NoOut]
        /\ log = <<>>
Step(a) == LET r == Do(D, s, a) IN Len(r.s.bps) <= D.maxent /\ Set(r.s, a, r.out)
ASSUME TLCSet(7, FALSE)
Cap == atoi(IOEnv.MCCAP)
Next ==
    IF TLCGet("generated") > Cap /\ s.pc # "eval" THEN ~TLCGet(7) /\ TLCSet(7, TRUE) /\ PrintT("MCCAP reached") /\ FALSE
    ELSE IF s.pc = "eval" THEN LET r == Look(D, s) IN Set(r.s, o.a, Cat(o.out, r.out))
    ELSE IF Len(log) < Len(D.prefix) THEN Step(D.prefix[Len(log) + 1])
    ELSE /\ Len(log) < Len(D.prefix) + D.maxlen
         /\ \E i \in 1 .. Len(D.acts) : CanDo(s, D.acts[i]) /\ Step(D.acts[i])
Spec == Init /\ [][Next]_vars

View == <<di, s, IF s.pc = "eval" \/ Len(log) < Len(D.prefix) THEN <<o, Len(log)>> ELSE <<>>>>
Inv == StateInv(D, s)
StepInv == [][s.pc = "eval" => LookProp(D, s, s')]_vars
=============================================================================
