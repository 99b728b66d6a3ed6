-------------------------------- MODULE HgdbSim --------------------------------
(***************************************************************************)
(* Random behaviours of HgdbCore, written as JSON lines for replay against *)
(* the implementation.  Run with tlc -simulate; the environment gives      *)
(* DESIGNS (designs with pools of parameters), PROFILE (what to do how     *)
(* often in which situation) and OUT (the file the behaviours go to).      *)
(***************************************************************************)
EXTENDS HgdbProps

Profile == JsonDeserialize(IOEnv.PROFILE)
OutFile == IOEnv.OUT

VARIABLES di, s, o, log
vars == <<di, s, o, log>>
D == Designs[di]

Pick(seq) == seq[RandomElement(1 .. Len(seq))]
AnyClient(st) == RandomElement(st.cl)

RandAct(dz, st, kind) ==
    LET q == dz.pool
        c == IF st.cl = {} THEN 1 ELSE AnyClient(st)
    IN CASE kind = "connect" -> [k |-> kind, c |-> RandomElement(Clients \ st.cl)]
         [] kind = "close" -> [k |-> kind, c |-> c, how |-> Pick(<<"ws", "rst">>)]
         [] kind = "tick" -> [k |-> kind]
         [] kind \in {"initdb", "endsim"} -> [k |-> kind]
         [] kind = "assert" -> [k |-> kind, loc |-> Pick(q.loc), ns |-> Pick(q.ans)]
         [] kind \in {"conn", "map"} -> [k |-> kind, c |-> c, m |-> Pick(q.map)]
         [] kind = "bad" -> [k |-> kind, c |-> c, b |-> RandomElement(1 .. q.nbad)]
         [] kind = "opt" -> [k |-> kind, c |-> c, name |-> Pick(q.opt), v |-> Pick(<<TRUE, TRUE, FALSE>>)]
         [] kind = "bpadd" -> [k |-> kind, c |-> c, loc |-> Pick(q.loc), uc |-> Pick(q.uc)]
         [] kind \in {"bprem", "bploc", "bpfile"} -> [k |-> kind, c |-> c, loc |-> Pick(q.loc)]
         [] kind = "idadd" -> [k |-> kind, c |-> c, bp |-> Pick(q.bp), uc |-> Pick(q.uc)]
         [] kind = "idrem" -> [k |-> kind, c |-> c, bp |-> Pick(q.bp)]
         [] kind = "eval" -> [k |-> kind, c |-> c, e |-> RandomElement(1 .. Len(dz.evals)), bp |-> Pick(q.xbp),
                              inst |-> Pick(q.xinst), ns |-> Pick(q.ns)]
         [] kind = "set" -> [k |-> kind, c |-> c, n |-> Pick(q.name), v |-> Pick(q.val), bp |-> Pick(q.xbp),
                             inst |-> Pick(q.xinst), ns |-> Pick(q.ns)]
         [] kind = "mon" -> [k |-> kind, c |-> c, n |-> Pick(q.name), kind |-> Pick(<<"clock_edge", "breakpoint">>),
                             bp |-> Pick(q.xbp), inst |-> Pick(q.xinst), ns |-> Pick(q.ns)]
         [] kind = "unmon" -> LET ns == Pick(q.ns)
                              IN [k |-> kind, c |-> c, ns |-> ns,
                                  id |-> RandomElement(0 .. st.nid[IF ns # None /\ ns < dz.nns THEN ns + 1 ELSE 1])]
         [] kind \in {"dadd", "dinfo"} -> LET x == Pick(q.assign)
                                          IN [k |-> kind, c |-> c, var |-> x.var, bp |-> x.bp, uc |-> Pick(q.uc), ns |-> Pick(q.ns)]
         [] kind = "drem" -> [k |-> kind, c |-> c, bp |-> Pick(q.assign).bp, ns |-> Pick(q.ns)]
         [] kind = "jump" -> [k |-> "cmd", c |-> c, cmd |-> "jump", t |-> RandomElement(0 .. 10 * st.cyc + 12)]
         [] kind \in {"continue", "step_over", "step_back", "reverse_continue", "stop"} ->
              [k |-> "cmd", c |-> c, cmd |-> kind, t |-> 0]
         [] OTHER -> [k |-> kind, c |-> c]

KindOk(st, kind) ==
    CASE kind = "connect" -> st.fin = 0 /\ st.cl # Clients
      [] kind = "tick" -> st.pc = "idle"
      [] kind \in {"assert", "endsim"} -> st.pc = "idle" /\ st.fin = 0
      [] kind = "initdb" -> st.fin = 0
      [] OTHER -> st.cl # {} /\ st.fin = 0

Situation(st) == IF st.cl = {} THEN "alone" ELSE st.pc
Choice(dz, st) ==
    LET ks == SelectSeq(Profile.w[Situation(st)], LAMBDA k : KindOk(st, k))
    IN IF ks = <<>> THEN <<>> ELSE <<RandAct(dz, st, Pick(ks))>>

Entry1(pend, r) == [a |-> pend.a, out |-> Cat(pend.out, r.out), st |-> r.s]
LogEntry(e) == [a |-> e.a, out |-> e.out, pc |-> e.st.pc, time |-> Time(e.st), cyc |-> e.st.cyc, att |-> e.st.att,
                fin |-> e.st.fin, cl |-> e.st.cl]

Step(a) ==     \* the external action a
    LET r == Do(D, s, a)
    IN /\ s' = r.s
       /\ o' = [a |-> a, out |-> r.out]
       /\ log' = IF r.s.pc = "eval" THEN log ELSE Append(log, LogEntry([a |-> a, out |-> r.out, st |-> r.s]))
       /\ UNCHANGED di
Inner ==
    LET r == Look(D, s)
        out == Cat(o.out, r.out)
    IN /\ s' = r.s
       /\ o' = [o EXCEPT !.out = out]
       /\ log' = IF r.s.pc = "eval" THEN log ELSE Append(log, LogEntry([a |-> o.a, out |-> out, st |-> r.s]))
       /\ UNCHANGED di

Fits(a) == Len(Do(D, s, a).s.bps) <= D.maxent
Finish == /\ Len(log) < 9999
          /\ Serialize(ToJson([design |-> di, log |-> log]) \o "\n", OutFile,
                       [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
          /\ o' = [a |-> [k |-> "end"], out |-> NoOut]
          /\ UNCHANGED <<di, s, log>>

Init == /\ di \in 1 .. Len(Designs)
        /\ s = S0(Designs[di])
        /\ o = [a |-> [k |-> "init"], out |-> NoOut]
        /\ log = <<>>
Next ==
    /\ o.a.k # "end"
    /\ IF s.pc = "eval" THEN Inner
       ELSE IF Len(log) < Len(Profile.prefix) THEN Step(Profile.prefix[Len(log) + 1])
       ELSE IF Len(log) >= Profile.len \/ o.a.k = "endsim" THEN Finish
       ELSE \E ch \in {Choice(D, s)} :
              IF ch = <<>> THEN Finish
              ELSE IF Fits(ch[1]) \/ s.cl = {} THEN Step(ch[1]) ELSE Step([k |-> "iopts", c |-> Min(s.cl)])
Spec == Init /\ [][Next]_vars

Inv == StateInv(D, s)
StepInv == [][s.pc = "eval" => LookProp(D, s, s')]_vars
=============================================================================
