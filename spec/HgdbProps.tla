------------------------------- MODULE HgdbProps -------------------------------
(***************************************************************************)
(* What the states and steps of HgdbCore have to satisfy, stated           *)
(* independently of how the transitions are written.                       *)
(***************************************************************************)
EXTENDS HgdbCore

StateInv(dz, s) ==
    (* entries are in execution order, one normal entry per breakpoint and namespace (C05) *)
    /\ \A i, j \in 1 .. Len(s.bps) : i < j => s.bps[i].p <= s.bps[j].p
    /\ \A i, j \in 1 .. Len(s.bps) :
         i < j /\ s.bps[i].ty = "n" /\ s.bps[j].ty = "n" => <<s.bps[i].p, s.bps[i].ns>> # <<s.bps[j].p, s.bps[j].ns>>
    (* every data breakpoint has its watch and every data watch a breakpoint (C06) *)
    /\ \A ns \in NS(dz) :
         {w.sig : w \in DataWatches(s, ns)} = {e.sig : e \in {x \in Range(s.bps) : x.ty = "d" /\ x.ns = ns}}
    (* watch ids are unique and below the counter (C07) *)
    /\ \A ns \in NS(dz) : /\ \A w \in Range(s.mon[ns]) : w.id < s.nid[ns]
                          /\ Cardinality({w.id : w \in Range(s.mon[ns])}) = Len(s.mon[ns])
    (* a history never holds more than its depth (C08) *)
    /\ \A x \in Range(s.del) : Len(x.buf) <= x.dep /\ x.buf # <<>>
    (* detached: no way to stop (C15) *)
    /\ s.pc \in {"stop", "pause"} => s.run
    /\ s.fin > 0 => s.pc \in {"idle", "eval"} /\ s.cl = {}

EnabledNow(dz, s, e) ==      \* what "enabled" means to the user
    /\ e.ok
    /\ CondTrue(dz, s, e)
    /\ (e.tr = <<>> \/ e.tv = <<>> \/ e.tv # TrigNow(dz, s, e))
    /\ (e.ty = "d" => s.cell[e.ns][dz.grp[e.sig]] # s.mem[e.ns][e.sig])

(* one round of the evaluation loop *)
LookProp(dz, s, t) ==
    (* continue: forwards, nothing enabled is skipped, nothing is looked at twice (C01) *)
    /\ s.mode = "cont" =>
         /\ t.cyc = s.cyc /\ t.mem = s.mem
         /\ t.pc = "idle" => \A e \in Range(s.bps) : e.ev \/ e.p < s.cur
         /\ t.pc # "idle" =>
              /\ t.cur >= s.cur
              /\ \E k \in 1 .. Len(s.bps) : ~s.bps[k].ev /\ t.bps[k].ev
              /\ \A k \in 1 .. Len(s.bps) : s.bps[k].ev => t.bps[k].ev
              /\ \A k \in 1 .. Len(s.bps) :   \* passed over
                   ~s.bps[k].ev /\ ~t.bps[k].ev => s.bps[k].p < s.cur \/ s.bps[k].p >= t.cur
              /\ (t.pc = "stop") = \E k \in 1 .. Len(s.bps) : ~s.bps[k].ev /\ t.bps[k].ev /\ EnabledNow(dz, s, s.bps[k])
    (* stepping moves one statement and ignores what is inserted (C02) *)
    /\ s.mode = "over" /\ t.pc # "idle" => t.cur = s.cur + 1 /\ t.cyc = s.cyc /\ t.bps = s.bps
    /\ s.mode = "over" /\ t.pc = "idle" => s.cur = Len(dz.bps)
    /\ s.mode = "back" /\ t.pc = "stop" =>
         \/ t.cur = s.cur - 1 /\ t.cyc = s.cyc
         \/ s.cur = 1 /\ t.cur = Len(dz.bps) /\ t.cyc = s.cyc - 1 /\ dz.rewind
         \/ s.cur = 1 /\ t.cur = 1 /\ t.cyc = s.cyc /\ (~dz.rewind \/ s.cyc <= 1)
    (* reverse: backwards, in the current edge first, then the edge before (C03) *)
    /\ s.mode = "rev" /\ t.pc = "stop" =>
         /\ t.cyc \in {s.cyc, s.cyc - 1}
         /\ t.cyc = s.cyc - 1 => dz.rewind /\ \A e \in Range(s.bps) : e.ev \/ (s.cur # 0 /\ e.p > s.cur)
         /\ t.cyc = s.cyc /\ CanRewind(dz, s) => s.cur = 0 \/ t.cur <= s.cur
    (* frozen: at a stop nothing of the design changes (C04) *)
    /\ t.pc = "stop" => ~t.tok
    (* the mode only changes to turn around when there is nothing before (C02, C03) *)
    /\ t.mode # s.mode => <<s.mode, t.mode>> \in {<<"back", "over">>, <<"rev", "cont">>} /\ t.pc = "eval"
    /\ s.mode = "none" => t.pc = "idle"
=============================================================================
