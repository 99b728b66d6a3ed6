------------------------------- MODULE HgdbCore -------------------------------
(***************************************************************************)
(* The debugger runtime of hgdb as seen from its clients: the breakpoint   *)
(* scheduler, the evaluation loop run at every rising clock edge, the      *)
(* stop/resume handshake, breakpoints, data breakpoints, assertions,       *)
(* monitors, delayed variables, stop reports, values, options and          *)
(* attach/detach.                                                          *)
(*                                                                         *)
(* A step is one external event (a request of a client, a connection, a    *)
(* clock edge of the simulator) or, while pc = "eval", one round of the    *)
(* evaluation loop (Look).  Every operator is a function from state to     *)
(* state, so the same text is explored exhaustively (HgdbMC), sampled      *)
(* (HgdbSim) and replayed against the real code.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

Designs == JsonDeserialize(IOEnv.DESIGNS)

Clients == 1 .. 3
None == -1

-----------------------------------------------------------------------------
(* Access to the design.  dz is a design record.                           *)
NS(dz) == 1 .. dz.nns
BpOf(dz, id) ==      \* position of a breakpoint id in the execution order, 0 if there is none
    LET S == {i \in 1 .. Len(dz.bps) : dz.bps[i].id = id} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
InstOf(dz, id) ==
    LET S == {i \in 1 .. Len(dz.insts) : dz.insts[i].id = id} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Sigs(dz) == DOMAIN dz.width
IsSig(dz, n) == n \in DOMAIN dz.width
FullName(dz, ns, iname) ==    \* symbol table name -> name in the test bench
    IF iname = dz.top THEN dz.tops[ns]
    ELSE dz.tops[ns] \o SubSeq(iname, Len(dz.top) + 1, Len(iname))
ToClient(dz, m, f) == dz.maps[m].toclient[f]
ToDb(dz, m, f) == IF f \in DOMAIN dz.maps[m].todb THEN dz.maps[m].todb[f] ELSE f
AtLoc(dz, m, loc) ==          \* positions of the breakpoints at a location
    SelectSeq([i \in 1 .. Len(dz.bps) |-> i],
              LAMBDA i : /\ dz.bps[i].file = ToDb(dz, m, loc.file)
                         /\ dz.bps[i].line = loc.line
                         /\ (loc.col = 0 \/ dz.bps[i].col = loc.col))
InFile(dz, m, f) ==
    SelectSeq([i \in 1 .. Len(dz.bps) |-> i], LAMBDA i : dz.bps[i].file = ToDb(dz, m, f))

LastIdx(seq, P(_)) ==
    LET S == {i \in 1 .. Len(seq) : P(seq[i])} IN IF S = {} THEN 0 ELSE Max(S)
FirstIdx(seq, P(_)) ==
    LET S == {i \in 1 .. Len(seq) : P(seq[i])} IN IF S = {} THEN 0 ELSE Min(S)

-----------------------------------------------------------------------------
(* Names.  p is a breakpoint position (0: none), i an instance index       *)
(* (0: none).  The result is <<"s", ns, signal>>, <<"c", constant>>,       *)
(* <<"t">> (time), <<"i">> (instance id) or <<"bad">>.                     *)
ScopedBp(dz, p, n) ==         \* latest declaration of a local variable; "" if there is none
    LET c == dz.bps[p].ctx
        k == LastIdx(c, LAMBDA x : x.name = n \/ (x.rtl /\ x.value = n))
    IN IF k = 0 THEN "" ELSE IF c[k].rtl THEN dz.insts[dz.bps[p].i].name \o "." \o c[k].value ELSE c[k].value
ScopedInst(dz, i, n) ==
    LET g == dz.insts[i].gen
        k == FirstIdx(g, LAMBDA x : x.name = n \/ (x.rtl /\ x.value = n))
    IN IF k = 0 THEN "" ELSE IF g[k].rtl THEN dz.insts[i].name \o "." \o g[k].value ELSE g[k].value
Raw(dz, ns, n) ==
    IF IsSig(dz, n) THEN <<"s", ns, n>>
    ELSE IF n \in DOMAIN dz.full THEN <<"s", dz.full[n][1], dz.full[n][2]>> ELSE <<"bad">>
Resolve(dz, ns, p, i, n) ==
    IF n = "$time" THEN <<"t">>
    ELSE IF n = "$instance" THEN <<"i">>
    ELSE LET k == IF p = 0 THEN 0 ELSE LastIdx(dz.bps[p].ctx, LAMBDA x : x.name = n)
         IN IF k # 0 /\ ~dz.bps[p].ctx[k].rtl /\ dz.bps[p].ctx[k].num # None
            THEN <<"c", dz.bps[p].ctx[k].num>>
            ELSE LET b == IF p = 0 THEN "" ELSE ScopedBp(dz, p, n)
                     j == IF p # 0 THEN dz.bps[p].i ELSE i
                     g == IF b # "" \/ j = 0 THEN "" ELSE ScopedInst(dz, j, n)
                     m == IF b # "" THEN b ELSE IF g # "" THEN g
                          ELSE IF j # 0 THEN dz.insts[j].name \o "." \o n ELSE n
                 IN IF IsSig(dz, m) THEN <<"s", ns, m>> ELSE Raw(dz, ns, n)

(* Expressions: <<"n", k>>, <<"v", name>>, <<"!", a>>, <<op, a, b>>, <<"bad">> *)
RECURSIVE Valid(_, _, _, _, _)
Valid(dz, ns, p, i, e) ==
    CASE e[1] = "bad" -> FALSE
      [] e[1] = "n" -> TRUE
      [] e[1] = "v" -> Resolve(dz, ns, p, i, e[2])[1] # "bad"
      [] e[1] \in {"!", "neg"} -> Valid(dz, ns, p, i, e[2])
      [] OTHER -> Valid(dz, ns, p, i, e[2]) /\ Valid(dz, ns, p, i, e[3])
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Val(_, _, _, _, _, _, _)
Val(dz, s, ns, p, i, iid, e) ==
    CASE e[1] = "n" -> e[2]
      [] e[1] = "v" -> LET r == Resolve(dz, ns, p, i, e[2])
                       IN (CASE r[1] = "s" -> s.mem[r[2]][r[3]]
                             [] r[1] = "c" -> r[2]
                             [] r[1] = "t" -> IF s.cyc = 0 THEN 0 ELSE 10 * s.cyc + s.ph
                             [] r[1] = "i" -> iid)
      [] e[1] = "!" -> B(Val(dz, s, ns, p, i, iid, e[2]) = 0)
      [] e[1] = "neg" -> 0 - Val(dz, s, ns, p, i, iid, e[2])
      [] OTHER ->
           LET a == Val(dz, s, ns, p, i, iid, e[2])
               b == Val(dz, s, ns, p, i, iid, e[3])
           IN CASE e[1] = "&&" -> B(a # 0 /\ b # 0)
                [] e[1] = "||" -> B(a # 0 \/ b # 0)
                [] e[1] = "==" -> B(a = b)
                [] e[1] = "!=" -> B(a # b)
                [] e[1] = "<" -> B(a < b)
                [] e[1] = ">" -> B(a > b)
                [] e[1] = "<=" -> B(a <= b)
                [] e[1] = ">=" -> B(a >= b)
                [] e[1] = "+" -> a + b
                [] e[1] = "-" -> a - b
                [] e[1] = "*" -> a * b

-----------------------------------------------------------------------------
(* Values as text.                                                         *)
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
RECURSIVE HexStr(_)
HexStr(v) == IF v < 16 THEN HexDigit[v + 1] ELSE HexStr(v \div 16) \o HexDigit[(v % 16) + 1]
RECURSIVE Pad(_, _)
Pad(str, n) == IF Len(str) >= n THEN str ELSE Pad("0" \o str, n)
ValStr(v, hex, width) ==
    IF ~hex \/ width = 1 THEN ToString(v)
    ELSE IF width = 0 THEN "0x" \o HexStr(v)
    ELSE "0x" \o Pad(HexStr(v), (width + 3) \div 4)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

-----------------------------------------------------------------------------
(* State *)
Time(s) == IF s.cyc = 0 THEN 0 ELSE 10 * s.cyc + s.ph
Row(dz, k) == dz.stim[(k % Len(dz.stim)) + 1]
Load(dz, mem, k) == [ns \in NS(dz) |-> [x \in Sigs(dz) |->
                        IF x \in DOMAIN Row(dz, k)[ns] THEN Row(dz, k)[ns][x] ELSE mem[ns][x]]]
Opt0 == [single_thread_mode |-> FALSE, log_enabled |-> FALSE, detach_after_disconnect |-> FALSE,
         use_hex_str |-> FALSE, pause_at_posedge |-> FALSE, perf_count |-> FALSE, use_signal_cache |-> FALSE]
\* a simulator that can't be interrupted goes on by itself; Verilator has no clock callbacks but calls back at every time step
S0(dz) == [cl |-> {}, att |-> dz.kind = "verilator", run |-> TRUE, mode |-> "cont", cur |-> 0, bps |-> <<>>, tok |-> FALSE,
           opt |-> [Opt0 EXCEPT !.detach_after_disconnect = (dz.kind = "vcs")], mem |-> Load(dz, [ns \in NS(dz) |-> [x \in Sigs(dz) |-> 0]], 0), cyc |-> 0, ph |-> 0,
           mon |-> [ns \in NS(dz) |-> <<>>], nid |-> [ns \in NS(dz) |-> 0],
           cell |-> [ns \in NS(dz) |-> [g \in 1 .. dz.ngrp |-> None]], del |-> <<>>,
           pc |-> "boot", miss |-> <<>>, pm |-> 1, db |-> ~dz.late, fin |-> 0]

NoOut == [c \in Clients |-> <<>>]
To(c, m) == [NoOut EXCEPT ![c] = <<m>>]
Bcast(s, ms) == [c \in Clients |-> IF c \in s.cl THEN ms ELSE <<>>]
Cat(a, b) == [c \in Clients |-> a[c] \o b[c]]
Ok == [k |-> "resp", st |-> "ok"]
Err == [k |-> "resp", st |-> "err"]
R(s, out) == [s |-> s, out |-> out]

-----------------------------------------------------------------------------
(* Scheduler.  s.cur is the position in the execution order the user is at *)
(* (0: before the first statement).                                        *)
SetMode(s, m) ==
    IF s.mode = m THEN s
    ELSE [s EXCEPT !.mode = m,
                   !.bps = [k \in 1 .. Len(@) |->
                              IF @[k].ty = "a" /\ @[k].ev THEN @[k]
                              ELSE [@[k] EXCEPT !.ev = (s.cur # 0 /\ s.bps[k].p = s.cur)]]]
GoForward(s) == CASE s.mode = "back" -> SetMode(s, "over")
                  [] s.mode = "rev" -> SetMode(s, "cont")
                  [] OTHER -> s

CanRewind(dz, s) == dz.rewind /\ s.cyc > 1
Rewound(dz, s) == [s EXCEPT !.cyc = @ - 1, !.ph = 0, !.mem = Load(dz, @, s.cyc - 1)]

SameLoc(e, f) == e.file = f.file /\ e.line = f.line /\ e.col = f.col
(* the entries reported together with entry k: contiguous, same location   *)
Group(s, k, fwd) ==
    LET e == s.bps[k]
        N == Len(s.bps)
        run == IF fwd THEN {j \in k + 1 .. N : \A x \in k + 1 .. j : SameLoc(s.bps[x], e)}
               ELSE {j \in 1 .. k - 1 : \A x \in j .. k - 1 : SameLoc(s.bps[x], e)}
        sel == {j \in run : LET f == s.bps[j]
                            IN /\ f.ty # "d" /\ ~f.ev
                               /\ (f.inst # e.inst \/ f.ns # e.ns)
                               /\ f.ct = e.ct}
    IN IF fwd THEN SetToSortSeq(sel, <) ELSE SetToSortSeq(sel, >)

NextCont(s) ==      \* <<>> or the indices of the entries to look at next
    LET S == {k \in 1 .. Len(s.bps) : ~s.bps[k].ev /\ s.bps[k].p >= s.cur}
    IN IF S = {} THEN <<>>
       ELSE LET k == Min(S)
            IN <<k>> \o (IF s.opt.single_thread_mode \/ s.bps[k].ty # "n" THEN <<>> ELSE Group(s, k, TRUE))
AnyLook(s, ks) == IF ks = <<>> THEN s
                  ELSE [s EXCEPT !.cur = s.bps[ks[1]].p,
                                 !.bps = [k \in 1 .. Len(@) |->
                                    IF k \in Range(ks) THEN [@[k] EXCEPT !.ev = TRUE] ELSE @[k]]]

(* The next breakpoints: [s, ks, tp]; ks are entries, tp a position of the *)
(* execution order to look at without an inserted breakpoint (stepping).   *)
NextBps(dz, s) ==
    LET N == Len(dz.bps)
        step(st, p) == [s |-> [st EXCEPT !.cur = p], ks |-> <<>>, tp |-> p]
        nothing == [s |-> s, ks |-> <<>>, tp |-> 0]
    IN CASE s.mode = "none" -> nothing
         [] s.mode = "cont" -> LET ks == NextCont(s) IN [s |-> AnyLook(s, ks), ks |-> ks, tp |-> 0]
         [] s.mode = "over" -> IF s.cur >= N THEN nothing ELSE step(s, s.cur + 1)
         [] s.mode = "back" ->
              IF s.cur = 0 THEN nothing
              ELSE IF s.cur > 1 THEN step(s, s.cur - 1)
              ELSE IF CanRewind(dz, s) THEN step(Rewound(dz, s), N) ELSE step(s, 1)
         [] s.mode = "rev" ->
              IF s.bps = <<>> THEN nothing
              ELSE LET S == {k \in 1 .. Len(s.bps) : ~s.bps[k].ev /\ (s.cur = 0 \/ s.bps[k].p <= s.cur)}
                       back == S = {} /\ CanRewind(dz, s)
                       st == IF back
                             THEN [Rewound(dz, s) EXCEPT !.bps = [k \in 1 .. Len(@) |-> [@[k] EXCEPT !.ev = FALSE]]]
                             ELSE s
                       k == IF S # {} THEN Max(S) ELSE IF back THEN Len(s.bps) ELSE 1
                       ks == <<k>> \o (IF st.opt.single_thread_mode \/ st.bps[k].ty = "d" THEN <<>>
                                       ELSE Group(st, k, FALSE))
                   IN [s |-> AnyLook(st, ks), ks |-> ks, tp |-> 0]

-----------------------------------------------------------------------------
(* Evaluation *)
DbCond(dz, p) == dz.bps[p].cond                   \* <<"n", 1>> if there is none
CondTrue(dz, s, e) ==
    LET v(x) == Val(dz, s, e.ns, e.p, 0, dz.insts[dz.bps[e.p].i].id, x) # 0
    IN /\ (e.ty = "a" \/ v(DbCond(dz, e.p)))
       /\ \A k \in 1 .. Len(e.uc) : v(dz.conds[e.uc[k]].ast)
TrigNow(dz, s, e) == [k \in 1 .. Len(e.tr) |-> s.mem[e.ns][e.tr[k]]]

EvalEntry(dz, acc, k) ==     \* acc = [s, hits]
    LET s == acc.s
        e == s.bps[k]
    IN IF ~e.ok THEN acc
       ELSE LET tv == TrigNow(dz, s, e)
                trig == e.tr = <<>> \/ e.tv = <<>> \/ e.tv # tv
                en == CondTrue(dz, s, e) /\ trig
                v == IF e.ty = "d" THEN s.mem[e.ns][e.sig] ELSE 0
                g == IF e.ty = "d" THEN dz.grp[e.sig] ELSE 0
                changed == e.ty # "d" \/ s.cell[e.ns][g] # v
                s1 == [s EXCEPT !.bps[k].tv = tv]
                s2 == IF e.ty = "d" /\ en THEN [s1 EXCEPT !.cell[e.ns][g] = v] ELSE s1
            IN [s |-> s2, hits |-> IF en /\ changed THEN Append(acc.hits, k) ELSE acc.hits]

-----------------------------------------------------------------------------
(* Messages *)
RtlVal(dz, s, ns, sig) == IF IsSig(dz, sig) THEN ValStr(s.mem[ns][sig], s.opt.use_hex_str, dz.width[sig]) ELSE "ERROR"
DelVal(dz, s, ns, sig, dep) ==
    LET k == FirstIdx(s.del, LAMBDA x : x.ns = ns /\ x.sig = sig /\ x.dep = dep)
    IN IF ~IsSig(dz, sig) \/ k = 0 THEN "ERROR"
       ELSE IF s.del[k].val = None THEN "ERROR"
       ELSE ValStr(s.del[k].val, s.opt.use_hex_str, dz.width[sig])
Locals(dz, s, ns, p) ==
    LET c == dz.bps[p].ctx
        inst == dz.insts[dz.bps[p].i].name
        last == {k \in 1 .. Len(c) : \A j \in k + 1 .. Len(c) : c[j].name # c[k].name}
        v(k) == IF ~c[k].rtl THEN c[k].value
                ELSE IF c[k].delay > 0 THEN DelVal(dz, s, ns, inst \o "." \o c[k].value, c[k].delay)
                ELSE RtlVal(dz, s, ns, inst \o "." \o c[k].value)
        ks == SetToSortSeq(last, <)
    IN [k \in 1 .. Len(ks) |-> <<c[ks[k]].name, v(ks[k])>>]
Gens(dz, s, ns, p) ==
    LET i == dz.bps[p].i
        g == dz.insts[i].gen
        first == {k \in 1 .. Len(g) : \A j \in 1 .. k - 1 : g[j].name # g[k].name}
        v(k) == IF ~g[k].rtl THEN g[k].value ELSE RtlVal(dz, s, ns, dz.insts[i].name \o "." \o g[k].value)
        ks == SetToSortSeq(first, <)
    IN [k \in 1 .. Len(ks) |-> <<g[ks[k]].name, v(ks[k])>>]
Scope(dz, s, p, ns, ty) ==
    [iid |-> dz.insts[dz.bps[p].i].id, iname |-> FullName(dz, ns, dz.insts[dz.bps[p].i].name),
     bid |-> dz.bps[p].id, ns |-> ns - 1, ty |-> IF ty = "d" THEN "data" ELSE "normal",
     loc |-> Locals(dz, s, ns, p), gen |-> Gens(dz, s, ns, p)]
StopMsg(s, file, line, col, scopes) ==
    [k |-> "stop", time |-> Time(s), file |-> file, line |-> line, col |-> col, insts |-> scopes]
MonMsgs(dz, s, kind) ==
    LET one(ns) == LET w == SelectSeq(s.mon[ns], LAMBDA x : x.kind = kind)
                   IN [k \in 1 .. Len(w) |-> [k |-> "mon", id |-> w[k].id, ns |-> w[k].n - 1,
                                              v |-> ValStr(s.mem[w[k].sns][w[k].sig], s.opt.use_hex_str, 0)]]
    IN FlattenSeq([ns \in NS(dz) |-> one(ns)])

-----------------------------------------------------------------------------
(* The evaluation loop *)
EvalStart(dz, s) ==
    IF ~s.db THEN [s EXCEPT !.pc = "idle", !.ph = 5]
    ELSE LET keep == SelectSeq(s.bps, LAMBDA e : ~(e.ty = "a" /\ e.ev))
         IN [s EXCEPT !.pc = "eval", !.miss = <<>>, !.cur = 0,
                      !.bps = [k \in 1 .. Len(keep) |-> [keep[k] EXCEPT !.ev = FALSE]],
                      !.del = [k \in 1 .. Len(@) |->
                         LET x == @[k]
                             nb == Append(x.buf, s.mem[x.ns][x.sig])
                         IN [x EXCEPT !.val = IF Len(x.buf) = x.dep THEN x.buf[1] ELSE None,
                                      !.buf = IF Len(nb) > x.dep THEN Tail(nb) ELSE nb]]]

Look(dz, s0) ==       \* one round while pc = "eval"
    LET nb == NextBps(dz, s0)
        s == nb.s
        none == nb.ks = <<>> /\ nb.tp = 0
        ev == FoldLeft(LAMBDA acc, k : EvalEntry(dz, acc, k), [s |-> s, hits |-> <<>>], nb.ks)
        steps == SelectSeq([ns \in NS(dz) |-> ns],
                           LAMBDA ns : /\ nb.tp # 0
                                       /\ Valid(dz, ns, nb.tp, 0, DbCond(dz, nb.tp))
                                       /\ Val(dz, s, ns, nb.tp, 0, dz.insts[dz.bps[nb.tp].i].id, DbCond(dz, nb.tp)) # 0)
        hit == IF nb.tp # 0 THEN steps # <<>> ELSE ev.hits # <<>>
        id == <<IF nb.ks = <<>> THEN 0 ELSE nb.ks[1], s.cur, Time(s)>>
        msg == IF nb.tp # 0
               THEN LET b == dz.bps[nb.tp]
                    IN StopMsg(s, ToClient(dz, s.pm, b.file), b.line, b.col,
                               [k \in 1 .. Len(steps) |-> Scope(dz, s, nb.tp, steps[k], "n")])
               ELSE LET e == s.bps[ev.hits[1]]
                    IN StopMsg(s, e.file, e.line, e.col,
                               [k \in 1 .. Len(ev.hits) |->
                                  LET f == s.bps[ev.hits[k]] IN Scope(dz, s, f.p, f.ns, f.ty)])
    IN IF none THEN R([s EXCEPT !.pc = "idle", !.ph = 5, !.miss = <<>>], Bcast(s, MonMsgs(dz, s, "clock_edge")))
       ELSE IF hit THEN R([ev.s EXCEPT !.pc = "stop", !.tok = FALSE, !.miss = <<>>],
                          Bcast(s, <<msg>> \o MonMsgs(dz, s, "breakpoint")))
       ELSE IF s.miss = id THEN R([GoForward(ev.s) EXCEPT !.miss = <<>>], NoOut)
       ELSE R([ev.s EXCEPT !.miss = id], NoOut)

Ready(dz, s) ==       \* a resuming command
    CASE s.pc = "boot" -> [s EXCEPT !.pc = "idle"]
      [] s.pc = "stop" -> [s EXCEPT !.pc = "eval"]
      [] s.pc = "pause" -> EvalStart(dz, s)
      [] OTHER -> [s EXCEPT !.tok = TRUE]

Detach(dz, s) ==
    LET s1 == SetMode([s EXCEPT !.att = FALSE], "none")
        s2 == IF s.db THEN s1 ELSE [s EXCEPT !.att = FALSE]
    IN IF s.run THEN Ready(dz, [s2 EXCEPT !.run = FALSE]) ELSE s2

Tick(dz, s) ==
    LET s1 == [s EXCEPT !.cyc = @ + 1, !.ph = 0, !.mem = Load(dz, @, s.cyc + 1)]
    IN IF ~s.att THEN [s1 EXCEPT !.ph = 5]
       ELSE IF s.opt.pause_at_posedge
            THEN IF s.tok THEN EvalStart(dz, [s1 EXCEPT !.tok = FALSE]) ELSE [s1 EXCEPT !.pc = "pause"]
            ELSE EvalStart(dz, s1)

-----------------------------------------------------------------------------
(* Breakpoints *)
Insert(bps, e) ==     \* behind everything that is not later in the execution order
    LET k == Cardinality({j \in 1 .. Len(bps) : bps[j].p <= e.p})
    IN SubSeq(bps, 1, k) \o <<e>> \o SubSeq(bps, k + 1, Len(bps))
CondsOk(dz, ns, p, uc) == \A k \in 1 .. Len(uc) : Valid(dz, ns, p, 0, dz.conds[uc[k]].ast)
Entry(dz, s, p, ns, ty, uc) ==
    LET b == dz.bps[p]
        iname == dz.insts[b.i].name
        tr == [k \in 1 .. Len(b.trig) |-> iname \o "." \o b.trig[k]]
    IN [p |-> p, ns |-> ns, ty |-> ty, uc |-> uc, ok |-> TRUE, ev |-> (ty # "a" /\ s.cur # 0 /\ s.cur = p),
        tr |-> IF \A k \in 1 .. Len(tr) : IsSig(dz, tr[k]) THEN tr ELSE <<>>, tv |-> <<>>,
        ct |-> IF ty = "a" THEN "1" ELSE b.ctext, inst |-> b.i,
        file |-> ToClient(dz, s.pm, b.file), line |-> b.line, col |-> b.col, sig |-> "", var |-> "", id |-> b.id]
UC(c) == IF c = 0 THEN <<>> ELSE <<c>>

TrackDelayed(dz, s, p) ==
    IF \A k \in 1 .. Len(s.bps) : s.bps[k].p # p THEN s
    ELSE LET c == dz.bps[p].ctx
             iname == dz.insts[dz.bps[p].i].name
             add(st, ns, k) ==
                LET sig == iname \o "." \o c[k].value
                IN IF ~c[k].rtl \/ c[k].delay = 0 \/ ~IsSig(dz, sig)
                      \/ \E x \in Range(st.del) : x.ns = ns /\ x.sig = sig /\ x.dep = c[k].delay
                   THEN st
                   ELSE [st EXCEPT !.nid[ns] = @ + 1,
                                   !.mon[ns] = Append(@, [id |-> st.nid[ns], kind |-> "delay", sig |-> sig, n |-> ns, sns |-> ns]),
                                   !.del = Append(@, [ns |-> ns, sig |-> sig, dep |-> c[k].delay,
                                                      buf |-> <<st.mem[ns][sig]>>, val |-> None])]
             perns(st, ns) == FoldLeft(LAMBDA a, k : add(a, ns, k), st, [k \in 1 .. Len(c) |-> k])
         IN FoldLeft(perns, s, [ns \in NS(dz) |-> ns])

AddBp(dz, s, p, c) ==
    LET uc == UC(c)
        has == \E e \in Range(s.bps) : e.p = p /\ e.ty = "n"
        upd == [s EXCEPT !.bps = [k \in 1 .. Len(@) |->
                  IF @[k].p = p /\ @[k].ty = "n"
                  THEN [@[k] EXCEPT !.uc = uc, !.ok = CondsOk(dz, s.bps[k].ns, p, uc)] ELSE @[k]]]
        ins(st, ns) == IF Valid(dz, ns, p, 0, DbCond(dz, p)) /\ CondsOk(dz, ns, p, uc)
                       THEN [st EXCEPT !.bps = Insert(@, Entry(dz, st, p, ns, "n", uc))] ELSE st
    IN TrackDelayed(dz, IF has THEN upd ELSE FoldLeft(ins, s, [ns \in NS(dz) |-> ns]), p)
RemBp(s, P(_)) == [s EXCEPT !.bps = SelectSeq(@, LAMBDA e : ~P(e))]

(* data breakpoints *)
DataWatches(s, ns) == {w \in Range(s.mon[ns]) : w.kind = "data"}
DropUnused(dz, s) ==          \* watches of data breakpoints that are gone
    [s EXCEPT !.mon = [ns \in NS(dz) |->
        SelectSeq(@[ns], LAMBDA w : w.kind # "data" \/
            \E e \in Range(s.bps) : e.ty = "d" /\ e.ns = ns /\ e.sig = w.sig)]]
DataKey(rc, dc) == (IF rc = 0 THEN <<>> ELSE <<rc>>) \o (IF dc = 0 THEN <<>> ELSE <<dc>>)
DataAdd(dz, s, ns, a, c) ==   \* all of an assignment list
    LET addone(st, k) ==
          LET r == a.res[k]
              p == BpOf(dz, r.bp)
              sig == dz.insts[dz.bps[p].i].name \o "." \o r.var
              uc == DataKey(c, r.cond)
              dup == \E e \in Range(st.bps) : e.ty = "d" /\ e.p = p /\ e.ns = ns /\ e.var = r.var /\ e.uc = uc
              g == dz.grp[sig]
              fresh == \A w \in DataWatches(st, ns) : dz.grp[w.sig] # g
              s1 == IF fresh THEN [st EXCEPT !.cell[ns][g] = None] ELSE st
              s2 == IF \E w \in DataWatches(st, ns) : w.sig = sig THEN s1
                    ELSE [s1 EXCEPT !.nid[ns] = @ + 1,
                                    !.mon[ns] = Append(@, [id |-> s1.nid[ns], kind |-> "data", sig |-> sig, n |-> ns, sns |-> ns])]
          IN IF dup THEN s2
             ELSE [s2 EXCEPT !.bps = Insert(@, [Entry(dz, st, p, ns, "d", uc) EXCEPT !.sig = sig, !.var = r.var])]
    IN FoldLeft(addone, s, [k \in 1 .. Len(a.res) |-> k])

(* the namespace a request addresses; 0 if it is ambiguous. nsid: None or given *)
ReqNs(dz, nsid, resolved) ==
    IF nsid # None /\ nsid < dz.nns THEN nsid + 1
    ELSE IF resolved /\ dz.nns > 1 THEN 0 ELSE 1
ReqVar(dz, ns, p, i, hasbp, hasinst, n) ==     \* <<"s", ns, sig>> or <<"bad">>
    LET m == IF hasbp THEN (IF p = 0 THEN "" ELSE ScopedBp(dz, p, n))
             ELSE IF hasinst THEN (IF i = 0 THEN "" ELSE ScopedInst(dz, i, n)) ELSE n
    IN IF m = "" THEN <<"bad">> ELSE Raw(dz, ns, m)

-----------------------------------------------------------------------------
(* Requests.  a.k is the kind, a.c the client.                             *)
NeedDb == {"bpadd", "bprem", "idadd", "idrem", "bploc", "bpfile", "ibps", "ifiles", "map", "eval", "mon", "unmon",
           "set", "dadd", "dinfo", "drem", "dclear"}

Cmd(dz, s, a) ==
    LET go(m) == R(Ready(dz, IF s.db THEN SetMode(s, m) ELSE s), To(a.c, Ok))
        ks == {k \in 1 .. s.cyc : 10 * k < a.t}
    IN CASE a.cmd = "continue" -> go("cont")
         [] a.cmd = "step_over" -> go("over")
         [] a.cmd = "step_back" -> go("back")
         [] a.cmd = "reverse_continue" -> go("rev")
         [] a.cmd = "jump" ->
              IF ~s.db \/ ~dz.rewind \/ ks = {} THEN R(s, To(a.c, Err))
              ELSE R(Ready(dz, [s EXCEPT !.cyc = Max(ks), !.ph = 0, !.mem = Load(dz, @, Max(ks))]), To(a.c, Ok))
         [] a.cmd = "stop" ->
              LET s1 == IF s.db THEN SetMode([s EXCEPT !.bps = <<>>], "none") ELSE s
                  s2 == IF s.run THEN Detach(dz, s1) ELSE s1
              IN R([s2 EXCEPT !.cl = {}, !.fin = @ + 1,
                              !.pc = IF @ = "eval" THEN "eval" ELSE "idle"], NoOut)

BpInfo(dz, s) == [k \in 1 .. Len(s.bps) |->
    LET e == s.bps[k] IN [id |-> e.id, file |-> e.file, line |-> e.line, col |-> e.col, var |-> e.var,
                          ty |-> CASE e.ty = "n" -> 1 [] e.ty = "d" -> 2 [] e.ty = "a" -> 4]]
LocInfo(dz, s, ps) == [k \in 1 .. Len(ps) |->
    LET b == dz.bps[ps[k]] IN [id |-> b.id, file |-> ToClient(dz, s.pm, b.file), line |-> b.line, col |-> b.col]]

Data(dz, s, a) ==
    LET p == BpOf(dz, a.bp)
        ns == ReqNs(dz, a.ns, p # 0)
        k == FirstIdx(dz.assign, LAMBDA x : x.var = a.var /\ x.bp = a.bp)
        okres(r) == LET q == BpOf(dz, r.bp)
                    IN /\ q # 0
                       /\ IsSig(dz, dz.insts[dz.bps[q].i].name \o "." \o r.var)
                       /\ Valid(dz, ns, q, 0, DbCond(dz, q))
                       /\ CondsOk(dz, ns, q, DataKey(a.uc, r.cond))
    IN IF ns = 0 \/ p = 0 \/ k = 0 THEN R(s, To(a.c, Err))
       ELSE IF a.uc # 0 /\ dz.conds[a.uc].ast[1] = "bad" THEN R(s, To(a.c, Err))
       ELSE IF \E j \in 1 .. Len(dz.assign[k].res) : ~okres(dz.assign[k].res[j]) THEN R(s, To(a.c, Err))
       ELSE IF a.k = "dinfo" THEN R(s, To(a.c, Ok))
       ELSE R(DataAdd(dz, s, ns, dz.assign[k], a.uc), To(a.c, Ok))

Do(dz, s, a) ==
    CASE a.k = "connect" -> R([s EXCEPT !.cl = @ \cup {a.c}], NoOut)
      [] a.k = "close" ->
           LET s1 == [s EXCEPT !.cl = @ \ {a.c}]
           IN R(IF s1.cl = {} /\ s1.opt.detach_after_disconnect THEN Detach(dz, s1) ELSE s1, NoOut)
      [] a.k = "tick" -> R(Tick(dz, s), NoOut)
      \* the simulation ends by itself: everybody is sent away
      [] a.k = "endsim" -> R([s EXCEPT !.cl = {}, !.fin = @ + 1, !.att = FALSE], NoOut)
      [] a.k = "initdb" ->
           R([DropUnused(dz, [s EXCEPT !.bps = <<>>]) EXCEPT !.mode = "cont", !.cur = 0, !.db = TRUE, !.pm = 1], NoOut)
      [] a.k = "assert" ->
           LET ps == AtLoc(dz, s.pm, dz.locs[a.loc])
           IN R(IF ~s.db \/ a.ns = 0 \/ ps = <<>> \/ dz.kind = "verilator" THEN s
                ELSE [s EXCEPT !.bps = Insert(@, Entry(dz, s, ps[1], a.ns, "a", <<>>))], NoOut)
      [] a.k = "poke" -> R([s EXCEPT !.mem[a.n][a.sig] = a.v], NoOut)
      (* requests *)
      [] a.k \in NeedDb /\ ~s.db -> R(s, To(a.c, Err))
      [] a.k = "conn" -> R([s EXCEPT !.att = @ \/ s.db, !.run = TRUE, !.pm = IF s.db THEN a.m ELSE @], To(a.c, Ok))
      [] a.k = "map" -> R([s EXCEPT !.pm = a.m], To(a.c, Ok))
      [] a.k = "bad" -> R(s, To(a.c, Err))
      [] a.k = "cmd" -> Cmd(dz, s, a)
      [] a.k = "opt" -> R(IF a.name \in DOMAIN s.opt THEN [s EXCEPT !.opt[a.name] = a.v] ELSE s, To(a.c, Ok))
      [] a.k = "bpadd" ->
           LET ps == AtLoc(dz, s.pm, dz.locs[a.loc])
           IN IF ps = <<>> THEN R(s, To(a.c, Err))
              ELSE R(FoldLeft(LAMBDA st, p : AddBp(dz, st, p, a.uc), s, ps), To(a.c, Ok))
      [] a.k = "bprem" ->
           LET ps == Range(AtLoc(dz, s.pm, dz.locs[a.loc]))
           IN R(RemBp(s, LAMBDA e : e.ty = "n" /\ e.p \in ps), To(a.c, Ok))
      [] a.k = "idadd" ->
           LET p == BpOf(dz, a.bp) IN IF p = 0 THEN R(s, To(a.c, Err)) ELSE R(AddBp(dz, s, p, a.uc), To(a.c, Ok))
      [] a.k = "idrem" -> R(RemBp(s, LAMBDA e : e.ty = "n" /\ e.id = a.bp), To(a.c, Ok))
      [] a.k = "bploc" ->
           R(s, To(a.c, [k |-> "loc", l |-> LocInfo(dz, s, AtLoc(dz, s.pm, dz.locs[a.loc]))]))
      [] a.k = "bpfile" ->
           R(s, To(a.c, [k |-> "loc", l |-> LocInfo(dz, s, InFile(dz, s.pm, dz.locs[a.loc].file))]))
      [] a.k = "ibps" -> R(s, To(a.c, [k |-> "ibps", l |-> BpInfo(dz, s)]))
      [] a.k = "iopts" -> R(s, To(a.c, [k |-> "iopts", o |-> s.opt]))
      [] a.k = "istat" -> R(s, To(a.c, [k |-> "istat", run |-> s.run]))
      [] a.k = "idesign" -> R(s, To(a.c, [k |-> "idesign", t |-> IF s.db THEN dz.tops ELSE <<>>]))
      [] a.k = "ifiles" -> R(s, To(a.c, [k |-> "ifiles", l |-> [k \in 1 .. Len(dz.files) |-> ToClient(dz, s.pm, dz.files[k])]]))
      [] a.k = "eval" ->
           LET e == dz.evals[a.e].ast
               p == IF a.bp = None THEN 0 ELSE BpOf(dz, a.bp)
               i == IF a.inst = None THEN 0 ELSE InstOf(dz, a.inst)
               ns == IF a.ns # None /\ a.ns < dz.nns THEN a.ns + 1 ELSE 1
               \* a breakpoint that doesn't exist hides the instance
               i2 == IF a.bp # None /\ p = 0 THEN 0 ELSE i
               free == a.bp = None /\ a.inst = None /\ a.ns = None
               cand == IF free THEN {n \in NS(dz) : Valid(dz, n, 0, 0, e)} ELSE {ns}
               n == IF cand = {} THEN 1 ELSE Min(cand)
           IN IF e[1] # "bad" /\ Valid(dz, n, p, i2, e)
              THEN R(s, To(a.c, [k |-> "eval", v |-> Val(dz, s, n, p, i2, IF a.inst = None THEN 0 ELSE a.inst, e)]))
              ELSE R(s, To(a.c, Err))
      [] a.k \in {"set", "mon"} ->
           LET p == IF a.bp = None THEN 0 ELSE BpOf(dz, a.bp)
               i == IF a.inst = None THEN 0 ELSE InstOf(dz, a.inst)
               ns == ReqNs(dz, a.ns, p # 0 \/ i # 0)
               x == ReqVar(dz, ns, p, i, a.bp # None, a.inst # None, a.n)
           IN IF ns = 0 THEN R(s, To(a.c, Err))
              ELSE IF x[1] = "bad" THEN R(s, To(a.c, Err))
              ELSE IF a.k = "set"
                   THEN R([s EXCEPT !.mem[x[2]][x[3]] = a.v % Pow2(dz.width[x[3]])], To(a.c, Ok))
                   ELSE LET w == FirstIdx(s.mon[ns], LAMBDA y : y.kind = a.kind /\ y.sns = x[2] /\ y.sig = x[3])
                        IN IF w # 0 THEN R(s, To(a.c, [k |-> "track", id |-> s.mon[ns][w].id, ns |-> ns - 1]))
                           ELSE R([s EXCEPT !.nid[ns] = @ + 1,
                                            !.mon[ns] = Append(@, [id |-> s.nid[ns], kind |-> a.kind, sig |-> x[3], n |-> ns, sns |-> x[2]])],
                                  To(a.c, [k |-> "track", id |-> s.nid[ns], ns |-> ns - 1]))
      [] a.k = "unmon" ->
           LET ns == ReqNs(dz, a.ns, FALSE)
           IN IF \E w \in Range(s.mon[ns]) : w.id = a.id /\ w.kind \in {"data", "delay"} THEN R(s, To(a.c, Err))
              ELSE R([s EXCEPT !.mon[ns] = SelectSeq(@, LAMBDA w : w.id # a.id)], To(a.c, Ok))
      [] a.k \in {"dadd", "dinfo"} -> Data(dz, s, a)
      [] a.k = "drem" ->
           LET p == BpOf(dz, a.bp)
               ns == ReqNs(dz, a.ns, p # 0)
           IN IF ns = 0 THEN R(s, To(a.c, Err))
              ELSE R(DropUnused(dz, RemBp(s, LAMBDA e : e.ty = "d" /\ e.id = a.bp /\ e.ns = ns)), To(a.c, Ok))
      [] a.k = "dclear" -> R(DropUnused(dz, RemBp(s, LAMBDA e : e.ty = "d")), To(a.c, Ok))
=============================================================================
