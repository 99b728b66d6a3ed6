--------------------------------- MODULE SymGen ---------------------------------
(***************************************************************************)
(* Symbol tables with the answers SymTab gives: all tables with a few      *)
(* statements over a small set of statements (kind "exh"), and random ones *)
(* (kind "rnd").  One state is one batch.                                  *)
(***************************************************************************)
EXTENDS SymTab, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES k, done
Files == <<"a.py", "dir/b.py", "/w/c.py">>
Asked == <<"a.py", "/x/a.py", "dir/a.py", "dir/b.py", "/w/c.py", "c.py", "b.py", "zz.py", "">>
Resolved == <<"x", "x.1", "x[1]", "x.2", "y", "sx", "addr", "K", "x.y", "5", "nosuch">>
Assigned == <<"x", "x[1]", "x.1", "x[2]", "y", "x.y", "sx", "nosuch">>

V(n, v, r, d) == [name |-> n, value |-> v, rtl |-> r, d |-> d]
VarPool == <<V("x", "sx", TRUE, 0), V("x", "x", TRUE, 0), V("y", "sy", TRUE, 0), V("y", "x", TRUE, 0), V("x", "5", FALSE, 0), V("K", "07", FALSE, 0),
             V("x.y", "x_y", TRUE, 0), V("x[1]", "x_1", TRUE, 0), V("x.1", "sub.x", TRUE, 0), V("K", "text", FALSE, 0), V("x", "top.sx", TRUE, 0),
             V("x", "sx", TRUE, 1), V("y", "sy", TRUE, 3), V("sx", "y", TRUE, 0), V("x", "123456", FALSE, 0), V("y", "", FALSE, 0)>>
GenPool == VarPool \o <<V("addr", "addr", TRUE, 0), V("addr", "addr", TRUE, 0), V("addr", "addr", TRUE, 0)>>
Addr == V("addr", "addr", TRUE, 0)
E0 == [ty |-> "none", line |-> 1, col |-> 0, cond |-> 0, vars |-> <<>>, ref |-> "", file |-> "", scope |-> <<>>, idx |-> <<>>]
Block(f, c, s) == [E0 EXCEPT !.ty = "block", !.line = 0, !.file = f, !.cond = c, !.scope = s]

RPick(seq) == seq[RandomElement(1 .. Len(seq))]
Chance(n) == RandomElement(1 .. n) = 1
RECURSIVE REntries(_, _), REntry(_)
REntry(d) ==
    LET c == TLCEval(RandomElement(1 .. 11))
        line == TLCEval(IF Chance(14) THEN 0 ELSE RandomElement(1 .. 3))
        col == TLCEval(IF Chance(2) THEN 0 ELSE RandomElement(1 .. 2))
        cond == TLCEval(IF Chance(2) THEN 0 ELSE RandomElement(1 .. 7))
        ref == TLCEval(IF Job.bad = 1 /\ Chance(40) THEN "bad" ELSE IF Chance(3) THEN "ref" ELSE "")
        base == [E0 EXCEPT !.line = line, !.col = col, !.cond = cond]
    IN IF c <= 2 THEN base
       ELSE IF c <= 5 THEN [base EXCEPT !.ty = "decl", !.vars = <<RPick(VarPool)>>, !.ref = ref]
       ELSE IF c <= 8 THEN [base EXCEPT !.ty = "assign", !.vars = <<RPick(VarPool)>>, !.ref = ref]
       ELSE IF c = 9 THEN [base EXCEPT !.ty = "assign", !.vars = <<V("x", "sx", TRUE, 0)>>,
                                       !.idx = <<[min |-> RandomElement(0 .. 2), max |-> RandomElement(1 .. 2), ref |-> ref, var |-> Addr]>>]
       ELSE IF d = 0 THEN base
       ELSE [base EXCEPT !.ty = "block", !.line = IF Chance(2) THEN 0 ELSE line, !.file = IF Chance(4) THEN RPick(Files) ELSE "",
                         !.scope = REntries(d - 1, TLCEval(RandomElement(0 .. 4)))]
REntries(d, n) == IF n = 0 THEN <<>> ELSE <<TLCEval(REntry(d))>> \o REntries(d, n - 1)
RECURSIVE RFiles(_)
RFiles(n) == IF n = 0 THEN <<>> ELSE <<TLCEval(Block(RPick(Files), IF Chance(3) THEN RandomElement(1 .. 7) ELSE 0, REntries(2, TLCEval(RandomElement(0 .. 5)))))>> \o RFiles(n - 1)
ModNames == <<"top", "mid", "leaf", "oth">>
RECURSIVE RSeq(_, _)
RSeq(pool, n) == IF n = 0 THEN <<>> ELSE <<TLCEval(RPick(pool))>> \o RSeq(pool, n - 1)
RInsts(i) ==      \* of later modules; sometimes of a missing or an earlier one
    LET n == TLCEval(IF i >= 4 THEN 0 ELSE RandomElement(0 .. 3))
        target(j) == IF Job.bad = 1 /\ Chance(12) THEN RPick(ModNames \o <<"ghost">>) ELSE ModNames[RandomElement(i + 1 .. 4)]
    IN [j \in 1 .. n |-> TLCEval(<<<<"u", "v", "w[0]">>[j], target(j)>>)]
RMod(i) == [name |-> IF Job.bad = 1 /\ Chance(12) THEN RPick(ModNames) ELSE ModNames[i],
            vars |-> RSeq(GenPool, TLCEval(RandomElement(0 .. 3))), cond |-> IF Chance(5) THEN RandomElement(1 .. 7) ELSE 0,
            scope |-> RFiles(TLCEval(RandomElement(0 .. 2))), insts |-> TLCEval(RInsts(i))]
RECURSIVE RDocs(_)
RDoc == [mods |-> TLCEval(LET ms == TLCEval([i \in 1 .. 4 |-> TLCEval(RMod(i))]) IN IF Chance(2) THEN ms ELSE Reverse(ms)),
         top |-> TLCEval(IF Job.bad = 1 /\ Chance(12) THEN {"ghost"} ELSE IF Chance(6) THEN {"top", "mid"} ELSE {"top"}),
         reorder |-> RandomElement({TRUE, FALSE}), attrs |-> TLCEval(RSeq(<<<<"clock", "top.clk">>, <<"clock", "top.c2">>, <<"n", "">>>>, TLCEval(RandomElement(0 .. 3))))]
RDocs(n) == IF n = 0 THEN <<>> ELSE <<TLCEval(RDoc)>> \o RDocs(n - 1)

(* small tables *)
St(ty, l, c, cond, vs) == [E0 EXCEPT !.ty = ty, !.line = l, !.col = c, !.cond = cond, !.vars = vs]
Small == <<St("decl", 1, 0, 0, <<V("x", "sx", TRUE, 0)>>), St("decl", 1, 0, 0, <<V("y", "sy", TRUE, 2)>>), St("decl", 2, 1, 0, <<V("x", "5", FALSE, 0)>>),
           St("assign", 1, 0, 0, <<V("x", "x", TRUE, 0)>>), St("assign", 1, 0, 0, <<V("y", "sy", TRUE, 0)>>), St("assign", 1, 0, 3, <<V("x", "s2", TRUE, 0)>>),
           St("assign", 2, 1, 1, <<V("x", "s3", TRUE, 1)>>), St("none", 1, 0, 0, <<>>), St("none", 2, 1, 3, <<>>), St("none", 0, 0, 0, <<>>),
           Block("", 0, <<St("none", 1, 0, 0, <<>>)>>), Block("", 7, <<St("assign", 2, 0, 0, <<V("x", "s4", TRUE, 0)>>), St("none", 1, 2, 6, <<>>)>>),
           Block("dir/b.py", 3, <<St("none", 1, 0, 3, <<>>), St("decl", 1, 0, 0, <<V("x", "s5", TRUE, 0)>>)>>),
           [St("assign", 1, 1, 1, <<V("x", "sx", TRUE, 0)>>) EXCEPT !.idx = <<[min |-> 1, max |-> 1, ref |-> "", var |-> Addr]>>]>>
SmallDoc(seq, r) == [mods |-> <<[name |-> "top", vars |-> <<Addr>>, cond |-> 0, scope |-> <<Block("a.py", 0, [i \in 1 .. Len(seq) |-> Small[seq[i]]])>>, insts |-> <<>>]>>,
                     top |-> {"top"}, reorder |-> r, attrs |-> <<>>]
SmallBatch(j) ==      \* j fixes the first statement
    LET n == Len(Small)
        tails == {<<>>} \cup {<<a>> : a \in 1 .. n} \cup (IF Job.len < 3 THEN {} ELSE {<<a, b>> : a \in 1 .. n, b \in 1 .. n})
    IN SetToSeq({SmallDoc(<<j>> \o t, r) : t \in tails, r \in {TRUE, FALSE}})

(* ----- answers ----- *)
Answer(doc) ==
    IF Bad(doc) THEN [doc |-> doc, bad |-> TRUE, insts |-> <<>>, found |-> <<>>]
    ELSE LET insts == TLCEval(AllInstances(doc))
             sts == TLCEval([i \in 1 .. Len(doc.mods) |-> Statements(doc, doc.mods[i])])
             one(x) ==
                 LET m == doc.mods[x.m] st == sts[x.m]
                 IN [path |-> x.path, gen |-> m.vars, res |-> [i \in 1 .. Len(Resolved) |-> InInst(m, x.path, Resolved[i])],
                     sites |-> [i \in 1 .. Len(Assigned) |-> Sites(st, 1, Assigned[i])],
                     bps |-> [j \in 1 .. Len(st) |-> [file |-> st[j].file, line |-> st[j].line, col |-> st[j].col, cond |-> Holds(st[j].conds), free |-> st[j].conds = <<>>,
                                                     vis |-> st[j].vis, delayed |-> Delayed(st[j].vis), const |-> Constants(st[j].vis),
                                                     res |-> [i \in 1 .. Len(Resolved) |-> InBp(st[j], x.path, Resolved[i])]]]]
         IN [doc |-> doc, bad |-> FALSE, insts |-> [i \in 1 .. Len(insts) |-> one(insts[i])],
             found |-> SetToSeq({<<f, l, c, Found(insts, sts, f, l, c)>> : f \in {Asked[i] : i \in 1 .. Len(Asked)}, l \in 0 .. 3, c \in 0 .. 2})]
(* in every table: a place is found exactly where its statements are *)
Consistent(a) == a.bad \/ \A q \in {a.found[i] : i \in 1 .. Len(a.found)} : q[3] = 0 \/ \A p \in q[4] :
                     \E i \in 1 .. Len(a.insts) : a.insts[i].path = p[1] /\ p[2] <= Len(a.insts[i].bps) /\ (q[2] = 0 \/ a.insts[i].bps[p[2]].col = q[3])
UniquePaths(a) == \A i, j \in 1 .. Len(a.insts) : i # j => a.insts[i].path # a.insts[j].path
Emit(as) ==
    Serialize(TLCEval(ToJson([names |-> Resolved, assigned |-> Assigned, envs |-> Envs, d |-> as])) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Init == k \in Job.from .. Job.to /\ done = <<>>
Next == /\ done = <<>>
        /\ UNCHANGED k
        /\ \E docs \in {TLCEval(IF Job.kind = "exh" THEN SmallBatch(k) ELSE RDocs(Job.base))} :
             \E as \in {TLCEval([i \in 1 .. Len(docs) |-> Answer(docs[i])])} :
               /\ Assert(\A i \in 1 .. Len(as) : Consistent(as[i]) /\ UniquePaths(as[i]), "answers are inconsistent")
               /\ Emit(as)
               /\ done' = <<Len(as)>>
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
