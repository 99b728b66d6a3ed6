--------------------------------- MODULE SymTab ---------------------------------
(***************************************************************************)
(* What a JSON symbol table means: the breakpoints of every instance in    *)
(* execution order with file, place, condition and visible variables, the  *)
(* instances, the assignment sites, and the answers to lookups.            *)
(*                                                                         *)
(* A document: [mods, top, reorder, attrs]; a module: [name, vars, cond,   *)
(* scope, insts]; an entry: [ty, line, col, cond, vars, ref, file, scope,  *)
(* idx] with cond an index into Conds (0 none); a variable: [name, value,  *)
(* rtl, d] with d the delay (0 none).                                      *)
(***************************************************************************)
EXTENDS Expr

Conds == <<"a", "!a", "a || b", "a && b", "b == 1", "a | b", "a == b || b", "addr == 0", "addr == 1", "addr == 2">>
IndexCond == [k \in 0 .. 2 |-> 8 + k]
Envs == <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<1, 0, 2>>, <<0, 1, 2>>>>
CondVec == [c \in 1 .. Len(Conds) |->
             LET t == Parse(Chars(Conds[c])).t
             IN [e \in 1 .. Len(Envs) |-> Eval(t, [n \in {"a", "b", "addr"} |-> WOf(Envs[e][CASE n = "a" -> 1 [] n = "b" -> 2 [] OTHER -> 3])]) # Zero]]
Holds(conds) == [e \in 1 .. Len(Envs) |-> IF \A i \in 1 .. Len(conds) : CondVec[conds[i]][e] THEN 1 ELSE 0]

(* names are the same if their components are; x[1] and x.1 have the same *)
Canon(n) == CASE n = "x[1]" -> "x.1" [] n = "x[2]" -> "x.2" [] n = "y[0].z" -> "y.0.z" [] OTHER -> n
IndexOf(base, n) == CASE base = "x" /\ Canon(n) = "x.1" -> 1 [] base = "x" /\ Canon(n) = "x.2" -> 2 [] OTHER -> -1
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Constant(v) == CASE v = "5" -> 5 [] v = "07" -> 7 [] v = "123456" -> 123456 [] OTHER -> -1
(* the files a requested name can mean *)
Means(q) == CASE q \in {"a.py", "/x/a.py", "dir/a.py"} -> {"a.py"}
              [] q = "dir/b.py" -> {"dir/b.py"}
              [] q = "/w/c.py" -> {"/w/c.py"}
              [] OTHER -> {}

(* ----- order: by line, column and kind, statements of one place together ----- *)
Rank == [none |-> 0, decl |-> 1, block |-> 2, assign |-> 3]
Before(a, b) == IF a.line # b.line THEN a.line < b.line
                ELSE IF a.col # b.col THEN a.col < b.col ELSE Rank[a.ty] < Rank[b.ty]
RECURSIVE Insert(_, _)
Insert(e, s) == IF s = <<>> THEN <<e>>            \* before what is greater; e came before all of s
                ELSE IF Before(s[1], e) THEN <<s[1]>> \o Insert(e, Tail(s)) ELSE <<e>> \o s
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], Sort(Tail(s)))
Same(a, b) == a.ty = b.ty /\ a.ty \in {"decl", "assign"} /\ a.line = b.line /\ a.col = b.col /\ a.cond = b.cond /\ a.idx = <<>> /\ b.idx = <<>>
RECURSIVE Merge(_)
Merge(s) == IF Len(s) < 2 THEN s
            ELSE IF Same(s[1], s[2]) THEN Merge(<<[s[1] EXCEPT !.vars = @ \o s[2].vars]>> \o SubSeq(s, 3, Len(s)))
            ELSE <<s[1]>> \o Merge(Tail(s))
RECURSIVE Ordered(_)
Ordered(scope) ==
    LET one(e) == IF e.ty # "block" THEN e
                  ELSE LET s == TLCEval(Ordered(e.scope)) IN [e EXCEPT !.scope = s[1], !.line = IF s[1] = <<>> THEN @ ELSE s[2]]
        sorted == TLCEval(Sort([i \in 1 .. Len(scope) |-> one(scope[i])]))
    IN <<Merge(sorted), IF sorted = <<>> THEN 0 ELSE sorted[1].line>>
OrderedFiles(scope) == [i \in 1 .. Len(scope) |-> [scope[i] EXCEPT !.scope = Ordered(@)[1]]]

(* ----- statements in order, with what surrounds them ----- *)
Declared(e, addr) ==
    IF e.ty \notin {"decl", "assign"} THEN <<>>
    ELSE IF e.idx = <<>> THEN e.vars
    ELSE IF ~addr THEN <<>>
    ELSE [i \in 1 .. Len(e.idx) |-> [name |-> e.vars[1].name \o ".2", value |-> e.vars[1].value \o "[2]", rtl |-> TRUE, d |-> 0]]
RECURSIVE Flat(_, _, _)
Flat(scope, ctx, addr) ==
    IF scope = <<>> THEN <<>>
    ELSE LET e == scope[1]
             c == IF e.cond = 0 THEN ctx.conds ELSE <<e.cond>> \o ctx.conds
         IN (IF e.ty = "block"
             THEN Flat(e.scope, [file |-> IF e.file = "" THEN ctx.file ELSE e.file, conds |-> c, vis |-> ctx.vis], addr)
             ELSE IF e.line = 0 THEN <<>>
             ELSE <<[ty |-> e.ty, line |-> e.line, col |-> e.col, file |-> ctx.file, conds |-> c, vis |-> ctx.vis, vars |-> e.vars, idx |-> e.idx]>>)
            \o Flat(Tail(scope), [ctx EXCEPT !.vis = @ \o Declared(e, addr)], addr)
HasAddr(m) == \E i \in 1 .. Len(m.vars) : m.vars[i].name = "addr"
Statements(doc, m) == Flat(IF doc.reorder THEN OrderedFiles(m.scope) ELSE m.scope,
                           [file |-> "", conds |-> IF m.cond = 0 THEN <<>> ELSE <<m.cond>>, vis |-> <<>>], HasAddr(m))

(* ----- instances ----- *)
ModNamed(doc, n) == {i \in 1 .. Len(doc.mods) : doc.mods[i].name = n}
RECURSIVE Closure(_, _)
Closure(doc, names) == LET next == names \cup UNION {UNION {{doc.mods[i].insts[j][2] : j \in 1 .. Len(doc.mods[i].insts)} : i \in ModNamed(doc, n)} : n \in names}
                       IN IF next = names THEN names ELSE Closure(doc, next)
Cyclic(doc, n) == n \in Closure(doc, UNION {{doc.mods[i].insts[j][2] : j \in 1 .. Len(doc.mods[i].insts)} : i \in ModNamed(doc, n)})
RECURSIVE BadRef(_)
BadRef(scope) == \E i \in 1 .. Len(scope) : scope[i].ref = "bad" \/ BadRef(scope[i].scope)
                                             \/ \E j \in 1 .. Len(scope[i].idx) : scope[i].idx[j].ref = "bad"
Roots(doc) == SelectSeq([i \in 1 .. Len(doc.mods) |-> i], LAMBDA i : doc.mods[i].name \in doc.top)
Bad(doc) ==
    \/ Roots(doc) = <<>>
    \/ \E i, j \in 1 .. Len(doc.mods) : i # j /\ doc.mods[i].name = doc.mods[j].name
    \/ \E i \in 1 .. Len(doc.mods) : BadRef(doc.mods[i].scope)
    \/ LET reach == Closure(doc, {doc.mods[Roots(doc)[i]].name : i \in 1 .. Len(Roots(doc))})
       IN \E n \in reach : ModNamed(doc, n) = {} \/ Cyclic(doc, n)
RECURSIVE Instances(_, _, _)
Instances(doc, n, path) ==
    LET i == CHOOSE i \in ModNamed(doc, n) : TRUE
        sub == doc.mods[i].insts
    IN <<[path |-> path, m |-> i]>>
       \o FoldLeft(LAMBDA acc, s : acc \o Instances(doc, s[2], path \o "." \o s[1]), <<>>, sub)
AllInstances(doc) == FoldLeft(LAMBDA acc, i : acc \o Instances(doc, doc.mods[i].name, doc.mods[i].name), <<>>, Roots(doc))

(* ----- what a name means ----- *)
Match(v, n) == Canon(v.name) = Canon(n) \/ (v.rtl /\ v.value = n)
FullName(v, path) == IF ~v.rtl \/ HasPrefix(v.value, path \o ".") THEN v.value ELSE path \o "." \o v.value
Latest(vs, n) == LET S == {i \in 1 .. Len(vs) : Match(vs[i], n)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
First(vs, n) == LET S == {i \in 1 .. Len(vs) : Match(vs[i], n)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
InBp(s, path, n) == LET i == Latest(s.vis, n) IN IF i = 0 THEN "" ELSE FullName(s.vis[i], path)
InInst(m, path, n) == LET i == First(m.vars, n) IN IF i = 0 THEN "" ELSE FullName(m.vars[i], path)
Constants(vis) ==     \* names whose latest declaration is a constant
    LET latest == {i \in 1 .. Len(vis) : \A j \in i + 1 .. Len(vis) : vis[j].name # vis[i].name}
    IN SetToSeq({<<vis[i].name, Constant(vis[i].value)>> : i \in {i \in latest : ~vis[i].rtl /\ Constant(vis[i].value) >= 0}})
Delayed(vis) == SelectSeq(vis, LAMBDA v : v.d > 0)

(* ----- where a variable is assigned: <<statement, signal, conditions>> ----- *)
SiteOf(s, k, n) ==
    LET ix == {j \in 1 .. Len(s.idx) : s.idx[j].min <= IndexOf(s.vars[1].name, n) /\ IndexOf(s.vars[1].name, n) <= s.idx[j].max}
        whole == {j \in 1 .. Len(s.vars) : Canon(s.vars[j].name) = Canon(n)}
    IN IF s.ty # "assign" THEN <<>>
       ELSE IF s.idx # <<>> /\ IndexOf(s.vars[1].name, n) >= 0 /\ ix # {}
       THEN <<<<k, s.vars[1].value \o "[" \o ToString(IndexOf(s.vars[1].name, n)) \o "]",
                Holds(<<IndexCond[IndexOf(s.vars[1].name, n)]>> \o s.conds)>>>>
       ELSE IF whole # {} THEN <<<<k, s.vars[CHOOSE j \in whole : \A l \in whole : j <= l].value, Holds(s.conds)>>>>
       ELSE <<>>
RECURSIVE Sites(_, _, _)
Sites(st, k, n) == IF k > Len(st) THEN <<>> ELSE SiteOf(st[k], k, n) \o Sites(st, k + 1, n)

(* ----- lookups by place ----- *)
Found(insts, sts, f, l, c) ==
    {<<insts[i].path, k>> : <<i, k>> \in {<<i, k>> \in UNION {{<<i, k>> : k \in 1 .. Len(sts[insts[i].m])} : i \in 1 .. Len(insts)} :
        LET s == sts[insts[i].m][k] IN s.file \in Means(f) /\ (l = 0 \/ (s.line = l /\ (c = 0 \/ s.col = c)))}}
=============================================================================
