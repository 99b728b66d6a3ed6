-------------------------------- MODULE ExprGen --------------------------------
(***************************************************************************)
(* Cases for the expression evaluator: every short string over an alphabet *)
(* of lexical elements (kind "str"), every sequence of three operators     *)
(* over fixed operands (kind "ops"), random trees and damaged texts (kind  *)
(* "rnd").  One state is one batch of cases, written out with the answers  *)
(* of Expr; the invariant is that rendering a tree and parsing it again    *)
(* gives the tree.                                                         *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)      \* kind, n, alpha (texts), envs (name -> word), len, base
VARIABLES k, done
AllNames == DOMAIN Job.envs[1]
Alpha == [i \in 1 .. Len(Job.alpha) |-> Chars(Job.alpha[i])]
BinOps == SetToSeq(UNION {Level[l] : l \in 1 .. 9})
UnOps == SetToSeq(Unary)

Word(x) == <<x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]>>
Case(text) ==
    LET r == TLCEval(Parse(text))
    IN [t |-> FoldLeft(LAMBDA a, c : a \o c, "", text), ok |-> r.ok,
        names |-> IF r.ok THEN SetToSeq(Names(r.t)) ELSE <<>>,
        v |-> IF ~r.ok THEN <<>>
              ELSE IF ~(Names(r.t) \subseteq AllNames) THEN <<>>
              ELSE [e \in 1 .. Len(Job.envs) |-> Eval(r.t, [n \in AllNames |-> Word(Job.envs[e][n])])]]

(* strings *)
N == Len(Alpha)
RECURSIVE Strings(_)
Strings(l) == IF l = 0 THEN {<<>>} ELSE {<<i>> \o s : i \in 1 .. N, s \in Strings(l - 1)}
Text(s) == FoldLeft(LAMBDA a, i : a \o Alpha[i], <<>>, s)
StrBatch(j) ==     \* j = 0: shorter than two; otherwise the first two symbols
    IF j = 0 THEN {<<>>} \cup {<<i>> : i \in 1 .. N}
    ELSE {<<((j - 1) \div N) + 1, ((j - 1) % N) + 1>> \o s : s \in UNION {Strings(l) : l \in 0 .. Job.len - 2}}
(* three operators *)
V(n) == <<"v", n>>
OpsBatch(j) ==
    LET o1 == BinOps[((j - 1) % Len(BinOps)) + 1]
        u == ((j - 1) \div Len(BinOps)) % 4
        vs == Job.operands
    IN {LET x == Chars(vs[1]) \o Chars(o1) \o (IF u = 0 THEN <<>> ELSE <<UnOps[u]>>) \o Chars(vs[2]) \o Chars(BinOps[p])
                 \o Chars(vs[3]) \o Chars(BinOps[q]) \o Chars(vs[4]) IN x : p \in 1 .. Len(BinOps), q \in 1 .. Len(BinOps)}
(* random *)
RPick(seq) == seq[RandomElement(1 .. Len(seq))]
RandWord == LET c == TLCEval(RandomElement(1 .. 10))
            IN IF c <= 4 THEN WOf(RandomElement(0 .. 17))
               ELSE IF c = 5 THEN MinusOne
               ELSE IF c = 6 THEN [Zero EXCEPT ![8] = 128]
               ELSE IF c = 7 THEN [MinusOne EXCEPT ![8] = 127]
               ELSE IF c = 8 THEN <<RandomElement(0 .. 255), RandomElement(0 .. 255), RandomElement(0 .. 255), RandomElement(0 .. 255), 0, 0, 0, 0>>
               ELSE <<RandomElement(0 .. 255), RandomElement(0 .. 255), RandomElement(0 .. 255), RandomElement(0 .. 255), RandomElement(0 .. 255), RandomElement(0 .. 255), RandomElement(0 .. 255), RandomElement(0 .. 255)>>
RECURSIVE Tree(_)
Tree(d) ==
    LET c == TLCEval(IF d = 0 THEN 0 ELSE RandomElement(0 .. 9))
    IN IF c <= 1 THEN (IF RandomElement(1 .. 3) = 1 THEN <<"n", RandWord>> ELSE V(RPick(SetToSeq(AllNames))))
       ELSE IF c <= 3 THEN <<RPick(UnOps), TLCEval(Tree(d - 1))>>
       ELSE <<RPick(BinOps), TLCEval(Tree(d - 1)), TLCEval(Tree(d - 1))>>
Damage(t) ==
    LET i == TLCEval(RandomElement(1 .. Len(t)))
        c == TLCEval(RandomElement(1 .. 6))
    IN CASE c = 1 -> SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
         [] c = 2 -> SubSeq(t, 1, i) \o RPick(Alpha) \o SubSeq(t, i + 1, Len(t))
         [] c = 3 -> SubSeq(t, 1, i - 1) \o RPick(Alpha) \o SubSeq(t, i + 1, Len(t))
         [] c = 4 -> SubSeq(t, 1, i)
         [] c = 5 -> SubSeq(t, i, Len(t))
         [] c = 6 -> SubSeq(t, 1, i - 1) \o <<RPick(<<" ", "\t", "\n">>)>> \o SubSeq(t, i, Len(t))
RECURSIVE Spaced(_, _)
Spaced(t, i) == IF i > Len(t) THEN <<>>      \* blanks around operators only
                ELSE (IF t[i] \in {"+", "*", "/", "(", ")", "^", "~"} THEN (IF RandomElement(1 .. 3) = 1 THEN <<" ", t[i], " ">> ELSE <<t[i]>>)
                      ELSE <<t[i]>>) \o Spaced(t, i + 1)

RECURSIVE Trees(_)
Trees(n) == IF n = 0 THEN <<>> ELSE <<TLCEval(Tree(Job.len))>> \o Trees(n - 1)
RndBatch(trees) ==
    LET rs == TLCEval([i \in 1 .. Len(trees) |-> Render(trees[i])])
    IN {rs[i] : i \in 1 .. Len(rs)} \cup {TLCEval(Spaced(rs[i], 1)) : i \in 1 .. Len(rs)} \cup {TLCEval(Damage(rs[i])) : i \in 1 .. Len(rs)}

(* the tree is the one that is rendered *)
RoundTrip(t) == LET r == Parse(Render(t)) IN r.ok /\ r.t = t
Cases(texts) == LET s == SetToSeq(texts) IN [i \in 1 .. Len(s) |-> Case(s[i])]
Emit(texts) ==
    LET out == TLCEval(ToJson([c |-> Cases(texts)]))
    IN Serialize(out \o "\n", IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Init == k \in Job.from .. Job.to /\ done = <<>>
Next == /\ done = <<>>
        /\ UNCHANGED k
        /\ CASE Job.kind = "str" -> Emit({Text(s) : s \in StrBatch(k)}) /\ done' = <<"ok">>
             [] Job.kind = "ops" -> Emit(OpsBatch(k)) /\ done' = <<"ok">>
             [] Job.kind = "rnd" -> \E ts \in {TLCEval(Trees(Job.base))} : Emit(RndBatch(ts)) /\ done' = ts
Spec == Init /\ [][Next]_<<k, done>>
Inv == Job.kind = "rnd" => \A i \in 1 .. Len(done) : RoundTrip(done[i])
=============================================================================
