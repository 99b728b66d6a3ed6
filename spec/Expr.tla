---------------------------------- MODULE Expr ----------------------------------
(***************************************************************************)
(* The expressions of conditions and evaluation requests: what texts are   *)
(* expressions and what their value is.  A text is a sequence of           *)
(* one-character strings.                                                  *)
(***************************************************************************)
EXTENDS W64, FiniteSets, TLC, SequencesExt

Digits == <<"0","1","2","3","4","5","6","7","8","9">>
Chars(str) == [i \in 1 .. Len(str) |-> SubSeq(str, i, i)]
DigitSet == {"0","1","2","3","4","5","6","7","8","9"}
IsDigit(c) == c \in DigitSet
LowerHex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
UpperHex == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
HexVal(c) == LET S == {i \in 1 .. 16 : LowerHex[i] = c \/ UpperHex[i] = c} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
IsHead(c) == c \in Letters \/ c \in {"_", "$"}
BodySet == Letters \cup DigitSet \cup {"_", "$"}
HexSet == DigitSet \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
IsSpace(c) == c \in {" ", "\t", "\n"}

At(s, i) == IF i <= Len(s) THEN s[i] ELSE ""
RECURSIVE Span(_, _, _)
Span(s, i, S) == IF i <= Len(s) /\ s[i] \in S THEN Span(s, i + 1, S) ELSE i   \* first position not in the run
Join(s, i, j) == FoldLeft(LAMBDA a, c : a \o c, "", SubSeq(s, i, j - 1))

RECURSIVE Dec(_, _, _)
Dec(s, i, acc) == IF i > Len(s) THEN acc
                  ELSE Dec(s, i + 1, Add(Mul(acc, WOf(10)), WOf(HexVal(s[i]))))
RECURSIVE Hex(_, _, _)
Hex(s, i, acc) == IF i > Len(s) THEN acc
                  ELSE Hex(s, i + 1, Add(Mul(acc, WOf(16)), WOf(HexVal(s[i]))))

(* a name: components with indices, separated by dots; returns its end, or 0 *)
NameIdx(s, i) ==      \* after "[": an index; the position after "]", or 0
    LET j == Span(s, i, DigitSet)
        k == IF At(s, j) = ":" THEN Span(s, j + 1, DigitSet) ELSE j
        l == Span(s, i, BodySet)
    IN IF j > i THEN (IF (k = j \/ k > j + 1) /\ At(s, k) = "]" THEN k + 1 ELSE 0)
       ELSE IF l > i /\ IsHead(s[i]) /\ At(s, l) = "]" THEN l + 1 ELSE 0
RECURSIVE NameEnd(_, _)
NameEnd(s, i) ==      \* i is behind a component without the indices
    IF At(s, i) = "[" THEN LET j == NameIdx(s, i + 1) IN IF j = 0 THEN 0 ELSE NameEnd(s, j)
    ELSE IF At(s, i) = "." /\ i < Len(s) /\ IsHead(s[i + 1]) THEN NameEnd(s, Span(s, i + 1, BodySet))
    ELSE i

Two == {"==", "!=", "<=", ">=", "&&", "||"}
Single == {"+", "-", "*", "/", "%", "<", ">", "!", "~", "&", "|", "^", "(", ")"}
(* tokens: <<"n", word>>, <<"v", name>>, <<"o", text>>; <<<<"bad">>>> if the text has none *)
RECURSIVE Lex(_, _, _)
Lex(s, i, toks) ==
    IF i > Len(s) THEN toks
    ELSE LET c == s[i]
             two == c \o At(s, i + 1)
         IN IF IsSpace(c) THEN Lex(s, i + 1, toks)
            ELSE IF IsDigit(c)
            THEN LET j == Span(s, i, DigitSet)
                     h == At(s, j) = "'" /\ At(s, j + 1) = "h" /\ j + 2 <= Len(s) /\ HexVal(At(s, j + 2)) >= 0
                     k == IF h THEN Span(s, j + 2, HexSet) ELSE j
                 IN Lex(s, TLCEval(k), Append(toks, <<"n", IF h THEN Hex(SubSeq(s, j + 2, k - 1), 1, Zero) ELSE Dec(SubSeq(s, i, j - 1), 1, Zero)>>))
            ELSE IF IsHead(c)
            THEN LET j == NameEnd(s, Span(s, i, BodySet))
                 IN IF j = 0 THEN <<<<"bad">>>> ELSE Lex(s, j, Append(toks, <<"v", Join(s, i, j)>>))
            ELSE IF two \in Two THEN Lex(s, i + 2, Append(toks, <<"o", two>>))
            ELSE IF c \in Single THEN Lex(s, i + 1, Append(toks, <<"o", c>>))
            ELSE <<<<"bad">>>>

(* precedence levels of the binary operators, weakest first *)
Level == <<{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<=", ">=", "<", ">"}, {"+", "-"}, {"*", "/", "%"}>>
LevelOf == [o \in UNION {Level[l] : l \in 1 .. 9} |-> CHOOSE l \in 1 .. 9 : o \in Level[l]]
BinaryOps == DOMAIN LevelOf
Unary == {"!", "~", "+", "-"}
Fail == [ok |-> FALSE, i |-> 0, t |-> <<"n", Zero>>]
Got(i, t) == [ok |-> TRUE, i |-> i, t |-> t]
OpAt(ts, i) == IF i <= Len(ts) /\ ts[i][1] = "o" THEN ts[i][2] ELSE ""
RECURSIVE P(_, _, _), Prim(_, _), Rest(_, _, _)
Prim(ts, i) ==        \* an operand
    IF i > Len(ts) THEN Fail
    ELSE IF ts[i][1] # "o" THEN Got(i + 1, ts[i])
    ELSE IF ts[i][2] \in Unary
    THEN LET r == Prim(ts, i + 1) IN IF r.ok THEN Got(r.i, <<ts[i][2], r.t>>) ELSE Fail
    ELSE IF ts[i][2] = "("
    THEN LET r == P(ts, i + 1, 1) IN IF r.ok /\ OpAt(ts, r.i) = ")" THEN Got(r.i + 1, r.t) ELSE Fail
    ELSE Fail
P(ts, i, l) ==        \* operands joined by operators of level l or stronger
    LET r == Prim(ts, i) IN IF r.ok THEN Rest(ts, r, l) ELSE Fail
Rest(ts, r, l) ==     \* r, joined with what follows, from left to right
    LET o == OpAt(ts, r.i)
    IN IF o \notin BinaryOps THEN r
       ELSE IF LevelOf[o] < l THEN r
       ELSE LET q == P(ts, r.i + 1, LevelOf[o] + 1)
            IN IF q.ok THEN Rest(ts, Got(q.i, <<o, r.t, q.t>>), l) ELSE Fail
Parse(text) ==
    LET ts == Lex(text, 1, <<>>)
        r == IF \E k \in 1 .. Len(ts) : ts[k][1] = "bad" THEN Fail ELSE P(ts, 1, 1)
    IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE Fail

RECURSIVE Names(_)
Names(t) == CASE t[1] = "n" -> {}
              [] t[1] = "v" -> {t[2]}
              [] Len(t) = 2 -> Names(t[2])
              [] OTHER -> Names(t[2]) \cup Names(t[3])
RECURSIVE Eval(_, _)
Eval(t, env) ==
    IF t[1] = "n" THEN t[2]
    ELSE IF t[1] = "v" THEN env[t[2]]
    ELSE IF Len(t) = 2
    THEN LET a == TLCEval(Eval(t[2], env))
         IN CASE t[1] = "!" -> Truth(a = Zero) [] t[1] = "~" -> Not64(a) [] t[1] = "+" -> a [] t[1] = "-" -> Neg(a)
    ELSE LET a == TLCEval(Eval(t[2], env))
             b == TLCEval(Eval(t[3], env))
         IN CASE t[1] = "||" -> Truth(a # Zero \/ b # Zero)
              [] t[1] = "&&" -> Truth(a # Zero /\ b # Zero)
              [] t[1] = "|" -> Or8(a, b)
              [] t[1] = "^" -> Xor8(a, b)
              [] t[1] = "&" -> And8(a, b)
              [] t[1] = "==" -> Truth(a = b)
              [] t[1] = "!=" -> Truth(a # b)
              [] t[1] = "<" -> Truth(Lt(a, b))
              [] t[1] = ">" -> Truth(Lt(b, a))
              [] t[1] = "<=" -> Truth(~Lt(b, a))
              [] t[1] = ">=" -> Truth(~Lt(a, b))
              [] t[1] = "+" -> Add(a, b)
              [] t[1] = "-" -> Sub(a, b)
              [] t[1] = "*" -> Mul(a, b)
              [] t[1] = "/" -> Div(a, b)
              [] t[1] = "%" -> Mod(a, b)

RECURSIVE DecStr(_)
DecStr(w) == LET qr == TLCEval(UDivR(w, WOf(10), 63, Zero, Zero))
             IN IF qr[1] = Zero THEN Chars(ToString(qr[2][1])) ELSE DecStr(qr[1]) \o Chars(ToString(qr[2][1]))
RECURSIVE HexDigits(_, _)
HexDigits(w, i) == IF i = 0 THEN <<>> ELSE <<UpperHex[(w[i] \div 16) + 1], LowerHex[(w[i] % 16) + 1]>> \o HexDigits(w, i - 1)
(* a literal for a word: decimal or hexadecimal *)
Lit(w) == IF ~IsNeg(w) /\ w[1] % 2 = 0 THEN DecStr(w) ELSE Chars("64'h") \o HexDigits(w, 8)

(* the text of a tree with no more parentheses than precedence and left associativity need *)
Prec(t) == IF t[1] \in {"n", "v"} \/ Len(t) = 2 THEN 10
           ELSE LevelOf[t[1]]
RECURSIVE Render(_)
Render(t) ==
    LET sub(x, min) == IF Prec(x) < min THEN <<"(">> \o Render(x) \o <<")">> ELSE Render(x)
    IN IF t[1] = "n" THEN Lit(t[2])
       ELSE IF t[1] = "v" THEN Chars(t[2])
       ELSE IF Len(t) = 2 THEN <<t[1]>> \o sub(t[2], 10)
       ELSE sub(t[2], Prec(t)) \o Chars(t[1]) \o sub(t[3], Prec(t) + 1)
=============================================================================
