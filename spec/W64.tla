---------------------------------- MODULE W64 ----------------------------------
(***************************************************************************)
(* 64-bit two's complement words as eight bytes, least significant first   *)
(* (the integers of TLC have 32 bits).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

Bytes == 1 .. 8
(* tuples rather than functions: TLC evaluates them at once *)
Not64(a) == <<255 - a[1], 255 - a[2], 255 - a[3], 255 - a[4], 255 - a[5], 255 - a[6], 255 - a[7], 255 - a[8]>>
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
One == <<1, 0, 0, 0, 0, 0, 0, 0>>
MinusOne == <<255, 255, 255, 255, 255, 255, 255, 255>>

Pow256 == <<1, 256, 65536, 16777216>>
ByteOf(n, i) == IF i > 4 THEN 0 ELSE (n \div Pow256[i]) % 256      \* n >= 0
WOf(n) == IF n >= 0 THEN <<ByteOf(n, 1), ByteOf(n, 2), ByteOf(n, 3), ByteOf(n, 4), ByteOf(n, 5), ByteOf(n, 6), ByteOf(n, 7), ByteOf(n, 8)>>
          ELSE Not64(<<ByteOf(0 - (n + 1), 1), ByteOf(0 - (n + 1), 2), ByteOf(0 - (n + 1), 3), ByteOf(0 - (n + 1), 4), ByteOf(0 - (n + 1), 5), ByteOf(0 - (n + 1), 6), ByteOf(0 - (n + 1), 7), ByteOf(0 - (n + 1), 8)>>)
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > 8 THEN <<>>
                    ELSE LET x == a[i] + b[i] + c IN <<x % 256>> \o AddC(a, b, i + 1, TLCEval(x \div 256))
Add(a, b) == AddC(a, b, 1, 0)
Neg(a) == Add(Not64(a), One)
Sub(a, b) == Add(a, Neg(b))
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Col(a, b, k, i + 1)
RECURSIVE MulC(_, _, _, _)
MulC(a, b, k, c) == IF k > 8 THEN <<>>
                    ELSE LET x == Col(a, b, k, 1) + c IN <<x % 256>> \o MulC(a, b, k + 1, TLCEval(x \div 256))
Mul(a, b) == MulC(a, b, 1, 0)
And8(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4], a[5] & b[5], a[6] & b[6], a[7] & b[7], a[8] & b[8]>>
Or8(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4], a[5] | b[5], a[6] | b[6], a[7] | b[7], a[8] | b[8]>>
Xor8(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8]>>
IsNeg(a) == a[8] >= 128
RECURSIVE LtU(_, _, _)
LtU(a, b, i) == IF i = 0 THEN FALSE ELSE a[i] < b[i] \/ (a[i] = b[i] /\ LtU(a, b, i - 1))
ULt(a, b) == LtU(a, b, 8)
Lt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE ULt(a, b)
Bit(a, k) == (a[(k \div 8) + 1] \div (2 ^ (k % 8))) % 2
ShiftIn(a, b) == Add(Add(a, a), IF b = 1 THEN One ELSE Zero)
(* unsigned division, bit by bit: <<quotient, remainder>> *)
RECURSIVE UDivR(_, _, _, _, _)
UDivR(a, b, k, q, r) ==
    IF k < 0 THEN <<q, r>>
    ELSE LET carry == IsNeg(r)
             r1 == ShiftIn(r, Bit(a, k))
         IN IF carry \/ ~ULt(r1, b) THEN UDivR(a, b, k - 1, TLCEval(ShiftIn(q, 1)), TLCEval(Sub(r1, b)))
            ELSE UDivR(a, b, k - 1, TLCEval(ShiftIn(q, 0)), TLCEval(r1))
AbsW(a) == IF IsNeg(a) THEN Neg(a) ELSE a
DivMod(a, b) == UDivR(TLCEval(AbsW(a)), TLCEval(AbsW(b)), 63, Zero, Zero)
(* truncating towards zero; dividing by zero gives zero *)
Div(a, b) == IF b = Zero THEN Zero
             ELSE LET q == DivMod(a, b)[1] IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
Mod(a, b) == IF b = Zero THEN Zero
             ELSE LET r == DivMod(a, b)[2] IN IF IsNeg(a) THEN Neg(r) ELSE r
Truth(x) == IF x THEN One ELSE Zero
=============================================================================
