------------------------------- MODULE Words -------------------------------
(* 64-bit machine words for TLC, whose integers are 32-bit.                 *)
(*                                                                          *)
(* A word is <<w3,w2,w1,w0>>, four 16-bit limbs, most significant first.    *)
(* The same representation is used for                                      *)
(*   - 64-bit integers (two's complement when signed), and                  *)
(*   - IEEE-754 binary64 numbers (their bit pattern; NaN is canonical).     *)
(* Native TLC integers are used for 32-bit signed integers.                 *)
(* Everything here is a total function defined by integer arithmetic on     *)
(* limbs; nothing is approximated.                                          *)
EXTENDS Integers, Sequences, TLC

W16   == 65536
ZeroW == <<0,0,0,0>>
NaNW  == <<32760,0,0,0>>
PInfW == <<32752,0,0,0>>
NInfW == <<65520,0,0,0>>

IsNegW(w) == w[1] >= 32768

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8
             [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128
             [] n = 8 -> 256 [] n = 9 -> 512 [] n = 10 -> 1024 [] n = 11 -> 2048
             [] n = 12 -> 4096 [] n = 13 -> 8192 [] n = 14 -> 16384
             [] n = 15 -> 32768 [] n = 16 -> 65536

AddW(a,b) ==
  LET s0 == a[4]+b[4]
      s1 == a[3]+b[3]+(s0 \div W16)
      s2 == a[2]+b[2]+(s1 \div W16)
      s3 == a[1]+b[1]+(s2 \div W16)
  IN << s3 % W16, s2 % W16, s1 % W16, s0 % W16 >>

NotW(w) == << 65535-w[1], 65535-w[2], 65535-w[3], 65535-w[4] >>
NegW(w) == AddW( NotW(w), <<0,0,0,1>> )

(* native (int32) <-> word, sign extended *)
IntToW(i) ==
  IF i >= 0 THEN <<0,0,i \div W16,i % W16>>
  ELSE <<65535,65535,(i \div W16)+W16,i % W16>>
WInInt(w)  == \/ w[1] = 0     /\ w[2] = 0     /\ w[3] < 32768
              \/ w[1] = 65535 /\ w[2] = 65535 /\ w[3] >= 32768
WInUint(w) == w[1] = 0 /\ w[2] = 0
WToInt(w)  == IF w[3] >= 32768 THEN (w[3]-W16)*W16 + w[4] ELSE w[3]*W16 + w[4]

MagW(w) == IF IsNegW(w) THEN NegW(w) ELSE w  \* magnitude of a signed word

BitLen16(x) == CHOOSE n \in 0..16 : x < Pow2(n) /\ (n = 0 \/ x >= Pow2(n-1))
BitLenW(m) == IF m[1] # 0 THEN 48+BitLen16(m[1])
              ELSE IF m[2] # 0 THEN 32+BitLen16(m[2])
              ELSE IF m[3] # 0 THEN 16+BitLen16(m[3])
              ELSE BitLen16(m[4])

(* logical shifts by 0..63 *)
Limb(m,i) == IF i \in 1..4 THEN m[i] ELSE 0
ShlW(m,k) ==
  LET ws == k \div 16  bs == k % 16
      L(i) == ( (Limb(m,i+ws) * Pow2(bs)) % W16 ) + ( (Limb(m,i+ws+1) * Pow2(bs)) \div W16 )
  IN << L(1), L(2), L(3), L(4) >>
ShrW(m,k) ==
  LET ws == k \div 16  bs == k % 16
      L(i) == ( Limb(m,i-ws) \div Pow2(bs) ) +
              ( (Limb(m,i-ws-1) % Pow2(bs)) * Pow2(16-bs) )
  IN << L(1), L(2), L(3), L(4) >>
LowBitsZero(m,k) == ShlW( ShrW(m,k), k ) = m   \* for k in 0..63

-----------------------------------------------------------------------------
(* binary64 *)
SgnR(x)  == x[1] \div 32768
ExpR(x)  == (x[1] \div 16) % 2048
FracR(x) == << x[1] % 16, x[2], x[3], x[4] >>
IsNaN(x)  == ExpR(x) = 2047 /\ FracR(x) # ZeroW
IsInf(x)  == ExpR(x) = 2047 /\ FracR(x) = ZeroW
IsFin(x)  == ExpR(x) # 2047
IsZeroR(x) == ExpR(x) = 0 /\ FracR(x) = ZeroW
(* what the library calls zero when it inspects an imaginary part *)
IsZero0R(x) == ExpR(x) = 0
NegR(x) == IF IsNaN(x) THEN x
           ELSE << IF x[1] >= 32768 THEN x[1]-32768 ELSE x[1]+32768, x[2], x[3], x[4] >>
(* IEEE equality *)
EqR(x,y) == /\ ~IsNaN(x) /\ ~IsNaN(y)
            /\ ( x = y \/ (IsZeroR(x) /\ IsZeroR(y)) )
(* x >= 0 *)
GeZeroR(x) == ~IsNaN(x) /\ ( IsZeroR(x) \/ SgnR(x) = 0 )
LtZeroR(x) == ~IsNaN(x) /\ ~IsZeroR(x) /\ SgnR(x) = 1
GtZeroR(x) == ~IsNaN(x) /\ ~IsZeroR(x) /\ SgnR(x) = 0

MantR(x) == << 16 + (x[1] % 16), x[2], x[3], x[4] >>   \* with the hidden bit

(* The value of x is an integer (subnormals count as 0, as in the library) *)
IsIntegral(x) ==
  \/ ExpR(x) = 0
  \/ ExpR(x) >= 1075 /\ IsFin(x)
  \/ ExpR(x) >= 1023 /\ ExpR(x) < 1075 /\ LowBitsZero( MantR(x), 1075-ExpR(x) )
(* magnitude of an integral x, |x| < 2^64, as an unsigned word *)
IntegralMag(x) ==
  IF ExpR(x) < 1023 THEN ZeroW
  ELSE IF ExpR(x) <= 1075 THEN ShrW( MantR(x), 1075-ExpR(x) )
  ELSE ShlW( MantR(x), ExpR(x)-1075 )
(* x integral: does it fit a signed / unsigned 64-bit integer? *)
FitsLong(x)  == \/ ExpR(x) < 1086
                \/ ExpR(x) = 1086 /\ SgnR(x) = 1 /\ FracR(x) = ZeroW
FitsUlong(x) == \/ ExpR(x) = 0 /\ (IsZeroR(x) \/ SgnR(x) = 0)
                \/ SgnR(x) = 0 /\ ExpR(x) <= 1086
(* x integral and FitsLong *)
RealToLong(x) == IF SgnR(x) = 1 THEN NegW(IntegralMag(x)) ELSE IntegralMag(x)

PackR(s,e,m) == << s*32768 + e*16 + (m[1] % 16), m[2], m[3], m[4] >>

(* unsigned magnitude m and sign s to binary64, round to nearest even *)
MagToReal(s,m) ==
  IF m = ZeroW THEN ZeroW ELSE
  LET L == BitLenW(m) IN
  IF L <= 53 THEN PackR( s, 1022+L, ShlW(m,53-L) )
  ELSE LET d    == L-53                    \* 1..11 bits are dropped
           r    == m[4] % Pow2(d)
           half == Pow2(d-1)
           q    == ShrW(m,d)               \* 53 bits
           up   == r > half \/ (r = half /\ q[4] % 2 = 1)
           q1   == IF up THEN AddW(q,<<0,0,0,1>>) ELSE q
       IN IF q1 = <<32,0,0,0>> THEN PackR(s,1023+L,ZeroW) ELSE PackR(s,1022+L,q1)
LongToReal(w) == MagToReal( IF IsNegW(w) THEN 1 ELSE 0, MagW(w) )
UlongToReal(w) == MagToReal( 0, w )
IntToReal(i)  == LongToReal(IntToW(i))
BoolToReal(b) == IF b = 1 THEN <<16368,0,0,0>> ELSE ZeroW

(* rounding to binary32, expressed as the binary64 of the result; defined   *)
(* for zeros, infinities, NaN, and magnitudes in [2^-126, overflow]         *)
InFloatRange(x) == ExpR(x) = 2047 \/ IsZeroR(x) \/ ExpR(x) >= 897
RealToFloat(x) ==
  IF ExpR(x) = 2047 \/ IsZeroR(x) THEN x
  ELSE LET m  == MantR(x)
           \* keep 24 bits: drop the low 29 bits
           q  == ShrW(m,29)
           r  == << 0, 0, m[3] % 8192, m[4] >>     \* 29 bits
           half == << 0, 0, 4096, 0 >>
           gt == r[3] > 4096 \/ (r[3] = 4096 /\ r[4] > 0)
           up == gt \/ (r = half /\ q[4] % 2 = 1)
           q1 == IF up THEN AddW(q,<<0,0,0,1>>) ELSE q
           ovf == q1 = <<0,0,256,0>>
           e1 == IF ovf THEN ExpR(x)+1 ELSE ExpR(x)
           m1 == IF ovf THEN ShlW(<<0,0,128,0>>,29) ELSE ShlW(q1,29)
       IN IF e1 > 1150 THEN (IF SgnR(x) = 1 THEN NInfW ELSE PInfW)
          ELSE PackR( SgnR(x), e1, m1 )

(* bytes, little endian *)
WToBytes(w) == << w[4]%256, w[4]\div 256, w[3]%256, w[3]\div 256,
                  w[2]%256, w[2]\div 256, w[1]%256, w[1]\div 256 >>
BytesToW(b) == << b[8]*256+b[7], b[6]*256+b[5], b[4]*256+b[3], b[2]*256+b[1] >>
IntToBytes(i) == LET w == IntToW(i) IN
  << w[4]%256, w[4]\div 256, w[3]%256, w[3]\div 256 >>
BytesToInt(b) == LET hi == b[4]*256+b[3]  lo == b[2]*256+b[1] IN
  IF hi >= 32768 THEN (hi-W16)*W16+lo ELSE hi*W16+lo
=============================================================================
