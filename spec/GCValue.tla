------------------------------ MODULE GCValue ------------------------------
(* The abstract content of a GenericContainer.                              *)
(*                                                                          *)
(* A value is a tuple whose first component is the type tag of the library  *)
(* (enum GC_type):                                                          *)
(*   <<0>>                 empty                                            *)
(*   <<1,p>>               pointer (p identifies it, 0 = null)              *)
(*   <<2,b>>               boolean, b in {0,1}                              *)
(*   <<3,i>>               32-bit integer                                   *)
(*   <<4,w>>  <<5,w>>      64-bit integer / real, w a machine word          *)
(*   <<6,<<re,im>>>>       complex                                          *)
(*   <<7,bytes>>           string: a sequence of bytes                      *)
(*   <<8..14,seq>>         vectors of the kinds 1..7                        *)
(*   <<15..18,nr,nc,seq>>  matrices of the kinds 3..6, column-major         *)
(*   <<19,seq>>            list of values                                   *)
(*   <<20,seq>>            map: <<key bytes, value>> sorted by key          *)
EXTENDS Words, SequencesExt, FiniteSets

TNO == 0   TPTR == 1   TBOOL == 2  TINT == 3   TLONG == 4  TREAL == 5
TCPLX == 6 TSTR == 7   VPTR == 8   VBOOL == 9  VINT == 10  VLONG == 11
VREAL == 12 VCPLX == 13 VSTR == 14 MINT == 15  MLONG == 16 MREAL == 17
MCPLX == 18 TVEC == 19 TMAP == 20

NoVal   == <<0>>
K(v)    == v[1]
IsScalK(k) == k \in 1..7
IsVecK(k)  == k \in 8..14
IsMatK(k)  == k \in 15..18
IsNumK(k)  == k \in 2..6
VecOf(k) == k+7          \* vector kind of an element kind
MatOf(k) == k+12         \* matrix kind of an element kind
ElemK(k) == IF IsMatK(k) THEN k-12 ELSE IF IsVecK(k) THEN k-7 ELSE k

(* the elements (payloads) of a scalar, vector or matrix *)
Elems(v) == IF IsMatK(K(v)) THEN v[4] ELSE IF IsVecK(K(v)) THEN v[2] ELSE << v[2] >>

NumElems(v) == CASE K(v) = 0 -> 0
                 [] K(v) \in 1..7 -> 1
                 [] IsMatK(K(v)) -> Len(v[4])
                 [] OTHER -> Len(v[2])
NumRows(v) == CASE K(v) = 0 -> 0 [] IsMatK(K(v)) -> v[2] [] OTHER -> 1
NumCols(v) == CASE K(v) = 0 -> 0 [] IsMatK(K(v)) -> v[3]
                [] K(v) \in 1..7 -> 1 [] OTHER -> Len(v[2])

ZeroOf(k) == CASE k = 1 -> 0 [] k = 2 -> 0 [] k = 3 -> 0 [] k = 4 -> ZeroW
               [] k = 5 -> ZeroW [] k = 6 -> <<ZeroW,ZeroW>> [] k = 7 -> <<>>

Fill(n,z) == [ i \in 1..n |-> z ]
Resize(s,n,z) == [ i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE z ]
Grow(s,n,z) == IF Len(s) >= n THEN s ELSE Resize(s,n,z)
Map1(s,F(_)) == [ i \in 1..Len(s) |-> F(s[i]) ]
AllIn(s,P(_)) == \A i \in 1..Len(s) : P(s[i])

-----------------------------------------------------------------------------
(* byte strings, ordered lexicographically *)
RECURSIVE LessFrom(_,_,_)
LessFrom(a,b,i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LessFrom(a,b,i+1)
LessB(a,b) == LessFrom(a,b,1)

(* maps *)
KeyIdx(m,k) == IF \E i \in 1..Len(m) : m[i][1] = k
               THEN CHOOSE i \in 1..Len(m) : m[i][1] = k ELSE 0
HasKey(m,k) == KeyIdx(m,k) # 0
GetKey(m,k) == m[KeyIdx(m,k)][2]
PutKey(m,k,x) ==
  LET i == KeyIdx(m,k) IN
  IF i # 0 THEN [m EXCEPT ![i] = <<k,x>>]
  ELSE LET n == Cardinality({ j \in 1..Len(m) : LessB(m[j][1],k) }) IN
       SubSeq(m,1,n) \o << <<k,x>> >> \o SubSeq(m,n+1,Len(m))
DelKey(m,k) ==
  LET i == KeyIdx(m,k) IN
  IF i = 0 THEN m ELSE SubSeq(m,1,i-1) \o SubSeq(m,i+1,Len(m))
KeysOf(m) == [ i \in 1..Len(m) |-> m[i][1] ]
SortedMap(m) == \A i \in 1..Len(m)-1 : LessB(m[i][1],m[i+1][1])

-----------------------------------------------------------------------------
IsByte(b) == b \in 0..255
IsBytes(s) == \A i \in 1..Len(s) : IsByte(s[i])
IsWord(w) == Len(w) = 4 /\ \A i \in 1..4 : w[i] \in 0..65535
IsPayload(k,x) == CASE k = 1 -> x \in Int
                    [] k = 2 -> x \in {0,1}
                    [] k = 3 -> x \in Int
                    [] k \in {4,5} -> IsWord(x)
                    [] k = 6 -> Len(x) = 2 /\ IsWord(x[1]) /\ IsWord(x[2])
                    [] k = 7 -> IsBytes(x)
RECURSIVE WellFormed(_)
WellFormed(v) ==
  CASE K(v) = 0 -> Len(v) = 1
    [] K(v) \in 1..7 -> Len(v) = 2 /\ IsPayload(K(v),v[2])
    [] IsVecK(K(v)) -> Len(v) = 2 /\ \A i \in 1..Len(v[2]) : IsPayload(ElemK(K(v)),v[2][i])
    [] IsMatK(K(v)) -> /\ Len(v) = 4 /\ v[2] >= 0 /\ v[3] >= 0
                       /\ Len(v[4]) = v[2]*v[3]
                       /\ \A i \in 1..Len(v[4]) : IsPayload(ElemK(K(v)),v[4][i])
    [] K(v) = TVEC -> Len(v) = 2 /\ \A i \in 1..Len(v[2]) : WellFormed(v[2][i])
    [] K(v) = TMAP -> /\ Len(v) = 2 /\ SortedMap(v[2])
                      /\ \A i \in 1..Len(v[2]) : IsBytes(v[2][i][1]) /\ WellFormed(v[2][i][2])
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Numbers. Conv widens a payload from kind kf to kind kt >= kf.            *)
ToLongW(k,x) == CASE k = 2 -> IntToW(x) [] k = 3 -> IntToW(x) [] k = 4 -> x
ToRealW(k,x) == CASE k = 2 -> BoolToReal(x) [] k = 3 -> IntToReal(x)
                  [] k = 4 -> LongToReal(x) [] k = 5 -> x
ToCplx(k,x)  == IF k = 6 THEN x ELSE << ToRealW(k,x), ZeroW >>
Conv(kf,kt,x) == CASE kf = kt -> x
                   [] kt = 3 -> x
                   [] kt = 4 -> ToLongW(kf,x)
                   [] kt = 5 -> ToRealW(kf,x)
                   [] kt = 6 -> ToCplx(kf,x)
ConvSeq(kf,kt,s) == IF kf = kt THEN s ELSE [ i \in 1..Len(s) |-> Conv(kf,kt,s[i]) ]

(* The exact integer denoted by a number: <<sign,magnitude>> with           *)
(* magnitude < 2^64, or <<2,0>> when it is not an integer of that size.     *)
(* A real of subnormal magnitude counts as zero (of its own sign).          *)
NoInt == <<2,ZeroW>>
RealIntView(x) ==
  IF ~IsFin(x) THEN NoInt
  ELSE IF ~IsIntegral(x) \/ ExpR(x) > 1086 THEN NoInt
  ELSE IF IsZeroR(x) THEN <<0,ZeroW>>
  ELSE << SgnR(x), IntegralMag(x) >>
IntView(k,x) ==
  CASE k = 2 -> <<0,IntToW(x)>>
    [] k \in {3,4} -> LET w == ToLongW(k,x) IN
                      IF IsNegW(w) THEN <<1,NegW(w)>> ELSE <<0,w>>
    [] k = 5 -> RealIntView(x)
    [] k = 6 -> IF IsZero0R(x[2]) THEN RealIntView(x[1]) ELSE NoInt
FitsI(iv)  == \/ iv[1] = 0 /\ iv[2][1] = 0 /\ iv[2][2] = 0 /\ iv[2][3] < 32768
              \/ iv[1] = 1 /\ iv[2][1] = 0 /\ iv[2][2] = 0
                 /\ (iv[2][3] < 32768 \/ iv[2] = <<0,0,32768,0>>)
FitsU(iv)  == iv[1] = 0 /\ iv[2][1] = 0 /\ iv[2][2] = 0
FitsL(iv)  == \/ iv[1] = 0 /\ iv[2][1] < 32768
              \/ iv[1] = 1 /\ (iv[2][1] < 32768 \/ iv[2] = <<32768,0,0,0>>)
FitsUL(iv) == iv[1] = 0
SignedW(iv) == IF iv[1] = 1 THEN NegW(iv[2]) ELSE iv[2]
(* targets: "int" "uint" "long" "ulong" *)
FitsT(T,iv) == CASE T = "int" -> FitsI(iv) [] T = "uint" -> FitsU(iv)
                 [] T = "long" -> FitsL(iv) [] T = "ulong" -> FitsUL(iv)
ValT(T,iv) == IF T = "int" THEN WToInt(SignedW(iv)) ELSE SignedW(iv)

-----------------------------------------------------------------------------
(* Equality as the library compares contents: same kinds, same shapes,      *)
(* reals by IEEE value.                                                     *)
EqPay(k,x,y) == CASE k = 5 -> EqR(x,y)
                  [] k = 6 -> EqR(x[1],y[1]) /\ EqR(x[2],y[2])
                  [] OTHER -> x = y
RECURSIVE SameContent(_,_)
SameContent(a,b) ==
  /\ K(a) = K(b)
  /\ CASE K(a) = 0 -> TRUE
       [] K(a) \in 1..7 -> EqPay(K(a),a[2],b[2])
       [] IsVecK(K(a)) -> /\ Len(a[2]) = Len(b[2])
                          /\ \A i \in 1..Len(a[2]) : EqPay(ElemK(K(a)),a[2][i],b[2][i])
       [] IsMatK(K(a)) -> /\ a[2] = b[2] /\ a[3] = b[3]
                          /\ \A i \in 1..Len(a[4]) : EqPay(ElemK(K(a)),a[4][i],b[4][i])
       [] K(a) = TVEC -> /\ Len(a[2]) = Len(b[2])
                         /\ \A i \in 1..Len(a[2]) : SameContent(a[2][i],b[2][i])
       [] K(a) = TMAP -> /\ KeysOf(a[2]) = KeysOf(b[2])
                         /\ \A i \in 1..Len(a[2]) : SameContent(a[2][i][2],b[2][i][2])

-----------------------------------------------------------------------------
(* Paths: sequences of <<"i",index>> (0-based, into a list) and             *)
(* <<"k",key>> (into a map).                                                *)
RECURSIVE HasPath(_,_)
HasPath(v,p) ==
  IF p = <<>> THEN TRUE
  ELSE IF p[1][1] = "i"
       THEN K(v) = TVEC /\ p[1][2] < Len(v[2]) /\ HasPath(v[2][p[1][2]+1],Tail(p))
       ELSE K(v) = TMAP /\ HasKey(v[2],p[1][2]) /\ HasPath(GetKey(v[2],p[1][2]),Tail(p))
RECURSIVE AtPath(_,_)
AtPath(v,p) ==
  IF p = <<>> THEN v
  ELSE IF p[1][1] = "i" THEN AtPath(v[2][p[1][2]+1],Tail(p))
  ELSE AtPath(GetKey(v[2],p[1][2]),Tail(p))
RECURSIVE PutPath(_,_,_)
PutPath(v,p,x) ==
  IF p = <<>> THEN x
  ELSE IF p[1][1] = "i"
       THEN << TVEC, [v[2] EXCEPT ![p[1][2]+1] = PutPath(@,Tail(p),x)] >>
       ELSE << TMAP, PutKey(v[2],p[1][2],PutPath(GetKey(v[2],p[1][2]),Tail(p),x)) >>

-----------------------------------------------------------------------------
(* ASCII text as bytes *)
Ascii == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
  "0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?","@",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S",
  "T","U","V","W","X","Y","Z","[","\\","]","^","_","`",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s",
  "t","u","v","w","x","y","z","{","|","}","~">>
CodeOf(c) == IF c = "\n" THEN 10 ELSE 31 + (CHOOSE i \in 1..Len(Ascii) : Ascii[i] = c)
B(s) == [ i \in 1..Len(s) |-> CodeOf(SubSeq(s,i,i)) ]
NL == <<10>>

(* decimal digits of a native integer / an unsigned word *)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48+n>> ELSE DecDigits(n \div 10) \o <<48 + (n%10)>>
(* n may be -2^31, which has no native opposite *)
DecInt(n) == IF n >= 0 THEN DecDigits(n)
             ELSE IF n = -2147483647-1 THEN B("-2147483648")
             ELSE <<45>> \o DecDigits(-n)
(* quotient and remainder of a word by a small number (< 2^15) *)
DivW(w,d) ==
  LET q1 == w[1] \div d  r1 == w[1] % d
      t2 == r1*W16 + w[2]  q2 == t2 \div d  r2 == t2 % d
      t3 == r2*W16 + w[3]  q3 == t3 \div d  r3 == t3 % d
      t4 == r3*W16 + w[4]  q4 == t4 \div d  r4 == t4 % d
  IN << <<q1,q2,q3,q4>>, r4 >>
RECURSIVE DecUW(_)
DecUW(w) == LET qr == DivW(w,10) IN
            IF qr[1] = ZeroW THEN <<48+qr[2]>> ELSE DecUW(qr[1]) \o <<48+qr[2]>>
DecW(w) == IF IsNegW(w) THEN <<45>> \o DecUW(NegW(w)) ELSE DecUW(w)
=============================================================================
