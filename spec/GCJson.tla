------------------------------- MODULE GCJson -------------------------------
(* JSON.  A text is a sequence of bytes; ParseDoc is RFC 8259 as a          *)
(* recursive descent; Image is what the readers build from a document and   *)
(* Denotes relates what the writer emitted to the content it was given.     *)
(*                                                                          *)
(* Documents: <<"null">> <<"bool",b>> <<"num",lexeme>> <<"str",bytes>>      *)
(*            <<"arr",docs>> <<"obj",<<<<key,doc>>,...>>>>                  *)
(* Parse results: <<"ok",next,x>>, <<"bad",where>> or <<"un",where>> (the   *)
(* property leaves the outcome open).                                       *)
(* m = 1: the strict grammar.  m = 2: the second reader, whose documented   *)
(* leniencies are left open.                                                *)
(*                                                                          *)
(* The decimal <-> binary conversion of non-integers is not computed here:  *)
(* rt = <<<<lexeme,word>>,...>> and ft = <<<<word,text>>,...>> are given.   *)
EXTENDS GCSer

Pok(i,x) == <<"ok",i,x>>
Pbad(i)  == <<"bad",i>>
Pun(i)   == <<"un",i>>
Pfail(m,i) == IF m = 2 THEN Pun(i) ELSE Pbad(i)   \* a documented leniency

ByteAt(t,i) == IF i <= Len(t) THEN t[i] ELSE -1
IsWs(m,c) == c \in {32,9,10,13}
RECURSIVE SkipWs(_,_,_)
SkipWs(m,t,i) == IF i <= Len(t) /\ IsWs(m,t[i]) THEN SkipWs(m,t,i+1) ELSE i
IsDigit(c) == c \in 48..57
RECURSIVE SkipDigits(_,_)
SkipDigits(t,i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN SkipDigits(t,i+1) ELSE i

HexVal(c) == CASE c \in 48..57 -> c-48 [] c \in 65..70 -> c-55 [] c \in 97..102 -> c-87 [] OTHER -> -1
(* the four hexadecimal digits at i, or -1 *)
Hex4(t,i) == IF i+3 > Len(t) \/ \E n \in 0..3 : HexVal(t[i+n]) < 0 THEN -1
             ELSE ((HexVal(t[i])*16 + HexVal(t[i+1]))*16 + HexVal(t[i+2]))*16 + HexVal(t[i+3])
(* where the four digits go wrong *)
HexErr(t,i) == IF \E n \in 0..3 : i+n > Len(t) \/ HexVal(t[i+n]) < 0
               THEN i + (CHOOSE n \in 0..3 : /\ (i+n > Len(t) \/ HexVal(t[i+n]) < 0)
                                             /\ \A k \in 0..n-1 : i+k <= Len(t) /\ HexVal(t[i+k]) >= 0)
               ELSE i+4
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
           ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
           ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
(* length of the well-formed UTF-8 sequence at i (RFC 3629), 0 if none *)
Cont(t,i) == i <= Len(t) /\ t[i] \in 128..191
Utf8Len(t,i) ==
  LET c == t[i]  d == ByteAt(t,i+1) IN
  CASE c < 128 -> 1
    [] c \in 194..223 -> IF Cont(t,i+1) THEN 2 ELSE 0
    [] c \in 224..239 -> IF Cont(t,i+1) /\ Cont(t,i+2) /\ (c # 224 \/ d >= 160) /\ (c # 237 \/ d < 160) THEN 3 ELSE 0
    [] c \in 240..244 -> IF Cont(t,i+1) /\ Cont(t,i+2) /\ Cont(t,i+3) /\ (c # 240 \/ d >= 144) /\ (c # 244 \/ d < 144) THEN 4 ELSE 0
    [] OTHER -> 0
RECURSIVE Utf8From(_,_)
Utf8From(t,i) == IF i > Len(t) THEN TRUE
                 ELSE LET n == Utf8Len(t,i) IN n > 0 /\ Utf8From(t,i+n)
ValidUtf8(t) == Utf8From(t,1)

Escapes == << <<34,34>>, <<92,92>>, <<47,47>>, <<98,8>>, <<102,12>>, <<110,10>>, <<114,13>>, <<116,9>> >>
EscVal(c) == IF \E n \in 1..8 : Escapes[n][1] = c THEN Escapes[CHOOSE n \in 1..8 : Escapes[n][1] = c][2] ELSE -1
(* i: first byte after the opening quote; s: decoded so far *)
RECURSIVE ParseStr(_,_,_,_)
ParseStr(m,t,i,s) ==
  IF i > Len(t) THEN Pbad(i) ELSE
  LET c == t[i] IN
  CASE c = 34 -> Pok(i+1,s)
    [] c < 32 -> Pfail(m,i)
    [] c = 92 ->
       LET e == ByteAt(t,i+1) IN
       IF e = -1 THEN Pbad(i+1)
       ELSE IF EscVal(e) >= 0 THEN ParseStr(m,t,i+2,Append(s,EscVal(e)))
       ELSE IF e # 117 THEN Pfail(m,i+1)
       ELSE LET h == Hex4(t,i+2) IN
            IF h < 0 THEN Pbad(HexErr(t,i+2))
            ELSE IF h \in 56320..57343 THEN Pun(i+2)
            ELSE IF h \in 55296..56319
                 THEN IF ByteAt(t,i+6) = 92 /\ ByteAt(t,i+7) = 117
                      THEN LET l == Hex4(t,i+8) IN
                           IF l < 0 THEN Pbad(HexErr(t,i+8))
                           ELSE IF l \notin 56320..57343 THEN Pun(i+8)
                           ELSE ParseStr(m,t,i+12,s \o Utf8(65536 + (h-55296)*1024 + (l-56320)))
                      ELSE IF i+6 > Len(t) \/ (ByteAt(t,i+6) = 92 /\ i+7 > Len(t)) THEN Pbad(Len(t)+1) ELSE Pun(i+6)
            ELSE ParseStr(m,t,i+6,s \o Utf8(h))
    [] c < 128 -> ParseStr(m,t,i+1,Append(s,c))
    [] OTHER -> LET n == IF m = 2 THEN Utf8Len(t,i) ELSE 1 IN
                IF n = 0 THEN Pun(i) ELSE ParseStr(m,t,i+n,s \o SubSeq(t,i,i+n-1))

ParseNum(m,t,i) ==
  LET i1 == IF t[i] = 45 THEN i+1 ELSE i
      c == ByteAt(t,i1)
      i2 == IF c = 48 THEN i1+1 ELSE SkipDigits(t,i1)     \* after the integer part
      i3 == IF ByteAt(t,i2) = 46 THEN SkipDigits(t,i2+1) ELSE i2
      hasE == ByteAt(t,i3) \in {69,101}
      i4 == IF hasE THEN (IF ByteAt(t,i3+1) \in {43,45} THEN i3+2 ELSE i3+1) ELSE i3
      i5 == IF hasE THEN SkipDigits(t,i4) ELSE i3
  IN IF ~IsDigit(c) THEN Pbad(i1)
     ELSE IF c = 48 /\ IsDigit(ByteAt(t,i2)) THEN Pfail(m,i2)            \* leading zero
     ELSE IF ByteAt(t,i2) = 46 /\ i3 = i2+1 THEN (IF i3 > Len(t) /\ m = 1 THEN Pbad(i3) ELSE Pfail(m,i3))  \* "1."
     ELSE IF hasE /\ i5 = i4 THEN Pbad(i5)
     ELSE Pok(i5,<<"num",SubSeq(t,i,i5-1)>>)

LitErr(t,i,w) == i + (CHOOSE n \in 0..Len(w) : /\ (n = Len(w) \/ ByteAt(t,i+n) # w[n+1])
                                               /\ \A k \in 0..n-1 : ByteAt(t,i+k) = w[k+1])
ParseLit(t,i,w,d) == LET e == LitErr(t,i,w) IN IF e = i+Len(w) THEN Pok(e,d) ELSE Pbad(e)

RECURSIVE ParseVal(_,_,_), ParseArr(_,_,_,_), ParseObj(_,_,_,_)
ParseVal(m,t,j) ==
  LET i == SkipWs(m,t,j)  c == ByteAt(t,i) IN
  CASE c = 123 -> LET k == SkipWs(m,t,i+1) IN
                  IF ByteAt(t,k) = 125 THEN Pok(k+1,<<"obj",<<>>>>) ELSE ParseObj(m,t,k,<<>>)
    [] c = 91 -> LET k == SkipWs(m,t,i+1) IN
                 IF ByteAt(t,k) = 93 THEN Pok(k+1,<<"arr",<<>>>>) ELSE ParseArr(m,t,k,<<>>)
    [] c = 34 -> LET s == ParseStr(m,t,i+1,<<>>) IN
                 IF s[1] = "ok" THEN Pok(s[2],<<"str",s[3]>>) ELSE s
    [] c = 45 \/ IsDigit(c) -> ParseNum(m,t,i)
    [] c = 43 -> Pfail(m,i)
    [] c = 116 -> ParseLit(t,i,<<116,114,117,101>>,<<"bool",1>>)
    [] c = 102 -> ParseLit(t,i,<<102,97,108,115,101>>,<<"bool",0>>)
    [] c = 110 -> ParseLit(t,i,<<110,117,108,108>>,<<"null">>)
    [] OTHER -> Pbad(i)
ParseArr(m,t,i,s) ==
  LET v == ParseVal(m,t,i) IN
  IF v[1] # "ok" THEN v ELSE
  LET k == SkipWs(m,t,v[2])  s1 == Append(s,v[3])  c == ByteAt(t,k) IN
  IF c = 44 THEN ParseArr(m,t,k+1,s1) ELSE IF c = 93 THEN Pok(k+1,<<"arr",s1>>) ELSE Pbad(k)
ParseObj(m,t,j,s) ==
  LET i == SkipWs(m,t,j) IN
  IF ByteAt(t,i) # 34 THEN Pbad(i) ELSE
  LET kk == ParseStr(m,t,i+1,<<>>) IN
  IF kk[1] # "ok" THEN kk ELSE
  LET c == SkipWs(m,t,kk[2]) IN
  IF ByteAt(t,c) # 58 THEN Pbad(c) ELSE
  LET v == ParseVal(m,t,c+1) IN
  IF v[1] # "ok" THEN v ELSE
  LET k == SkipWs(m,t,v[2])  s1 == Append(s,<<kk[3],v[3]>>) IN
  IF ByteAt(t,k) = 44 THEN ParseObj(m,t,k+1,s1) ELSE IF ByteAt(t,k) = 125 THEN Pok(k+1,<<"obj",s1>>) ELSE Pbad(k)

ParseDoc(m,t) ==
  LET v == ParseVal(m,t,1) IN
  IF v[1] # "ok" THEN (IF m = 2 /\ SkipWs(m,t,1) > Len(t) THEN Pun(1) ELSE v)
  ELSE LET e == SkipWs(m,t,v[2]) IN
       IF e > Len(t) THEN v ELSE Pbad(e)

-----------------------------------------------------------------------------
(* numbers *)
Lookup(tab,k) == tab[CHOOSE n \in 1..Len(tab) : tab[n][1] = k][2]
HasEntry(tab,k) == \E n \in 1..Len(tab) : tab[n][1] = k
MulAddW(w,d) == LET x0 == w[4]*10+d  x1 == w[3]*10+(x0 \div W16)  x2 == w[2]*10+(x1 \div W16)  x3 == w[1]*10+(x2 \div W16)
                IN << x3 >= W16, << x3 % W16, x2 % W16, x1 % W16, x0 % W16 >> >>
(* decimal digits -> <<overflow,word>> *)
RECURSIVE MagOf(_,_,_)
MagOf(s,i,w) == IF i > Len(s) THEN <<FALSE,w>>
                ELSE LET r == MulAddW(w,s[i]-48) IN IF r[1] THEN <<TRUE,w>> ELSE MagOf(s,i+1,r[2])
IsIntLex(l) == \A i \in 1..Len(l) : IsDigit(l[i]) \/ (i = 1 /\ l[1] = 45)
NumVal(l,rt) ==
  IF ~IsIntLex(l) THEN <<5,Lookup(rt,l)>>
  ELSE LET neg == l[1] = 45
           mg == MagOf(IF neg THEN Tail(l) ELSE l,1,ZeroW)
           iv == << IF neg THEN 1 ELSE 0, mg[2] >>
       IN IF mg[1] THEN <<5,Lookup(rt,l)>>
          ELSE IF FitsI(iv) THEN <<3,WToInt(SignedW(iv))>>
          ELSE IF FitsL(iv) THEN <<4,SignedW(iv)>>
          ELSE <<5,MagToReal(iv[1],mg[2])>>
RECURSIVE Image(_,_)
RECURSIVE PutAll(_,_,_,_)
PutAll(m,s,i,rt) == IF i > Len(s) THEN m ELSE PutAll(PutKey(m,s[i][1],Image(s[i][2],rt)),s,i+1,rt)
Image(d,rt) ==
  CASE d[1] = "null" -> NoVal
    [] d[1] = "bool" -> <<2,d[2]>>
    [] d[1] = "num" -> NumVal(d[2],rt)
    [] d[1] = "str" -> <<7,d[2]>>
    [] d[1] = "arr" -> <<TVEC,[ i \in 1..Len(d[2]) |-> Image(d[2][i],rt) ]>>
    [] d[1] = "obj" -> <<TMAP,PutAll(<<>>,d[2],1,rt)>>
(* the number is written with an exponent above 300 *)
BigExp(l) == \E i \in 1..Len(l) : /\ l[i] \in {69,101}
                                  /\ LET e == SubSeq(l,i+1,Len(l))
                                         d == IF e[1] = 43 THEN Tail(e) ELSE e
                                     IN d[1] # 45 /\ LET m == MagOf(d,1,ZeroW) IN m[1] \/ m[2][1] > 0 \/ m[2][2] > 0 \/ m[2][3] > 0 \/ m[2][4] > 300
RECURSIVE AllNums(_,_)
(* every number of the document is within the range of the reals *)
AllNums(d,rt) ==
  CASE d[1] = "num" -> LET v == NumVal(d[2],rt) IN K(v) # 5 \/ (IsFin(v[2]) /\ ~BigExp(d[2]))
    [] d[1] = "arr" -> \A i \in 1..Len(d[2]) : AllNums(d[2][i],rt)
    [] d[1] = "obj" -> \A i \in 1..Len(d[2]) : AllNums(d[2][i][2],rt)
    [] OTHER -> TRUE

(* a = <<text,how,rt>> *)
FromJson(m,v,a) ==
  LET t == a[1]  rt == a[Len(a)]  p == ParseDoc(m,t) IN
  IF \E i \in 1..Len(t) : t[i] = 0 \/ (m = 2 /\ t[i] \in {11,12}) THEN << <<"any">>, v >>
  ELSE IF p[1] = "un" THEN << <<"any">>, v >>
  ELSE IF p[1] = "bad" THEN << <<"err">>, v >>
  ELSE IF ~AllNums(p[3],rt) THEN << <<"any">>, v >>
  ELSE << <<"ok",1>>, Collapse(Image(p[3],rt)) >>
(* after a failure, or where the outcome is open, any content *)
FromJsonLoose(r,post) == (r = <<"err">> \/ r = <<"any">>) /\ WellFormed(post)

-----------------------------------------------------------------------------
(* what the writer must emit *)
CplxText(c,ft) == LET s == Lookup(ft,c[1]) IN
  IF GtZeroR(c[2]) THEN s \o <<43>> \o Lookup(ft,c[2]) \o <<105>>
  ELSE IF LtZeroR(c[2]) THEN s \o <<45>> \o Lookup(ft,NegR(c[2])) \o <<105>>
  ELSE s
DenPay(k,d,x,rt,ft) ==
  CASE k = 1 -> d = <<"num",DecUW(PtrW(x))>>
    [] k = 2 -> d = <<"bool",x>>
    [] k = 3 -> d[1] = "num" /\ IsIntLex(d[2]) /\ NumVal(d[2],rt) = <<3,x>>
    [] k = 4 -> /\ d[1] = "num" /\ IsIntLex(d[2])
                /\ LET v == NumVal(d[2],rt) IN K(v) \in {3,4} /\ ToLongW(K(v),v[2]) = x
    [] k = 5 -> IF IsFin(x) THEN d[1] = "num" /\ HasEntry(rt,d[2]) /\ EqR(Lookup(rt,d[2]),x) ELSE d = <<"null">>
    [] k = 6 -> d = <<"str",CplxText(x,ft)>>
    [] k = 7 -> d = <<"str",x>>
RECURSIVE Denotes(_,_,_,_)
Denotes(d,v,rt,ft) ==
  CASE K(v) = 0 -> d = <<"null">>
    [] K(v) \in 1..7 -> DenPay(K(v),d,v[2],rt,ft)
    [] IsVecK(K(v)) -> /\ d[1] = "arr" /\ Len(d[2]) = Len(v[2])
                       /\ \A i \in 1..Len(v[2]) : DenPay(K(v)-7,d[2][i],v[2][i],rt,ft)
    [] IsMatK(K(v)) -> /\ d[1] = "arr" /\ Len(d[2]) = v[3]
                       /\ \A j \in 1..v[3] :
                            /\ d[2][j][1] = "arr" /\ Len(d[2][j][2]) = v[2]
                            /\ \A i \in 1..v[2] : DenPay(K(v)-12,d[2][j][2][i],v[4][(j-1)*v[2]+i],rt,ft)
    [] K(v) = TVEC -> /\ d[1] = "arr" /\ Len(d[2]) = Len(v[2])
                      /\ \A i \in 1..Len(v[2]) : Denotes(d[2][i],v[2][i],rt,ft)
    [] K(v) = TMAP -> /\ d[1] = "obj" /\ Len(d[2]) = Len(v[2])
                      /\ \A i \in 1..Len(v[2]) : d[2][i][1] = v[2][i][1] /\ Denotes(d[2][i][2],v[2][i][2],rt,ft)
ToJsonOk(v,a,r) ==
  /\ r[1] = "ok"
  /\ LET p == ParseDoc(1,r[2]) IN p[1] = "ok" /\ Denotes(p[3],v,a[Len(a)-1],a[Len(a)])

(* a rendering, used by the models: with ws after every structural token *)
RECURSIVE Join(_,_)
Join(s,sep) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s),sep)
EscByte(c) == CASE c = 34 -> <<92,34>> [] c = 92 -> <<92,92>> [] c = 10 -> <<92,110>>
                [] c < 32 -> <<92,117,48,48,48 + (c \div 16), IF c % 16 < 10 THEN 48 + (c % 16) ELSE 87 + (c % 16)>>
                [] OTHER -> <<c>>
RECURSIVE FlatB(_,_)
FlatB(s,i) == IF i > Len(s) THEN <<>> ELSE s[i] \o FlatB(s,i+1)
QuoteJ(s) == <<34>> \o FlatB([ i \in 1..Len(s) |-> EscByte(s[i]) ],1) \o <<34>>
RECURSIVE RenderDoc(_,_)
RenderDoc(d,ws) ==
  CASE d[1] = "null" -> B("null")
    [] d[1] = "bool" -> IF d[2] = 1 THEN B("true") ELSE B("false")
    [] d[1] = "num" -> d[2]
    [] d[1] = "str" -> QuoteJ(d[2])
    [] d[1] = "arr" -> <<91>> \o ws \o Join([ i \in 1..Len(d[2]) |-> RenderDoc(d[2][i],ws) ],<<44>> \o ws) \o ws \o <<93>>
    [] d[1] = "obj" -> <<123>> \o ws \o Join([ i \in 1..Len(d[2]) |-> QuoteJ(d[2][i][1]) \o ws \o <<58>> \o ws \o RenderDoc(d[2][i][2],ws) ],<<44>> \o ws) \o ws \o <<125>>
=============================================================================
