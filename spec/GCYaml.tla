------------------------------- MODULE GCYaml -------------------------------
(* YAML: the block fragment (block sequences and mappings, flow             *)
(* collections on one line, double-quoted and plain scalars, comments).     *)
(* YParse gives the document of a text of the fragment; plain scalars stay  *)
(* <<"plain",bytes>> until Resolve applies the core schema.  Texts outside  *)
(* the fragment are "un" (open); texts ending inside a quoted scalar or a   *)
(* flow collection are "bad".                                               *)
EXTENDS GCJson

IsAlpha(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
SafeChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {43,45,46}      \* + - .
RECURSIVE SkipSafe(_,_), SkipSp(_,_), Strip(_)
SkipSafe(t,i) == IF i <= Len(t) /\ SafeChar(t[i]) THEN SkipSafe(t,i+1) ELSE i
SkipSp(t,i) == IF i <= Len(t) /\ t[i] = 32 THEN SkipSp(t,i+1) ELSE i
Strip(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN Strip(SubSeq(s,1,Len(s)-1)) ELSE s

(* lines: <<indentation,content>>, blank lines and comment lines dropped *)
MkLine(s) == LET i == SkipSp(s,1) IN << i-1, Strip(SubSeq(s,i,Len(s))) >>
RECURSIVE LinesFrom(_,_,_)
LinesFrom(t,i,j) ==   \* the current line is t[i..j-1]
  IF j > Len(t) THEN << MkLine(SubSeq(t,i,Len(t))) >>
  ELSE IF t[j] = 10 THEN << MkLine(SubSeq(t,i,j-1)) >> \o LinesFrom(t,j+1,j+1)
  ELSE LinesFrom(t,i,j+1)
YLines(t) == SelectSeq(LinesFrom(t,1,1),LAMBDA l : l[2] # <<>> /\ l[2][1] # 35)

-----------------------------------------------------------------------------
(* flow: the inline values *)
RECURSIVE FVal(_,_), FSeq(_,_,_), FMap(_,_,_)
(* a plain scalar: safe characters, not a block indicator *)
PlainOk(s) == s # <<>> /\ s # <<45>> /\ s # <<46>>
FScalar(t,i) ==
  IF ByteAt(t,i) = 34
  THEN LET s == ParseStr(2,t,i+1,<<>>) IN
       IF s[1] = "ok" THEN Pok(s[2],<<"str",s[3]>>) ELSE IF s[1] = "bad" /\ s[2] > Len(t) THEN s ELSE Pun(i)
  ELSE LET e == SkipSafe(t,i)  s == SubSeq(t,i,e-1) IN
       IF PlainOk(s) THEN Pok(e,<<"plain",s>>) ELSE Pun(i)
FVal(t,i) ==
  CASE i > Len(t) -> Pbad(i)
    [] t[i] = 91 -> LET k == SkipSp(t,i+1) IN
                    IF ByteAt(t,k) = 93 THEN Pok(k+1,<<"arr",<<>>>>) ELSE FSeq(t,k,<<>>)
    [] t[i] = 123 -> LET k == SkipSp(t,i+1) IN
                     IF ByteAt(t,k) = 125 THEN Pok(k+1,<<"obj",<<>>>>) ELSE FMap(t,k,<<>>)
    [] OTHER -> FScalar(t,i)
FSeq(t,i,s) ==
  LET v == FVal(t,i) IN
  IF v[1] # "ok" THEN v ELSE
  LET k == SkipSp(t,v[2])  c == ByteAt(t,k)  s1 == Append(s,v[3]) IN
  IF c = 44 THEN LET k1 == SkipSp(t,k+1) IN FSeq(t,k1,s1)
  ELSE IF c = 93 THEN Pok(k+1,<<"arr",s1>>)
  ELSE IF c = -1 THEN Pbad(k) ELSE Pun(k)
FMap(t,i,s) ==
  IF i > Len(t) THEN Pbad(i) ELSE
  LET kk == FScalar(t,i) IN
  IF kk[1] # "ok" THEN kk
  ELSE IF kk[2] > Len(t) THEN Pbad(kk[2])
  ELSE IF ByteAt(t,kk[2]) # 58 THEN Pun(kk[2])
  ELSE IF kk[2]+1 > Len(t) THEN Pbad(kk[2]+1)
  ELSE IF ByteAt(t,kk[2]+1) # 32 THEN Pun(kk[2]) ELSE
  LET v == FVal(t,SkipSp(t,kk[2]+2)) IN
  IF v[1] # "ok" THEN v ELSE
  LET k == SkipSp(t,v[2])  c == ByteAt(t,k)  s1 == Append(s,<<kk[3],v[3]>>) IN
  IF c = 44 THEN FMap(t,SkipSp(t,k+1),s1)
  ELSE IF c = 125 THEN Pok(k+1,<<"obj",s1>>)
  ELSE IF c = -1 THEN Pbad(k) ELSE Pun(k)
(* a complete inline value *)
Inline(s) == LET v == FVal(s,1) IN
             IF v[1] = "ok" /\ v[2] <= Len(s) THEN Pun(v[2]) ELSE v

-----------------------------------------------------------------------------
(* block *)
IsDash(s) == s = <<45>> \/ (Len(s) > 1 /\ s[1] = 45 /\ s[2] = 32)
LTrim(s) == SubSeq(s,SkipSp(s,1),Len(s))
(* the key of a mapping entry: <<"ok",rest,key>> *)
YKey(s) ==
  LET k == FScalar(s,1) IN
  IF k[1] = "ok" /\ ByteAt(s,k[2]) = 58 /\ (k[2] = Len(s) \/ ByteAt(s,k[2]+1) = 32)
  THEN Pok(LTrim(SubSeq(s,k[2]+1,Len(s))),k[3]) ELSE Pun(1)
(* an inline value of line i: where it stops inside, more lines must follow *)
InlineAt(L,i,s) == LET v == Inline(s) IN IF v[1] = "bad" /\ i < Len(L) THEN Pun(i) ELSE v
RECURSIVE Block(_,_), Items(_,_,_,_), Pairs(_,_,_,_)
(* the value after an indicator on line i at indentation ind, rest s of the *)
(* line: <<"ok",next line,document>>                                        *)
ValAfter(L,i,ind,s) ==
  IF s # <<>> THEN LET v == InlineAt(L,i,s) IN IF v[1] = "ok" THEN Pok(i+1,v[3]) ELSE v
  ELSE IF i < Len(L) /\ L[i+1][1] > ind THEN Block(L,i+1)
  ELSE Pun(i)       \* nothing follows the indicator
Items(L,i,ind,acc) ==
  IF i > Len(L) \/ L[i][1] < ind THEN Pok(i,<<"arr",acc>>)
  ELSE IF L[i][1] > ind \/ ~IsDash(L[i][2]) THEN Pun(i)
  ELSE LET v == ValAfter(L,i,ind,LTrim(Tail(L[i][2]))) IN
       IF v[1] # "ok" THEN v ELSE Items(L,v[2],ind,Append(acc,v[3]))
Pairs(L,i,ind,acc) ==
  IF i > Len(L) \/ L[i][1] < ind THEN Pok(i,<<"obj",acc>>)
  ELSE IF L[i][1] > ind \/ IsDash(L[i][2]) THEN Pun(i)
  ELSE LET k == YKey(L[i][2]) IN
       IF k[1] # "ok" THEN k ELSE
       LET v == ValAfter(L,i,ind,k[2]) IN
       IF v[1] # "ok" THEN v ELSE Pairs(L,v[2],ind,Append(acc,<<k[3],v[3]>>))
Block(L,i) == IF IsDash(L[i][2]) THEN Items(L,i,L[i][1],<<>>)
              ELSE IF YKey(L[i][2])[1] = "ok" THEN Pairs(L,i,L[i][1],<<>>)
              ELSE Pun(i)
YParse1(t) ==
  LET L == YLines(t) IN
  IF Len(L) = 0 THEN Pun(1)
  ELSE IF Len(L) = 1 /\ ~IsDash(L[1][2]) /\ YKey(L[1][2])[1] # "ok" THEN Inline(L[1][2])
  ELSE LET v == Block(L,1) IN IF v[1] = "ok" /\ v[2] <= Len(L) THEN Pun(v[2]) ELSE v
(* a line that begins with # is no comment inside a quoted scalar *)
YParse(t) == LET r == YParse1(t) IN
             IF r[1] = "bad" /\ (\E i \in 1..Len(t) : t[i] = 35) THEN Pun(1) ELSE r

-----------------------------------------------------------------------------
(* the core schema *)
Nulls  == { B("null"), B("Null"), B("NULL") }
Trues  == { B("true"), B("True"), B("TRUE") }
Falses == { B("false"), B("False"), B("FALSE") }
NanT == B(".nan")  InfT == B(".inf")  NInfT == B("-.inf")
(* a number as the writer spells it: -?digits(.digits)?(e[+-]?digits)?      *)
IsNumLex(s) == LET p == IF s # <<>> /\ (IsDigit(s[1]) \/ s[1] = 45) THEN ParseNum(1,s,1) ELSE Pbad(1)
               IN p[1] = "ok" /\ p[2] > Len(s)
IsHexLex(s) == Len(s) > 2 /\ Len(s) <= 9 /\ s[1] = 48 /\ s[2] = 120 /\ \A i \in 3..Len(s) : HexVal(s[i]) >= 0
RECURSIVE HexNat(_,_,_)
HexNat(s,i,n) == IF i > Len(s) THEN n ELSE HexNat(s,i+1,n*16+HexVal(s[i]))
(* plain scalars that are certainly text: they begin with a letter and are  *)
(* no reserved word, or are a number followed by a sign (complex numbers)   *)
Reserved == Nulls \cup Trues \cup Falses
CertainText(s) ==
  \/ IsAlpha(s[1]) /\ s \notin Reserved /\ \A i \in 1..Len(s) : SafeChar(s[i])
  \/ s[Len(s)] = 105 /\ (IsDigit(s[1]) \/ s[1] = 45)
(* <<"open">>: not decided here *)
Resolve(d) ==
  IF d[1] # "plain" THEN d ELSE
  LET s == d[2] IN
  CASE s \in Nulls -> <<"null">> [] s \in Trues -> <<"bool",1>> [] s \in Falses -> <<"bool",0>>
    [] s = NanT -> <<"real",NaNW>> [] s = InfT -> <<"real",PInfW>> [] s = NInfT -> <<"real",NInfW>>
    [] IsNumLex(s) -> <<"num",s>>
    [] IsHexLex(s) -> <<"hex",HexNat(s,3,0)>>
    [] CertainText(s) -> <<"str",s>>
    [] OTHER -> <<"open">>
RECURSIVE YOpen(_,_)
(* the property does not decide what this document must be read as *)
YOpen(d0,rt) == LET d == Resolve(d0) IN
  CASE d[1] = "open" -> TRUE
    [] d[1] = "num" -> ~AllNums(d,rt) \/ (IsIntLex(d[2]) /\ K(NumVal(d[2],rt)) = 5)
    [] d[1] = "arr" -> \E i \in 1..Len(d[2]) : YOpen(d[2][i],rt)
    [] d[1] = "obj" -> \/ \E i \in 1..Len(d[2]) : YOpen(d[2][i][2],rt) \/ Resolve(d[2][i][1])[1] # "str"
                       \/ Cardinality({ Resolve(d[2][i][1]) : i \in 1..Len(d[2]) }) # Len(d[2])
    [] OTHER -> FALSE
RECURSIVE YImage(_,_), YPutAll(_,_,_,_)
YPutAll(m,s,i,rt) == IF i > Len(s) THEN m ELSE YPutAll(PutKey(m,Resolve(s[i][1])[2],YImage(s[i][2],rt)),s,i+1,rt)
YImage(d0,rt) == LET d == Resolve(d0) IN
  CASE d[1] = "real" -> <<5,d[2]>>
    [] d[1] = "hex" -> <<3,d[2]>>
    [] d[1] = "arr" -> <<TVEC,[ i \in 1..Len(d[2]) |-> YImage(d[2][i],rt) ]>>
    [] d[1] = "obj" -> <<TMAP,YPutAll(<<>>,d[2],1,rt)>>
    [] OTHER -> Image(d,rt)

(* YAML has no surrogate pairs *)
Surrogate(t) == \E i \in 1..Len(t)-3 : t[i] = 92 /\ t[i+1] = 117 /\ t[i+2] \in {68,100} /\ t[i+3] \in {56,57,65,66,97,98}
(* a = <<text,how,rt>> *)
FromYaml(v,a) ==
  LET t == a[1]  rt == a[Len(a)]  p == YParse(t) IN
  IF ~ValidUtf8(t) \/ Surrogate(t) \/ (\E i \in 1..Len(t) : t[i] < 32 /\ t[i] # 10) THEN << <<"any">>, v >>
  ELSE IF p[1] = "un" THEN << <<"any">>, v >>
  ELSE IF p[1] = "bad" THEN << <<"err">>, v >>
  ELSE IF YOpen(p[3],rt) THEN << <<"any">>, v >>
  ELSE << <<"ok",1>>, Collapse(YImage(p[3],rt)) >>

-----------------------------------------------------------------------------
(* what the writer must emit *)
HexText(w) == LET h == WToBytes(w)   \* little endian
                  n(i) == LET b == h[8 - (i-1) \div 2] IN IF i % 2 = 1 THEN b \div 16 ELSE b % 16
                  D(x) == IF x < 10 THEN 48+x ELSE 87+x
                  first == CHOOSE i \in 1..16 : n(i) # 0 /\ \A k \in 1..i-1 : n(k) = 0
              IN IF w = ZeroW THEN <<48>> ELSE <<48,120>> \o [ i \in 1..(17-first) |-> D(n(first+i-1)) ]
YDenPay(k,d0,x,rt,ft) ==
  LET d == Resolve(d0) IN
  CASE k = 1 -> d0 = <<"plain",HexText(PtrW(x))>>
    [] k = 5 -> IF IsFin(x) THEN DenPay(5,d,x,rt,ft) ELSE d = <<"real",x>>
    [] k = 6 -> d0 = <<"plain",CplxText(x,ft)>>
    [] OTHER -> DenPay(k,d,x,rt,ft)
RECURSIVE YDenotes(_,_,_,_)
YDenotes(d,v,rt,ft) ==
  CASE K(v) = 0 -> Resolve(d) = <<"null">>
    [] K(v) \in 1..7 -> YDenPay(K(v),d,v[2],rt,ft)
    [] IsVecK(K(v)) -> /\ d[1] = "arr" /\ Len(d[2]) = Len(v[2])
                       /\ \A i \in 1..Len(v[2]) : YDenPay(K(v)-7,d[2][i],v[2][i],rt,ft)
    [] IsMatK(K(v)) -> /\ d[1] = "arr" /\ Len(d[2]) = v[3]
                       /\ \A j \in 1..v[3] :
                            /\ d[2][j][1] = "arr" /\ Len(d[2][j][2]) = v[2]
                            /\ \A i \in 1..v[2] : YDenPay(K(v)-12,d[2][j][2][i],v[4][(j-1)*v[2]+i],rt,ft)
    [] K(v) = TVEC -> /\ d[1] = "arr" /\ Len(d[2]) = Len(v[2])
                      /\ \A i \in 1..Len(v[2]) : YDenotes(d[2][i],v[2][i],rt,ft)
    [] K(v) = TMAP -> /\ d[1] = "obj" /\ Len(d[2]) = Len(v[2])
                      /\ \A i \in 1..Len(v[2]) : /\ Resolve(d[2][i][1]) = <<"str",v[2][i][1]>>
                                                 /\ YDenotes(d[2][i][2],v[2][i][2],rt,ft)
(* text of a value is within the fragment when its strings are valid UTF-8 *)
RECURSIVE TextOk(_)
TextOk(v) ==
  CASE K(v) = 7 -> ValidUtf8(v[2])
    [] K(v) = 14 -> \A i \in 1..Len(v[2]) : ValidUtf8(v[2][i])
    [] K(v) = TVEC -> \A i \in 1..Len(v[2]) : TextOk(v[2][i])
    [] K(v) = TMAP -> \A i \in 1..Len(v[2]) : ValidUtf8(v[2][i][1]) /\ TextOk(v[2][i][2])
    [] OTHER -> TRUE
ToYamlOk(v,a,r) ==
  /\ r[1] = "ok"
  /\ TextOk(v) => LET p == YParse(r[2]) IN p[1] = "ok" /\ YDenotes(p[3],v,a[Len(a)-1],a[Len(a)])
=============================================================================
