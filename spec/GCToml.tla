------------------------------- MODULE GCToml -------------------------------
(* TOML 1.0: key/value lines, dotted keys, tables, arrays of tables, inline *)
(* tables, arrays, basic and literal strings of one or several lines,       *)
(* integers in four bases, floats, digit separators, dates and times.       *)
(* What the readers are free to accept or not is "un": open.                *)
(*                                                                          *)
(* Documents: <<"str",b>> <<"bool",b>> <<"int",lexeme>> <<"flt",lexeme>>    *)
(*   <<"when",tag,text>> <<"real",w>> <<"arr",docs>> <<"aot",tables>> <<"tab",entries,mark>>    *)
(* mark of a table: how it came to be - "def" by a header, "imp" as the     *)
(* parent of one, "dot" by a dotted key, "inl" as an inline table.          *)
EXTENDS GCYaml

IsBareKey(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 45
RECURSIVE SkipBl(_,_), SkipBare(_,_), ToEol(_,_), SkipArr(_,_)
SkipBl(t,i) == IF i <= Len(t) /\ t[i] \in {32,9} THEN SkipBl(t,i+1) ELSE i
SkipBare(t,i) == IF i <= Len(t) /\ IsBareKey(t[i]) THEN SkipBare(t,i+1) ELSE i
(* position of the end of the line (the newline, or past the end) *)
ToEol(t,i) == IF i > Len(t) \/ t[i] = 10 THEN i ELSE ToEol(t,i+1)
IsNl(t,i) == ByteAt(t,i) = 10 \/ (ByteAt(t,i) = 13 /\ ByteAt(t,i+1) = 10)
AfterNl(t,i) == IF t[i] = 10 THEN i+1 ELSE i+2
(* inside arrays: blanks, newlines and comments *)
SkipArr(t,i) == IF i > Len(t) THEN i
                ELSE IF t[i] \in {32,9,10} THEN SkipArr(t,i+1)
                ELSE IF IsNl(t,i) THEN SkipArr(t,i+2)
                ELSE IF t[i] = 35 THEN SkipArr(t,ToEol(t,i))
                ELSE i

RECURSIVE TStr(_,_,_), TLit(_,_,_)
THex8(t,i) == IF Hex4(t,i) < 0 \/ Hex4(t,i+4) < 0 \/ Hex4(t,i) > 16 THEN -1 ELSE Hex4(t,i)*65536 + Hex4(t,i+4)
TStr(t,i,s) ==
  IF i > Len(t) THEN Pbad(i) ELSE
  LET c == t[i] IN
  CASE c = 34 -> Pok(i+1,s)
    [] c \in {10,13} -> Pbad(i)
    [] c < 32 /\ c # 9 -> Pbad(i)
    [] c = 127 -> Pbad(i)
    [] c = 92 ->
       LET e == ByteAt(t,i+1) IN
       IF e = -1 THEN Pbad(i+1)
       ELSE IF EscVal(e) >= 0 /\ e # 47 THEN TStr(t,i+2,Append(s,EscVal(e)))
       ELSE IF e \in {117,85}
       THEN LET h == IF e = 117 THEN Hex4(t,i+2) ELSE THex8(t,i+2) IN
            IF h < 0 \/ h > 1114111 \/ h \in 55296..57343 THEN Pbad(i+2)
            ELSE TStr(t,IF e = 117 THEN i+6 ELSE i+10,s \o Utf8(h))
       ELSE Pun(i+1)
    [] OTHER -> TStr(t,i+1,Append(s,c))
TLit(t,i,s) ==
  IF i > Len(t) THEN Pbad(i)
  ELSE IF t[i] = 39 THEN Pok(i+1,s)
  ELSE IF (t[i] < 32 /\ t[i] # 9) \/ t[i] = 127 THEN Pbad(i)
  ELSE TLit(t,i+1,Append(s,t[i]))
(* a quoted string at i *)
Triple(t,i) == ByteAt(t,i+1) = t[i] /\ ByteAt(t,i+2) = t[i]
(* text over several lines: a newline right after the opening is dropped, a *)
(* backslash at the end of a line joins it to the next visible character;   *)
(* the closing may follow one or two quotes that belong to the text         *)
RECURSIVE MStr(_,_,_,_), SkipWsNl(_,_)
SkipWsNl(t,i) == IF i <= Len(t) /\ t[i] \in {32,9,10} THEN SkipWsNl(t,i+1) ELSE i
MStr(t,i,s,q) ==
  IF i > Len(t) THEN Pbad(i) ELSE
  LET c == t[i] IN
  CASE c = q /\ ByteAt(t,i+1) = q /\ ByteAt(t,i+2) = q ->
       IF ByteAt(t,i+3) # q THEN Pok(i+3,s) ELSE IF ByteAt(t,i+4) # q THEN Pok(i+4,Append(s,q))
       ELSE IF ByteAt(t,i+5) # q THEN Pok(i+5,s \o <<q,q>>) ELSE Pbad(i+5)
    [] c = 13 -> Pun(i)          \* line ends may be normalized
    [] (c < 32 /\ c \notin {9,10}) \/ c = 127 -> Pbad(i)
    [] c = 92 /\ q = 34 ->
       LET e == ByteAt(t,i+1) IN
       IF e = -1 THEN Pbad(i+1)
       ELSE IF EscVal(e) >= 0 /\ e # 47 THEN MStr(t,i+2,Append(s,EscVal(e)),q)
       ELSE IF e \in {117,85}
       THEN LET h == IF e = 117 THEN Hex4(t,i+2) ELSE THex8(t,i+2) IN
            IF h < 0 \/ h > 1114111 \/ h \in 55296..57343 THEN Pbad(i+2)
            ELSE MStr(t,IF e = 117 THEN i+6 ELSE i+10,s \o Utf8(h),q)
       ELSE IF e \in {32,9,10}
       THEN LET k == SkipBl(t,i+1) IN
            IF k > Len(t) THEN Pbad(k) ELSE IF t[k] = 10 THEN MStr(t,SkipWsNl(t,k),s,q) ELSE IF t[k] = 13 THEN Pun(k) ELSE Pbad(k)
       ELSE Pun(i+1)
    [] OTHER -> MStr(t,i+1,Append(s,c),q)
TMulti(t,i) == IF ByteAt(t,i+3) = 13 THEN Pun(i) ELSE MStr(t,IF ByteAt(t,i+3) = 10 THEN i+4 ELSE i+3,<<>>,t[i])
TQuoted(t,i) == IF t[i] = 34 THEN TStr(t,i+1,<<>>) ELSE TLit(t,i+1,<<>>)

(* keys: <<"ok",next,<<k1,...>>>> *)
RECURSIVE TKeys(_,_,_)
TKey1(t,i) == IF ByteAt(t,i) \in {34,39} THEN (IF Triple(t,i) THEN Pun(i) ELSE TQuoted(t,i))
              ELSE LET e == SkipBare(t,i) IN IF e = i THEN Pbad(i) ELSE Pok(e,SubSeq(t,i,e-1))
TKeys(t,j,ks) ==
  LET k == TKey1(t,SkipBl(t,j)) IN
  IF k[1] # "ok" THEN k ELSE
  LET e == SkipBl(t,k[2])  ks1 == Append(ks,k[3]) IN
  IF ByteAt(t,e) = 46 THEN TKeys(t,e+1,ks1) ELSE Pok(e,ks1)

(* scalars: the maximal run of scalar characters *)
ScChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {43,45,46,58}
RECURSIVE SkipSc(_,_)
SkipSc(t,i) == IF i <= Len(t) /\ ScChar(t[i]) THEN SkipSc(t,i+1) ELSE i
Unsigned(s) == IF s # <<>> /\ s[1] \in {43,45} THEN Tail(s) ELSE s
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
NoPlus(s) == IF s[1] = 43 THEN Tail(s) ELSE s
(* digit separators: between two digits *)
NoSep(s) == SelectSeq(s,LAMBDA c : c # 95)
SepOk(s,D(_)) == \A i \in 1..Len(s) : s[i] = 95 => i > 1 /\ i < Len(s) /\ D(s[i-1]) /\ D(s[i+1])
(* integers in base 2, 8, 16: the bits, most significant first *)
DigBits(c,k) == LET h == HexVal(c) IN [ n \in 1..k |-> (h \div 2^(k-n)) % 2 ]
RECURSIVE NoZeros(_), BitLimb(_,_,_)
NoZeros(b) == IF b # <<>> /\ b[1] = 0 THEN NoZeros(Tail(b)) ELSE b
BitLimb(b,i,n) == IF n = 0 THEN 0 ELSE 2*BitLimb(b,i,n-1) + b[i+n]
BitsW(b) == LET p == [ i \in 1..64 |-> IF i <= 64-Len(b) THEN 0 ELSE b[i-(64-Len(b))] ] IN [ n \in 1..4 |-> BitLimb(p,16*(n-1),16) ]
BaseBits(c) == CASE c = 120 -> 4 [] c = 111 -> 3 [] c = 98 -> 1 [] OTHER -> 0
Based(s,i,e) ==     \* s = "0x..."
  LET k == BaseBits(s[2])
      Dig(c) == HexVal(c) >= 0 /\ HexVal(c) < 2^k
      d == SubSeq(s,3,Len(s))  b == NoZeros(FlatB([ n \in 1..Len(NoSep(d)) |-> DigBits(NoSep(d)[n],k) ],1)) IN
  IF d = <<>> THEN Pbad(i)
  ELSE IF \E n \in 1..Len(d) : d[n] # 95 /\ ~Dig(d[n]) THEN (IF k = 4 THEN Pun(i) ELSE Pbad(i))   \* hexadecimal floats
  ELSE IF ~SepOk(d,Dig) THEN Pbad(i)
  ELSE IF Len(NoSep(d)) > 16 THEN (IF k # 4 /\ Len(b) <= 63 /\ Len(NoSep(d)) <= 20 THEN Pok(e,<<"int",DecW(BitsW(b))>>) ELSE Pun(i))
  ELSE IF Len(b) > 63 THEN Pbad(i)
  ELSE Pok(e,<<"int",DecW(BitsW(b))>>)

(* dates and times *)
Num2(s,i) == (s[i]-48)*10 + s[i+1]-48
Shape2(s,i,pat) == i+Len(pat)-1 <= Len(s) /\ \A n \in 1..Len(pat) : IF pat[n] = 48 THEN IsDigit(s[i+n-1]) ELSE s[i+n-1] = pat[n]
IsDate(s,i) == Shape2(s,i,B("0000-00-00"))
IsClock(s,i) == Shape2(s,i,B("00:00:00"))
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y,m) == CASE m \in {4,6,9,11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
DateOk(s,i) == LET y == Num2(s,i)*100+Num2(s,i+2)  m == Num2(s,i+5)  d == Num2(s,i+8) IN m \in 1..12 /\ d >= 1 /\ d <= Days(y,m)
ClockOk(s,i) == Num2(s,i) < 24 /\ Num2(s,i+3) < 60 /\ Num2(s,i+6) < 60
RECURSIVE DigEnd(_,_), NoTail0(_)
DigEnd(s,i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigEnd(s,i+1) ELSE i
NoTail0(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN NoTail0(SubSeq(s,1,Len(s)-1)) ELSE s
(* a time at i: <<"ok",next,text>>; nine digits of the fraction count *)
TClock(s,i) ==
  IF ~IsClock(s,i) THEN Pun(i)
  ELSE IF ~ClockOk(s,i) THEN (IF Num2(s,i+6) = 60 THEN Pun(i) ELSE Pbad(i))
  ELSE IF ByteAt(s,i+8) # 46 THEN Pok(i+8,SubSeq(s,i,i+7))
  ELSE LET e == DigEnd(s,i+9)  f == NoTail0(SubSeq(s,i+9,IF e-1 > i+17 THEN i+17 ELSE e-1)) IN
       IF e = i+9 THEN Pbad(i) ELSE Pok(e,SubSeq(s,i,i+7) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o f))
(* the offset from i to the end of s *)
TOffset(s,i) ==
  IF i > Len(s) THEN Pok(i,<<>>)
  ELSE IF s[i] \in {90,122} THEN (IF i = Len(s) THEN Pok(i+1,<<90>>) ELSE Pbad(i))
  ELSE IF s[i] \in {43,45} /\ Shape2(s,i+1,B("00:00")) /\ i+5 = Len(s)
  THEN IF Num2(s,i+1) > 23 \/ Num2(s,i+4) > 59 THEN Pbad(i)
       ELSE Pok(i+6,IF Num2(s,i+1) = 0 /\ Num2(s,i+4) = 0 THEN <<90>> ELSE SubSeq(s,i,i+5))
  ELSE Pun(i)
(* s looks like a date or a time; e: where it ends in t *)
Dated(s) == \/ Len(s) >= 5 /\ AllDigits(SubSeq(s,1,4)) /\ s[5] = 45
            \/ Len(s) >= 3 /\ AllDigits(SubSeq(s,1,2)) /\ s[3] = 58
When(t,i,e,s) ==
  IF s[3] = 58
  THEN LET c == TClock(s,1) IN IF c[1] # "ok" THEN c ELSE IF c[2] > Len(s) THEN Pok(e,<<"when","$time",c[3]>>) ELSE Pun(i)
  ELSE IF ~IsDate(s,1) THEN Pun(i)
  ELSE IF ~DateOk(s,1) THEN Pbad(i)
  ELSE LET \* a blank may stand for the T
           bl == Len(s) = 10 /\ ByteAt(t,e) = 32 /\ IsDigit(ByteAt(t,e+1))
           e1 == IF bl THEN SkipSc(t,e+1) ELSE e
           x  == IF bl THEN SubSeq(t,i,e1-1) ELSE s
           day == SubSeq(x,1,10) IN
       IF Len(x) = 10 THEN Pok(e,<<"when","$date",day>>)
       ELSE IF x[11] \notin {84,116,32} THEN Pun(i)
       ELSE LET c == TClock(x,12) IN
            IF c[1] # "ok" THEN Pun(i)
            ELSE LET o == TOffset(x,c[2]) IN
                 IF o[1] # "ok" THEN o ELSE Pok(e1,<<"when","$date_time",day \o <<84>> \o c[3] \o o[3]>>)
(* what the readers leave open: what else holds a colon or an upper case    *)
(* base prefix                                                              *)
Exotic(s) == \/ \E i \in 1..Len(s) : s[i] = 58
             \/ Len(s) > 1 /\ Unsigned(s) # <<>> /\ Unsigned(s)[1] = 48 /\ Len(Unsigned(s)) > 1 /\ IsAlpha(Unsigned(s)[2]) /\ Unsigned(s)[2] \notin {69,101}
             \/ s[1] = 95
TScalar(t,i) ==
  LET e == SkipSc(t,i)  w == SubSeq(t,i,e-1)  s == NoSep(w)  u == Unsigned(s) IN
  CASE w = <<>> -> Pbad(i)
    [] Dated(w) -> When(t,i,e,w)
    [] Len(w) > 1 /\ w[1] = 48 /\ BaseBits(w[2]) > 0 -> Based(w,i,e)
    [] w[1] = 95 \/ u = <<>> -> Pbad(i)
    [] ~SepOk(w,IsDigit) -> (IF IsDigit(u[1]) THEN Pbad(i) ELSE Pun(i))
    [] s = B("true") -> Pok(e,<<"bool",1>>)
    [] s = B("false") -> Pok(e,<<"bool",0>>)
    [] s # w /\ ~IsDigit(u[1]) -> Pun(i)
    [] u = B("inf") -> Pok(e,<<"real",IF s[1] = 45 THEN NInfW ELSE PInfW>>)
    [] u = B("nan") -> Pok(e,<<"real",NaNW>>)
    [] Exotic(s) -> Pun(i)
    [] AllDigits(u) -> IF Len(u) > 1 /\ u[1] = 48 THEN Pbad(i)
                       ELSE LET mg == MagOf(u,1,ZeroW)  iv == << IF s[1] = 45 THEN 1 ELSE 0, mg[2] >> IN
                            IF mg[1] \/ ~FitsL(iv) THEN Pbad(i) ELSE Pok(e,<<"int",NoPlus(s)>>)
    [] OTHER -> IF u # <<>> /\ IsDigit(u[1])
                THEN LET p == ParseNum(1,u,1) IN IF p[1] = "ok" /\ p[2] > Len(u) THEN Pok(e,<<"flt",NoPlus(s)>>) ELSE Pbad(i)
                ELSE Pbad(i)

-----------------------------------------------------------------------------
(* tables *)
EmptyTab(mark) == <<"tab",<<>>,mark>>
HasK(tb,k) == \E n \in 1..Len(tb[2]) : tb[2][n][1] = k
KPos(tb,k) == CHOOSE n \in 1..Len(tb[2]) : tb[2][n][1] = k
GetK(tb,k) == tb[2][KPos(tb,k)][2]
SetK(tb,k,x) == IF HasK(tb,k) THEN [ tb EXCEPT ![2][KPos(tb,k)] = <<k,x>> ] ELSE <<"tab",Append(tb[2],<<k,x>>),tb[3]>>
Lift(r,tb,k) == IF r[1] # "ok" THEN r ELSE Pok(0,SetK(tb,k,r[3]))
(* k1.k2. ... = x in table tb; inl: within an inline table *)
RECURSIVE SetIn(_,_,_,_)
SetIn(tb,ks,x,mark) ==
  IF Len(ks) = 1 THEN IF HasK(tb,ks[1]) THEN Pbad(0) ELSE Pok(0,SetK(tb,ks[1],x))
  ELSE IF ~HasK(tb,ks[1]) THEN Lift(SetIn(EmptyTab("dot"),Tail(ks),x,mark),tb,ks[1])
  ELSE LET d == GetK(tb,ks[1]) IN
       IF d[1] # "tab" THEN Pbad(0)
       ELSE IF d[3] = "dot" THEN Lift(SetIn(d,Tail(ks),x,mark),tb,ks[1])
       ELSE IF d[3] = "inl" THEN Pbad(0)
       ELSE Pun(0)
(* the header [ks] (aot = 0) or [[ks]] (aot = 1) *)
RECURSIVE Header(_,_,_)
Header(tb,ks,aot) ==
  LET k == ks[1] IN
  IF Len(ks) = 1
  THEN IF ~HasK(tb,k) THEN Pok(0,SetK(tb,k,IF aot = 1 THEN <<"aot",<<EmptyTab("def")>>>> ELSE EmptyTab("def")))
       ELSE LET d == GetK(tb,k) IN
            IF aot = 1 THEN IF d[1] = "aot" THEN Pok(0,SetK(tb,k,<<"aot",Append(d[2],EmptyTab("def"))>>)) ELSE Pbad(0)
            ELSE IF d[1] = "tab" /\ d[3] = "imp" THEN Pok(0,SetK(tb,k,<<"tab",d[2],"def">>))
            ELSE Pbad(0)
  ELSE IF ~HasK(tb,k) THEN Lift(Header(EmptyTab("imp"),Tail(ks),aot),tb,k)
  ELSE LET d == GetK(tb,k) IN
       CASE d[1] = "tab" /\ d[3] \in {"def","imp"} -> Lift(Header(d,Tail(ks),aot),tb,k)
         [] d[1] = "tab" /\ d[3] = "dot" -> Pun(0)
         [] d[1] = "aot" -> LET n == Len(d[2])  r == Header(d[2][n],Tail(ks),aot) IN
                            IF r[1] # "ok" THEN r ELSE Pok(0,SetK(tb,k,<<"aot",[ d[2] EXCEPT ![n] = r[3] ]>>))
         [] OTHER -> Pbad(0)
(* ks = x below the header path *)
RECURSIVE Below(_,_,_,_)
Below(tb,path,ks,x) ==
  IF path = <<>> THEN SetIn(tb,ks,x,0)
  ELSE LET k == path[1]  d == GetK(tb,k) IN
       IF d[1] = "tab" THEN Lift(Below(d,Tail(path),ks,x),tb,k)
       ELSE LET n == Len(d[2])  r == Below(d[2][n],Tail(path),ks,x) IN
            IF r[1] # "ok" THEN r ELSE Pok(0,SetK(tb,k,<<"aot",[ d[2] EXCEPT ![n] = r[3] ]>>))

-----------------------------------------------------------------------------
RECURSIVE TVal(_,_), TArr(_,_,_), TInl(_,_,_)
TVal(t,i) ==
  LET c == ByteAt(t,i) IN
  CASE c = -1 -> Pbad(i)
    [] c \in {34,39} -> LET s == IF Triple(t,i) THEN TMulti(t,i) ELSE TQuoted(t,i) IN IF s[1] = "ok" THEN Pok(s[2],<<"str",s[3]>>) ELSE s
    [] c = 91 -> TArr(t,SkipArr(t,i+1),<<>>)
    [] c = 123 -> LET k == SkipBl(t,i+1) IN
                  IF ByteAt(t,k) = 125 THEN Pok(k+1,EmptyTab("inl")) ELSE TInl(t,k,EmptyTab("inl"))
    [] OTHER -> TScalar(t,i)
TArr(t,i,s) ==   \* at an element or the closing bracket
  IF ByteAt(t,i) = 93 THEN Pok(i+1,<<"arr",s>>) ELSE
  LET v == TVal(t,i) IN
  IF v[1] # "ok" THEN v ELSE
  LET k == SkipArr(t,v[2])  s1 == Append(s,v[3]) IN
  IF ByteAt(t,k) = 44 THEN TArr(t,SkipArr(t,k+1),s1)
  ELSE IF ByteAt(t,k) = 93 THEN Pok(k+1,<<"arr",s1>>) ELSE Pbad(k)
TInl(t,i,tb) ==
  LET ks == TKeys(t,i,<<>>) IN
  IF ks[1] # "ok" THEN (IF ks[1] = "bad" /\ (ByteAt(t,i) \in {125,10,13,35}) THEN Pun(i) ELSE ks)  \* TOML 1.1 allows more
  ELSE IF ByteAt(t,ks[2]) # 61 THEN Pbad(ks[2]) ELSE
  LET v == TVal(t,SkipBl(t,ks[2]+1)) IN
  IF v[1] # "ok" THEN v ELSE
  LET r == SetIn(tb,ks[3],v[3],0) IN
  IF r[1] # "ok" THEN r ELSE
  LET k == SkipBl(t,v[2]) IN
  IF ByteAt(t,k) = 44 THEN TInl(t,SkipBl(t,k+1),r[3])
  ELSE IF ByteAt(t,k) = 125 THEN Pok(k+1,r[3])
  ELSE IF k > Len(t) THEN Pbad(k) ELSE IF ByteAt(t,k) \in {10,13,35} THEN Pun(k) ELSE Pbad(k)

(* comments: no control characters *)
CommentOk(t,i,e) == \A n \in i..e-1 : t[n] >= 32 \/ t[n] = 9 \/ (n = e-1 /\ t[n] = 13)
(* the rest of the line after an expression: where the next line begins     *)
EndLine(t,j) ==
  LET i == SkipBl(t,j) IN
  IF i > Len(t) THEN Pok(i,0)
  ELSE IF IsNl(t,i) THEN Pok(AfterNl(t,i),0)
  ELSE IF t[i] = 35 THEN LET e == ToEol(t,i) IN
                         IF CommentOk(t,i,e) THEN Pok(IF e > Len(t) THEN e ELSE e+1,0) ELSE Pun(i)
  ELSE Pbad(i)
RECURSIVE TDoc(_,_,_,_)
TDoc(t,j,root,path) ==
  LET i == SkipBl(t,j) IN
  IF i > Len(t) THEN Pok(i,root)
  ELSE IF t[i] \in {35,10} \/ IsNl(t,i)
  THEN LET e == EndLine(t,i) IN IF e[1] = "ok" THEN TDoc(t,e[2],root,path) ELSE e
  ELSE IF t[i] = 91
  THEN LET aot == IF ByteAt(t,i+1) = 91 THEN 1 ELSE 0
           ks == TKeys(t,i+1+aot,<<>>) IN
       IF ks[1] # "ok" THEN ks
       ELSE IF ByteAt(t,ks[2]) # 93 \/ (aot = 1 /\ ByteAt(t,ks[2]+1) # 93) THEN Pbad(ks[2])
       ELSE LET e == EndLine(t,ks[2]+1+aot)  r == TLCEval(Header(root,ks[3],aot)) IN
            IF e[1] # "ok" THEN e ELSE IF r[1] # "ok" THEN r ELSE TDoc(t,e[2],r[3],ks[3])
  ELSE LET ks == TKeys(t,i,<<>>) IN
       IF ks[1] # "ok" THEN ks
       ELSE IF ByteAt(t,ks[2]) # 61 THEN Pbad(ks[2]) ELSE
       LET v == TVal(t,SkipBl(t,ks[2]+1)) IN
       IF v[1] # "ok" THEN v ELSE
       LET e == EndLine(t,v[2])  r == TLCEval(Below(root,path,ks[3],v[3])) IN
       IF e[1] # "ok" THEN e ELSE IF r[1] # "ok" THEN r ELSE TDoc(t,e[2],r[3],path)
TParse(t) == TDoc(t,1,EmptyTab("def"),<<>>)

-----------------------------------------------------------------------------
(* what the reader builds *)
IntVal(l) == NumVal(l,<<>>)
RECURSIVE TImage(_,_), TPutAll(_,_,_,_)
TPutAll(m,s,i,rt) == IF i > Len(s) THEN m ELSE TPutAll(PutKey(m,s[i][1],TImage(s[i][2],rt)),s,i+1,rt)
TImage(d,rt) ==
  CASE d[1] = "str" -> <<7,d[2]>>
    [] d[1] = "bool" -> <<2,d[2]>>
    [] d[1] = "int" -> IntVal(d[2])
    [] d[1] = "flt" -> <<5,Lookup(rt,d[2])>>
    [] d[1] = "real" -> <<5,d[2]>>
    [] d[1] = "when" -> <<TMAP,<< <<B(d[2]),<<7,d[3]>>>> >>>>
    [] d[1] = "tab" -> <<TMAP,TPutAll(<<>>,d[2],1,rt)>>
    [] d[1] = "aot" -> <<TVEC,[ i \in 1..Len(d[2]) |-> TImage(d[2][i],rt) ]>>
    [] d[1] = "arr" ->
       LET n == Len(d[2])  e == [ i \in 1..n |-> TImage(d[2][i],rt) ] IN
       IF \A i \in 1..n : d[2][i][1] = "str" THEN <<14,[ i \in 1..n |-> e[i][2] ]>>
       ELSE IF \A i \in 1..n : d[2][i][1] = "int"
       THEN IF \A i \in 1..n : K(e[i]) = 3 THEN <<10,[ i \in 1..n |-> e[i][2] ]>>
            ELSE <<11,[ i \in 1..n |-> ToLongW(K(e[i]),e[i][2]) ]>>
       ELSE IF \A i \in 1..n : d[2][i][1] \in {"flt","real"} THEN <<12,[ i \in 1..n |-> e[i][2] ]>>
       ELSE <<TVEC,e>>
RECURSIVE TNumsOk(_,_)
TNumsOk(d,rt) ==
  CASE d[1] = "flt" -> HasEntry(rt,d[2]) /\ IsFin(Lookup(rt,d[2])) /\ ~BigExp(d[2])
    [] d[1] = "tab" -> \A i \in 1..Len(d[2]) : TNumsOk(d[2][i][2],rt)
    [] d[1] \in {"arr","aot"} -> \A i \in 1..Len(d[2]) : TNumsOk(d[2][i],rt)
    [] OTHER -> TRUE
(* a = <<text,how,rt>> *)
FromToml(v,a) ==
  LET t == a[1]  rt == a[Len(a)]  p == TParse(t) IN
  IF ~ValidUtf8(t) \/ (\E i \in 1..Len(t) : (t[i] < 32 /\ t[i] \notin {9,10,13}) \/ t[i] = 127 \/ (t[i] = 13 /\ ByteAt(t,i+1) # 10)) THEN << <<"any">>, v >>
  ELSE IF p[1] = "un" THEN << <<"any">>, v >>
  ELSE IF p[1] = "bad" THEN << <<"err">>, v >>
  ELSE IF ~TNumsOk(p[3],rt) THEN << <<"any">>, v >>
  ELSE << <<"ok",1>>, Collapse(TImage(p[3],rt)) >>

-----------------------------------------------------------------------------
(* what the writer must emit *)
RECURSIVE HasNone(_)
HasNone(v) == CASE K(v) = 0 -> TRUE
                [] K(v) = TVEC -> \E i \in 1..Len(v[2]) : HasNone(v[2][i])
                [] K(v) = TMAP -> \E i \in 1..Len(v[2]) : HasNone(v[2][i][2])
                [] OTHER -> FALSE
TReal(d,x,rt) == \/ d[1] = "real" /\ d[2] = x
                 \/ d[1] = "flt" /\ HasEntry(rt,d[2]) /\ Lookup(rt,d[2]) = x
TDenPay(k,d,x,rt) ==
  CASE k = 1 -> d = <<"str",HexText(PtrW(x))>>
    [] k = 2 -> d = <<"bool",x>>
    [] k = 3 -> d[1] = "int" /\ IntVal(d[2]) = <<3,x>>
    [] k = 4 -> d[1] = "int" /\ LET v == IntVal(d[2]) IN K(v) \in {3,4} /\ ToLongW(K(v),v[2]) = x
    [] k = 5 -> TReal(d,x,rt)
    [] k = 6 -> d[1] = "arr" /\ Len(d[2]) = 2 /\ TReal(d[2][1],x[1],rt) /\ TReal(d[2][2],x[2],rt)
    [] k = 7 -> d = <<"str",x>>
MatTag(k) == CASE k = 15 -> B("$mat_integer") [] k = 16 -> B("$mat_long") [] k = 17 -> B("$mat_real") [] k = 18 -> B("$mat_complex")
IsNum(tb,k,n) == HasK(tb,k) /\ GetK(tb,k)[1] = "int" /\ IntVal(GetK(tb,k)[2]) = <<3,n>>
DenArr(tb,k,kind,xs,rt) == /\ HasK(tb,k) /\ GetK(tb,k)[1] = "arr" /\ Len(GetK(tb,k)[2]) = Len(xs)
                           /\ \A i \in 1..Len(xs) : TDenPay(kind,GetK(tb,k)[2][i],xs[i],rt)
RECURSIVE TDenotes(_,_,_)
TDenotes(d,v,rt) ==
  CASE K(v) = 0 -> FALSE
    [] K(v) \in 1..7 -> TDenPay(K(v),d,v[2],rt)
    [] IsVecK(K(v)) -> /\ d[1] = "arr" /\ Len(d[2]) = Len(v[2])
                       /\ \A i \in 1..Len(v[2]) : TDenPay(K(v)-7,d[2][i],v[2][i],rt)
    [] IsMatK(K(v)) -> /\ d[1] = "tab" /\ Len(d[2]) = 1 /\ d[2][1][1] = MatTag(K(v))
                       /\ LET m == d[2][1][2] IN
                          /\ m[1] = "tab" /\ IsNum(m,B("$nrows"),v[2]) /\ IsNum(m,B("$ncols"),v[3])
                          /\ IF K(v) = 18
                             THEN /\ Len(m[2]) = 4
                                  /\ DenArr(m,B("$data_real"),5,[ i \in 1..Len(v[4]) |-> v[4][i][1] ],rt)
                                  /\ DenArr(m,B("$data_imag"),5,[ i \in 1..Len(v[4]) |-> v[4][i][2] ],rt)
                             ELSE Len(m[2]) = 3 /\ DenArr(m,B("$data"),K(v)-12,v[4],rt)
    [] K(v) = TVEC -> /\ d[1] \in {"arr","aot"} /\ Len(d[2]) = Len(v[2])
                      /\ \A i \in 1..Len(v[2]) : TDenotes(d[2][i],v[2][i],rt)
    [] K(v) = TMAP -> /\ d[1] = "tab" /\ Len(d[2]) = Len(v[2])
                      /\ \A i \in 1..Len(v[2]) : HasK(d,v[2][i][1]) /\ TDenotes(GetK(d,v[2][i][1]),v[2][i][2],rt)
(* a = <<how,rt>>; roots that are not maps are outside the format *)
ToTomlOk(v,a,r) ==
  IF K(v) # TMAP \/ ~TextOk(v) THEN TRUE
  ELSE IF HasNone(v) THEN r = <<"err">>
  ELSE /\ r[1] = "ok"
       /\ LET p == TParse(r[2]) IN p[1] = "ok" /\ TDenotes(p[3],v,a[Len(a)])
=============================================================================
