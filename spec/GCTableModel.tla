---------------------------- MODULE GCTableModel ---------------------------
(* Small-scope model of the column tables.  mode "w": a container that may  *)
(* hold a table, written and read back; mode "l": a text typed line by      *)
(* line, read by both readers.                                              *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES mode, txt, n
vars == <<mode,txt,n>>
View == vars

FT == << <<ZeroW,B("0")>>, <<R1,B("1")>>, <<Rm1,B("-1")>>, <<R15,B("1.5")>>, <<Rm0,B("-0")>>, <<R31,B("2147483648")>>, <<IntToReal(2147483647),B("2147483647")>>,
         <<IntToReal(2),B("2")>>, <<IntToReal(3),B("3")>>, <<IntToReal(7),B("7")>> >>
RT == [ i \in 1..Len(FT) |-> <<FT[i][2],FT[i][1]>> ] \o << <<B("01"),R1>>, <<B(".5"),<<16352,0,0,0>>>> >>

(* candidate tables *)
Hs == { <<>>, <<B("a")>>, <<B("b"),B("a")>>, <<B("x"),B("longerheader"),B("z")>> }
Col(k,m) == CASE k = 12 -> <<12,SubSeq(<<R15,Rm0,R31>>,1,m)>> [] k = 10 -> <<10,SubSeq(<<7,-1,2147483647>>,1,m)>>
              [] k = 9 -> <<9,SubSeq(<<1,0,1>>,1,m)>> [] k = 19 -> <<19,SubSeq(<<<<5,R15>>,<<3,7>>,<<2,1>>>>,1,m)>> [] k = 14 -> <<14,SubSeq(<<<<97>>,<<98>>,<<99>>>>,1,m)>>
              [] k = 5 -> <<5,R15>> [] k = 0 -> NoVal
Cols == { Col(k,m) : k \in {12,10,9,19}, m \in 0..2 } \cup { Col(14,1), Col(5,0), Col(0,0) }
MatD == { <<17,0,0,<<>>>>, <<17,2,0,<<>>>>, <<17,0,2,<<>>>>, <<17,1,1,<<R15>>>>, <<17,2,2,<<R15,Rm0,R1,R31>>>>, <<17,1,3,<<R1,R15,Rm1>>>> }
Datas == MatD \cup { <<19,<<>>>> } \cup { <<19,<<c>>>> : c \in Cols } \cup { <<19,<<c,d>>>> : c \in Cols, d \in Cols }
         \cup { <<19,<<c,d,Col(12,Len(c[2]))>>>> : c \in {Col(12,2),Col(10,1)}, d \in {Col(9,2),Col(19,1)} } \cup { <<3,1>>, <<12,<<R1>>>>, <<15,1,1,<<7>>>> }
Tab(h,d) == <<TMAP,<< <<Kd,d>>, <<Kh,h>> >>>>
Tables == { Tab(<<VSTR,h>>,d) : h \in Hs, d \in Datas }
          \cup { Tab(<<TVEC,<<>>>>,<<19,<<>>>>), <<TMAP,<< <<Kd,<<19,<<>>>>>> >>>>, <<TMAP,<< <<Kh,<<VSTR,<<>>>>>> >>>>, <<TMAP,<<>>>>, NoVal, LInt }

Ln == { B("a b"), B("a"), B("1 2"), (<<32,48,49,9>> \o B(".5 ")), B("7"), B("# 1"), B("#! p = 2"), B("#!q=x y"), B("1 2 #"), <<>>, B(" "), B("1 2 3"), <<98,13>> }

S(x) == PrintT("S " \o ToJson(x))
TS(s) == <<s>>
Old == <<"init",TS(0),<< <<14,<<<<97>>,<<98>>>>>> >>>>
ReadS(t) == S(<< Old, <<"init",TS(1),<<<<3,1>>>>>>, <<"tread",TS(0),<<t,B("#"),<<32,9>>,0>>>>, <<"tread2",TS(0),<<t,B("#"),<<32,9>>,0>>,TS(1)>> >>)
Init == n = 0 /\ \/ mode = "w" /\ txt \in { <<v>> : v \in Tables }
                 \/ mode = "l" /\ txt = <<>>
RECURSIVE Gather(_,_)
Gather(ls,e) == IF ls = <<>> THEN <<>> ELSE ls[1] \o (IF Len(ls) = 1 THEN <<>> ELSE e) \o Gather(Tail(ls),e)
Type == /\ mode = "l" /\ n < Depth
        /\ \E k \in Ln : txt' = Append(txt,k)
        /\ n' = n+1 /\ mode' = mode
        /\ ReadS(Gather(txt',<<10>>)) /\ ReadS(Gather(txt',<<10>>) \o <<10>>) /\ ReadS(Gather(txt',<<13,10>>) \o <<13,10>>)
Writes(v) == { TWrite(v,<<d,17,how,FT>>) : d \in {9,44}, how \in {0,1} }
Write == /\ mode = "w" /\ n = 0
         /\ n' = 1 /\ txt' = txt /\ mode' = mode
         /\ \A how \in 0..5 : \A d \in {9,44} : S(<< <<"init",TS(0),<<txt[1]>>>>, <<"twrite",TS(0),<<d,17,how>>>> >>)
         /\ \A d \in {9,44} : LET r == TWrite(txt[1],<<d,17,0,FT>>) IN
              IF r = Er THEN TRUE ELSE S(<< Old, <<"tread",TS(0),<<r[2],B("#%"),<<d>>,0>>>>, <<"tread2",TS(0),<<r[2],B("#%"),<<d>>,1>>>> >>)
Next == Type \/ Write
Spec == Init /\ [][Next]_vars
TypeOK == n \in 0..Depth

HashS == B("#")  CmtLine == B("# c")  HashP == B("#%")
TR(t,two) == TRead(NoVal,<<t,HashS,<<32,9>>,0,RT>>,two)
(* a final newline and the style of the line ends do not matter, a comment  *)
(* line anywhere does not matter; every row has as many cells as the header *)
LL == LET t == TLCEval(Gather(txt',<<10>>)) IN
      \A two \in {FALSE,TRUE} :
        LET r == TLCEval(TR(t,two)) IN
        /\ t # <<>> /\ t[Len(t)] # 10 => TR(t \o <<10>>,two) = r
        /\ (\A q \in 1..Len(txt') : ~HasAny(txt'[q],{13})) => TR(Gather(txt',<<13,10>>) \o <<13,10>>,two) = TR(Gather(txt',<<10>>) \o <<10>>,two)
        /\ \A i \in 0..Len(txt') : LET c == Gather(SubSeq(txt',1,i) \o <<CmtLine>> \o SubSeq(txt',i+1,Len(txt')),<<10>>) 
                                       rc == TLCEval(TR(c,two)) IN rc[1] = r[1] /\ rc[2] = r[2]
        /\ r[1] = OkU /\ r[2] # <<"open">> /\ ~two =>
             LET d == GetKey(r[2][2],Kd)  h == GetKey(r[2][2],Kh) IN
             /\ Len(d[2]) = Len(h[2])
             /\ \A i,j \in 1..Len(d[2]) : Len(d[2][i][2]) = Len(d[2][j][2])
(* what is written is read back: same headers, same numbers *)
LW == LET v == txt[1] IN
      \A d \in {9,44} : LET r == TWrite(v,<<d,17,0,FT>>) IN
        /\ r = TWrite(v,<<d,17,1,FT>>)
        /\ r # Er /\ r[2] # <<>> =>
           LET q == TRead(NoVal,<<r[2],B("#%"),<<d>>,0,RT>>,FALSE)
               q2 == TRead(NoVal,<<r[2],B("#%"),<<d>>,0,RT>>,TRUE)
               h == GetKey(v[2],Kh)[2]  dat == GetKey(v[2],Kd)
               nc == IF K(dat) = 17 THEN dat[3] ELSE Len(h)
           IN /\ q[1] = OkU /\ q2[1] = OkU
              /\ GetKey(q[2][2],Kh)[2] = SubSeq(h,1,nc)
              /\ \A c \in 1..nc :
                   LET got == GetKey(q[2][2],Kd)[2][c][2]
                       nr == IF K(dat) = 17 THEN dat[2] ELSE NumElems(dat[2][1]) IN
                   /\ Len(got) = nr
                   /\ \A i \in 1..nr : Ok(got[i]) = IF K(dat) = 17 THEN Ok(dat[4][i+(c-1)*dat[2]]) ELSE NumberAt(dat[2][c],<<i-1>>)[1]
                   /\ GetKey(GetKey(q2[2][2],Kd)[2],h[c])[2] = got
Laws == [][IF mode = "w" THEN LW ELSE LL]_vars
=============================================================================
