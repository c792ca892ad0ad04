---------------------------- MODULE GCPrintModel ---------------------------
(* Small-scope model of the printed reports.  A state is a value; growing   *)
(* wraps it (in a list, in a map under plain or formatted keys, next to     *)
(* another value); every value is printed in every style.                   *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES v, n
vars == <<v,n>>
View == vars

FT == << <<R15,B("1.5")>>, <<R1,B("1")>>, <<Rm0,B("-0")>>, <<ZeroW,B("0")>>, <<R31,B("2.14748e+09")>>, <<Rm1,B("-1")>> >>
CT == << <<R15,B("1.5")>>, <<R1,B("1")>>, <<Rm0,B("-0")>>, <<ZeroW,B("0")>>, <<R31,B("2147483648")>>, <<Rm1,B("-1")>> >>
Keys1 == { B("k"), <<>>, B("1#h"), B("2##-head"), B(" 3 #= x"), B("4##~"), B("5# "), B("6a#x") }
Small == { NoVal, <<3,7>>, <<1,2>>, <<8,<<1,0>>>>, <<8,<<>>>>, <<14,<<B("s"),<<>>>>>>, <<10,<<1,2>>>>, <<12,<<>>>>, <<9,[ i \in 1..10 |-> 1 ]>>, <<9,[ i \in 1..11 |-> 0 ]>>,
           <<15,2,2,<<1,2,3,4>>>>, <<18,2,1,<<<<R1,Rm1>>,<<R15,ZeroW>>>>>>, <<18,1,2,<<<<R1,R15>>,<<Rm1,Rm1>>>>>>, <<17,0,2,<<>>>>, <<16,1,1,<<W(5)>>>>, <<19,<<>>>>, <<20,<<>>>>, <<7,B("t")>> }
Wraps(x) == { <<19,<<x>>>>, <<19,<<<<3,1>>,x>>>> } \cup { <<20,<<<<k,x>>>>>> : k \in Keys1 }
            \cup { <<20,<<<<B("1#a"),x>>,<<B("b"),<<19,<<x>>>>>>>>>> }

S(x) == PrintT("S " \o ToJson(x))
TS(s) == <<s>>
Ind == { <<32,32>>, <<46>> }
Emit(x) == S(<< <<"init",TS(0),<<x>>>>,
     <<"dump",TS(0),<<<<>>,<<>>,3,6,0>>>>, <<"dump",TS(0),<<B("> "),<<46>>,0,6,0>>>>, <<"dump",TS(0),<<B("p"),<<32,32>>,1,3,1>>>>, <<"dump",TS(0),<<<<32>>,<<9>>,2,6,0>>>>,
     <<"types",TS(0),<<<<>>,<<>>,3,6,0>>>>, <<"types",TS(0),<<B("> "),<<46>>,0,6,0>>>>, <<"types",TS(0),<<B("> "),<<46>>,0,6,3>>>>,
     <<"info",TS(0),<<<<>>,<<>>,0,6,0>>>>, <<"info",TS(0),<<<<>>,<<>>,2,6,0>>>>, <<"info",TS(0),<<<<>>,<<>>,0,6,2>>>> >>)
Init == n = 0 /\ v \in Small \cup Scal2 \cup Vecs \cup Mats
Grow1 == n < Depth /\ n' = n+1 /\ v' \in Wraps(v) /\ Emit(v')
Show == n = 0 /\ n' = Depth /\ v' = v /\ Emit(v)
Next == Grow1 \/ Show
Spec == Init /\ [][Next]_vars
TypeOK == n \in 0..Depth /\ WellFormed(v)

-----------------------------------------------------------------------------
RECURSIVE Tame(_)     \* no line breaks inside texts and keys, only reals of the table
TB1(s) == \A i \in 1..Len(s) : s[i] \notin {10,13}
TR1(w) == HasEntry(FT,w) /\ HasEntry(FT,NegR(w))
TP(k,x) == CASE k = 7 -> TB1(x) [] k = 5 -> TR1(x) [] k = 6 -> TR1(x[1]) /\ TR1(x[2]) [] OTHER -> TRUE
Tame(x) == CASE K(x) = 0 -> TRUE [] K(x) \in 1..7 -> TP(K(x),x[2])
             [] IsVecK(K(x)) -> \A i \in 1..Len(x[2]) : TP(ElemK(K(x)),x[2][i])
             [] IsMatK(K(x)) -> \A i \in 1..Len(x[4]) : TP(ElemK(K(x)),x[4][i])
             [] K(x) = TVEC -> \A i \in 1..Len(x[2]) : Tame(x[2][i])
             [] K(x) = TMAP -> \A i \in 1..Len(x[2]) : TB1(x[2][i][1]) /\ Tame(x[2][i][2])
Lines1(t) == TLCEval(SelectSeq(SplitAt(t,1,1),LAMBDA l : l # <<>>))
D(x,p,i) == TLCEval(Dump(x,p,i,FT,CT))
(* lines one element contributes *)
RECURSIVE SumSeq(_), Count(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Count(x) == CASE K(x) <= 7 -> 1 [] K(x) \in {VPTR,VSTR} -> Len(x[2]) [] IsVecK(K(x)) -> 1
              [] IsMatK(K(x)) -> (IF Len(x[4]) = 0 THEN 1 ELSE x[2])
              [] K(x) = TVEC -> SumSeq([ i \in 1..Len(x[2]) |->
                    LET e == x[2][i] IN IF K(e) <= 7 \/ (K(e) \in VBOOL..VCPLX /\ Len(e[2]) <= 10) THEN 1 ELSE 1+Count(e) ])
              [] K(x) = TMAP -> SumSeq([ i \in 1..Len(x[2]) |->
                    LET e == x[2][i][2]  h == HeadKey(x[2][i][1]) IN
                    IF K(e) <= 7 THEN 1 ELSE Count(e) + (IF h # <<>> /\ h[2] # <<>> /\ h[3] # <<>> THEN 2 ELSE 1) ])
PreS == B("> ")
(* the prefix goes in front of every (non empty) line and changes nothing   *)
(* else; nothing is lost or repeated: the number of lines is that of the    *)
(* elements; a report ends with a line end; the text of a list is made of   *)
(* the texts of its elements                                                *)
LP(x) == Tame(x) =>
  LET d0 == D(x,<<>>,<<46>>)  d1 == D(x,PreS,<<46>>)
      t0 == TLCEval(Types(x,<<>>,<<46>>))  t1 == TLCEval(Types(x,PreS,<<46>>))
      blankless(t) == \A q \in 1..Len(t) : ~(t[q] = 10 /\ (q = 1 \/ t[q-1] = 10))
  IN /\ d0 = <<>> \/ d0[Len(d0)] = 10
     /\ t0 = <<>> \/ t0[Len(t0)] = 10
     /\ (blankless(d0) /\ blankless(t0)) =>
        /\ Lines1(d1) = [ i \in 1..Len(Lines1(d0)) |-> PreS \o Lines1(d0)[i] ]
        /\ Lines1(t1) = [ i \in 1..Len(Lines1(t0)) |-> PreS \o Lines1(t0)[i] ]
        /\ Len(Lines1(d0)) = Count(x)
     /\ K(x) # TVEC \/ LET m == Len(x[2]) IN m = 0 \/
          LET y == <<TVEC,SubSeq(x[2],1,m-1)>> IN SubSeq(d1,1,Len(D(y,PreS,<<46>>))) = D(y,PreS,<<46>>)
Laws == [][LP(v')]_vars
=============================================================================
