---------------------------- MODULE GCMexModel -----------------------------
(* Small-scope model of the MATLAB interface: the container holds a value,  *)
(* or receives an array of every class and shape; values and arrays are     *)
(* wrapped up to Depth times; what was received is sent back.               *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES x, v, n          \* array received (<<>>: none), content, depth
vars == <<x,v,n>>
View == vars

RECURSIVE NoNul(_)
NoNul(u) == CASE K(u) = TSTR -> (\A i \in 1..Len(u[2]) : u[2][i] # 0)
              [] K(u) = VSTR -> (\A j \in 1..Len(u[2]) : \A i \in 1..Len(u[2][j]) : u[2][j][i] # 0)
              [] K(u) = TVEC -> (\A j \in 1..Len(u[2]) : NoNul(u[2][j]))
              [] K(u) = TMAP -> (\A j \in 1..Len(u[2]) : NoNul(u[2][j][2]))
              [] OTHER -> TRUE
Vals == { u \in {NoVal} \cup ScalAll \cup Vecs \cup Mats \cup Lists \cup MapsM \cup {<<14,<<B("p"),<<>>,<<233>>>>>>} : NoNul(u) }
WrapV(u) == { <<TVEC,<<u>>>>, <<TVEC,<<<<3,1>>,u>>>>, <<TMAP,<<<<Ka,u>>>>>>, <<TMAP,<<<<Ka,u>>,<<Kab,<<10,<<1,2>>>>>>>>>> }

IntCls == {"int8","uint8","int16","uint16","int32","uint32","int64","uint64"}
(* the ends of each class *)
Low(c) == CASE c = "int8" -> W(-128) [] c = "int16" -> W(-32768) [] c = "int32" -> W(MinI) [] c = "int64" -> MinL [] OTHER -> ZeroW
High(c) == CASE c = "int8" -> W(127) [] c = "uint8" -> W(255) [] c = "int16" -> W(32767) [] c = "uint16" -> W(65535)
             [] c = "int32" -> W(2147483647) [] c = "uint32" -> <<0,0,65535,65535>> [] c = "int64" -> MaxL [] c = "uint64" -> <<65535,65535,65535,65535>>
             [] OTHER -> W(1)
Pal(c) == CASE c = "logical" -> <<1,0>> [] c = "single" -> <<R15,Rm0>> [] c = "double" -> <<R31h,NaNW>>
            [] c = "uint64" -> <<W(3),P53o>> [] OTHER -> <<Low(c),High(c)>>
Shapes == { <<1,1>>, <<1,0>>, <<0,0>>, <<0,3>>, <<3,0>>, <<1,3>>, <<3,1>>, <<2,2>>, <<2,3>>, <<1,1,2>>, <<2,1,2>> }
Cnt(d) == IF Len(d) = 2 THEN d[1]*d[2] ELSE d[1]*d[2]*d[3]
Data(c,z,m) == [ i \in 1..m |-> LET b == ((i*i) % 3) % 2  p == Pal(c)[1+b]  q == Pal(c)[2-b] IN IF z = 1 THEN <<p,q>> ELSE p ]
Nums == { <<"num",c,z,d,Data(c,z,Cnt(d))>> : c \in IntCls \cup {"single","double"}, z \in {0,1}, d \in Shapes }
        \cup { <<"num","logical",0,d,Data("logical",0,Cnt(d))>> : d \in Shapes }
        \cup { <<"num",c,0,<<1,1>>,<<High(c)>>>> : c \in IntCls } \cup { <<"num","uint64",0,<<1,3>>,<<W(1),High("uint64"),W(2)>>>>, <<"num","uint64",0,<<1,1>>,<<MinL>>>>, <<"num","uint64",1,<<1,1>>,<<<<MinL,W(1)>>>>>> }
Sp == { <<"sparse","double",0,2,2,<<0,1,2>>,<<0,1>>,<<R15,R1>>>>, <<"sparse","double",1,3,1,<<0,2>>,<<0,2>>,<<<<R15,R1>>,<<R1,Rm0>>>>>>,
        <<"sparse","double",0,2,3,<<0,0,0,0>>,<<>>,<<>>>>, <<"sparse","logical",0,2,2,<<0,1,3>>,<<1,0,1>>,<<1,1,1>>>>, <<"sparse","double",0,0,0,<<0>>,<<>>,<<>>>> }
One == <<"num","double",0,<<1,1>>,<<R15>>>>
Arrs == Nums \cup Sp \cup { <<"nul">>, <<"obj">>, <<"str",<<>>>>, <<"str",<<97,98>>>>, <<"char",<<0,0>>,<<>>>>, <<"char",<<1,3>>,<<97,98,99>>>>, <<"char",<<1,1>>,<<97>>>>, <<"char",<<2,2>>,<<97,98,99,100>>>>,
        <<"cell",<<0,0>>,<<>>>>, <<"cell",<<1,0>>,<<>>>>, <<"struct",<<1,1>>,<<>>,<<<<>>>>>>, <<"struct",<<0,0>>,<<Ka>>,<<>>>>,
        <<"struct",<<1,2>>,<<Kb,Ka>>,<<<<One,<<"nul">>>>,<<<<"char",<<1,1>>,<<97>>>>,One>>>>>> }
WrapA(y) == { <<"cell",<<1,1>>,<<y>>>>, <<"cell",<<2,1>>,<<One,y>>>>, <<"struct",<<1,1>>,<<Ka>>,<<<<y>>>>>>, <<"struct",<<1,1>>,<<Kb,Ka>>,<<<<y,One>>>>>>, <<"struct",<<2,1>>,<<Ka>>,<<<<y>>,<<One>>>>>> }

S(u) == PrintT("S " \o ToJson(u))
TS(s) == <<s>>
EmitV(u) == S(<< <<"init",TS(0),<<u>>>>, <<"mx_out",TS(0),<<>>>>, <<"mx_val",TS(0),<<>>>>, <<"mx_print",TS(0),<<>>>>, <<"init",TS(1),<<<<10,<<1>>>>>>>>,
                 <<"mx_rt",TS(1),<<>>,TS(0)>>, <<"mx_rt",TS(2),<<>>,TS(1)>>, <<"mx_out",TS(2),<<>>>> >>)
EmitA(y) == S(<< <<"init",TS(0),<<<<20,<<<<Ka,<<3,2>>>>,<<JcK,<<3,1>>>>>>>>>>>> >> \o (IF y[1] = "sparse" THEN << <<"mx_sparse",TS(0),<<y>>>>, <<"mx_sparse",TS(1),<<y>>>>, <<"init",TS(2),<<<<3,4>>>>>>, <<"mx_sparse",TS(2),<<y>>>> >> ELSE <<>>)
                \o << <<"mx_in",TS(0),<<y>>>>, <<"mx_rt",TS(3),<<>>,TS(0)>> >>)
Init == n = 0 /\ \/ x = <<>> /\ v \in Vals
                 \/ x \in Arrs /\ v = NoVal
Next == /\ n < Depth /\ n' = n+1
        /\ \/ x = <<>> /\ x' = x /\ v' \in {v} \cup WrapV(v) /\ EmitV(v')
           \/ x # <<>> /\ x' \in {x} \cup WrapA(x) /\ v' = (IF MxTooBig(x') THEN NoVal ELSE MxIn(x')) /\ EmitA(x')
Spec == Init /\ [][Next]_vars
TypeOK == WellFormed(v)

(* the same data: what comes back from MATLAB for what was sent.  A single  *)
(* number is a number whatever it was stored in; a row is a vector;         *)
(* integers that MATLAB keeps in 64 bits come back as long integers;        *)
(* vectors of booleans and of strings come back as lists                    *)
MInt(k,s) == IF k = 3 THEN [ i \in 1..Len(s) |-> IntToW(s[i]) ] ELSE s
MK(k) == IF k = 3 THEN 4 ELSE k
RECURSIVE Back(_,_)
Back(u,p) ==
  CASE K(u) \in {0,1,8} -> p = <<MREAL,0,0,<<>>>>
    [] K(u) \in {2,4,5,6,7} -> p = u
    [] K(u) = TINT -> p = <<TLONG,IntToW(u[2])>>
    [] K(u) = VBOOL -> (IF Len(u[2]) = 1 THEN p = <<TBOOL,u[2][1]>> ELSE p = <<TVEC,[ i \in 1..Len(u[2]) |-> <<TBOOL,u[2][i]>> ]>>)
    [] K(u) \in {10,11,12,13} -> (IF Len(u[2]) = 1 THEN p = <<MK(K(u)-7),MInt(K(u)-7,u[2])[1]>> ELSE p = <<MK(K(u)-7)+7,MInt(K(u)-7,u[2])>>)
    [] K(u) = VSTR -> p = <<TVEC,[ i \in 1..Len(u[2]) |-> <<TSTR,u[2][i]>> ]>>
    [] IsMatK(K(u)) -> (CASE u[2] = 1 /\ u[3] = 1 -> p = <<K(u)-12,u[4][1]>> [] u[2] = 1 -> p = <<K(u)-5,u[4]>> [] OTHER -> p = u)
    [] K(u) = TVEC -> K(p) = TVEC /\ Len(p[2]) = Len(u[2]) /\ \A i \in 1..Len(u[2]) : Back(u[2][i],p[2][i])
    [] K(u) = TMAP -> K(p) = TMAP /\ KeysOf(p[2]) = KeysOf(u[2]) /\ \A i \in 1..Len(u[2]) : Back(u[2][i][2],p[2][i][2])
Trip(u) == TLCEval(MxIn(MxOut(u)))
(* every content comes back as above; after two trips nothing changes any   *)
(* more; exporting as a C++ value and as a container agree up to the        *)
(* orientation; a wrapped array is imported as the wrapped import           *)
Laws == [][ /\ Back(v',Trip(v')) /\ Trip(Trip(Trip(v'))) = Trip(Trip(v'))
            /\ (x' # <<>> /\ ~MxTooBig(x')) => /\ MxIn(<<"cell",<<1,1>>,<<x'>>>>) = <<TVEC,<<MxIn(x')>>>>
                                               /\ MxIn(<<"struct",<<1,1>>,<<Ka>>,<<<<x'>>>>>>) = <<TMAP,<<<<Ka,MxIn(x')>>>>>>
            /\ K(v') \in 9..14 => LET a == MxVal(v')  b == MxOut(v') IN a[Len(a)] = b[Len(b)] ]_vars
=============================================================================
