------------------------------ MODULE GCModel ------------------------------
(* Exhaustive small-scope model.  Containers 0 and 1 start with values of a *)
(* corpus chosen by the property (Fam); every operation instance of the     *)
(* family is applied in every reachable state up to Depth steps.  TLC       *)
(* checks the laws of the property on every transition and writes every     *)
(* transition, with the history that leads to it, as a script that is then  *)
(* executed on the real library (lines "S [...]").                          *)
EXTENDS GCCorpus, Json, IOUtils

CONSTANTS Fam, Depth
VARIABLES R, h, last
(* h: script so far; last: <<op,v,args,o,reply,v'>> of the latest step *)
vars == <<R,h,last>>
View == <<R,Len(h)>>

-----------------------------------------------------------------------------
(* initial contents of container 0 and 1 *)
Corpus0 == CASE Fam \in {"P01"} -> All
             [] Fam = "P02" -> ScalAll \cup {NoVal,LInt}
             [] Fam \in {"P03","P08","P09","P10"} -> VecLike
             [] Fam = "P04" -> {<<TMAP,<<>>>>}
             [] Fam = "P05" -> Lists \cup MapsM
             [] Fam = "P06" -> MapsM \cup {NoVal,<<3,1>>,LInt}
             [] Fam = "P07" -> All \cup MapsM \cup Near
             [] Fam \in {"P11","P12"} -> All \cup MapsM
             [] Fam = "P13" -> All \cup MapsM
             [] Fam = "P22" -> {NoVal}
Corpus1 == CASE Fam = "P05" -> {NoVal,<<3,4>>,LInt,<<TMAP,<<<<Kb,<<7,<<98>>>>>>>>>>}
             [] Fam = "P06" -> MapsM \cup {NoVal,<<3,1>>}
             [] Fam = "P07" -> All \cup MapsM \cup Near
             [] OTHER -> {NoVal}

-----------------------------------------------------------------------------
(* operation instances: <<op,target,args>> or <<op,target,args,other>>;     *)
(* target = <<slot,path>>                                                   *)
T0 == <<0,<<>>>>  T1 == <<1,<<>>>>
Hows(x) == CASE K(x) = 0 -> {"m"} [] K(x) = 6 -> {"m","a","s","c","r"}
             [] K(x) = 7 -> {"m","a","s","c","r","v","za","zs","zc"} [] K(x) = 8 -> {"m","r"}
             [] K(x) = 19 -> {"m"} [] K(x) = 20 -> {"m","r"} [] K(x) < 8 -> {"m","a","s","c"}
             [] OTHER -> {"m","a","c","r"}
RECURSIVE Paths(_)
Paths(v) == {<<>>} \cup
  CASE K(v) = TVEC -> UNION { { <<<<"i",i-1>>>> \o p : p \in Paths(v[2][i]) } : i \in 1..Len(v[2]) }
    [] K(v) = TMAP -> UNION { { <<<<"k",v[2][i][1]>>>> \o p : p \in Paths(v[2][i][2]) } : i \in 1..Len(v[2]) }
    [] OTHER -> {}
Refs == UNION { { <<s,p>> : p \in Paths(R[s]) } : s \in 0..1 }
GKeys == {K0,Ka,Kb,Kab}
MVals == {<<3,1>>,<<2,1>>,<<5,R15>>}
Pos == {0,1,2,3,5}

OpsP01 == UNION { { <<"store",T0,<<how,x>>>> : how \in Hows(x) } : x \in All }
   \cup { <<"store",T0,<<"m",x>>>> : x \in ScalAll }
   \cup { <<"storeu",T0,<<how,"uint",w>>>> : how \in {"a","s","c"}, w \in {ZeroW,W(2147483647),P31,<<0,0,65535,65535>>} }
   \cup { <<"storeu",T0,<<how,"ulong",w>>>> : how \in {"a","s","c"}, w \in {ZeroW,P31,MaxL,MinL,<<65535,65535,65535,65535>>} }
   \cup { <<"storeu",T0,<<how,"float",w>>>> : how \in {"a","s","c"}, w \in {R15,Rm0,NaNW} }
   \cup { <<"alloc",T0,<<k,n>>>> : k \in (8..14) \cup {19}, n \in {0,2,4} }
   \cup { <<"alloc",T0,<<k,n,m>>>> : k \in 15..18, n \in {0,2}, m \in {1,3} }
   \cup { <<"alloc",T0,<<20>>>>, <<"clear",T0,<<>>>>, <<"free_pointer",T0,<<>>>>, <<"shape",T0,<<>>>>, <<"type_name",T0,<<>>>> }
   \cup { <<"getc",T0,<<k>>>> : k \in Kinds } \cup { <<"getn",T0,<<k>>>> : k \in Kinds }
   \cup { <<"getn",T0,<<K(x),x>>>> : x \in Scal2 \cup Vecs }
   \cup { <<"ptr",T0,<<k>>>> : k \in 3..6 } \cup { <<"ptr",T0,<<k,1>>>> : k \in 3..6 }
OpsP02 == { <<"as",T0,<<t>>>> : t \in {"int","uint","long","ulong","float","double","number","cnumber"} }
   \cup { <<"as",T0,<<t,1>>>> : t \in {"int","uint","long","ulong","cnumber"} }
OpsP03 == { <<"atc",T0,<<k,i>>>> : k \in 2..7, i \in Pos } \cup { <<"atn",T0,<<k,i>>>> : k \in 2..7, i \in Pos }
   \cup UNION { { <<"atn",T0,<<k,i,x>>>> : i \in {0,1,5}, x \in P2(k) } : k \in 3..7 }
   \cup { <<"at2c",T0,<<k,i,j>>>> : k \in 3..6, i \in 0..3, j \in 0..2 }
   \cup { <<"at2n",T0,<<k,i,j>>>> : k \in 3..6, i \in 0..3, j \in 0..2 }
   \cup { <<"at2n",T0,<<k,i,j,A1(k)>>>> : k \in 3..6, i \in 0..2, j \in 0..1 }
   \cup { <<"number_at",T0,<<i>>>> : i \in Pos } \cup { <<"cnumber_at",T0,<<i>>>> : i \in Pos }
   \cup { <<"idx",T0,<<how,i>>>> : how \in {"br","gc","pa","brc","gcc","pac"}, i \in Pos }
   \cup { <<"idx",T0,<<how,i,<<7,<<97>>>>>>>> : how \in {"br","gc","pa"}, i \in {0,1,3} }
   \cup (IF IsMatK(K(R[0])) THEN { <<"rowcol",T0,<<0,i>>>> : i \in 0..(R[0][2]-1) } \cup
                                 { <<"rowcol",T0,<<1,i>>>> : i \in 0..(R[0][3]-1) } ELSE {})
   \cup { <<"ptr_at",T0,<<i>>>> : i \in Pos }
   \cup (IF K(R[0]) = 8 THEN UNION { { <<"ptr_at",T0,<<i,"n">>>>, <<"ptr_at",T0,<<i,"n",3>>>> } : i \in Pos } ELSE {})
KeyLists == { <<>>, <<Ka>>, <<Kb,Ka>>, <<K0,Kab>>, <<Kab,Kb>> }
OpsP04 == { <<"key",T0,<<how,k>>>> : how \in {"br","pa","brc","pac"}, k \in GKeys }
   \cup { <<"key",T0,<<how,k,x>>>> : how \in {"br","pa"}, k \in GKeys, x \in MVals }
   \cup { <<"keys",T0,<<how,ks>>>> : how \in {"pa","pac"}, ks \in KeyLists }
   \cup { <<"keys",T0,<<"pa",ks,<<2,1>>>>>> : ks \in KeyLists }
   \cup { <<"exists",T0,<<k>>>> : k \in GKeys } \cup { <<"existsv",T0,<<ks>>>> : ks \in KeyLists }
   \cup { <<"must",T0,<<ks>>>> : ks \in KeyLists } \cup { <<"get_keys",T0,<<>>>> }
   \cup { <<"erase",T0,<<k>>>> : k \in GKeys }
   \cup { <<"gie",T0,<<t,ks,"n",1>>>> : t \in {"bool","int","uint","long","ulong","real","complex","string"}, ks \in KeyLists }
   \cup { <<"getmap",T0,<<w,how,ks>>>> : w \in {"bool","int","number","string"}, how \in {"any","path"}, ks \in KeyLists \ {<<>>} }
   \cup { <<"getmap",T0,<<w,"key",ks>>>> : w \in {"bool","int","number","string"}, ks \in {k \in KeyLists : Len(k) = 1} }
OpsP05 == { <<op,t,<<>>,o>> : op \in {"from_gc","to_gc","load","asg","copyctor","asgc"}, t \in Refs, o \in Refs }
OpsP06 == { <<"merge",t,<<>>,o>> : t \in {T0,T1}, o \in {T0,T1} }
   \cup { <<"merge",t,<<>>,o>> : t \in { r \in Refs : r[1] = 0 }, o \in { r \in Refs : r[1] = 0 } }
OpsP07 == { <<"compare",T0,<<>>,T1>> }
PKinds == (3..6) \cup (10..13) \cup (15..18) \cup {19}
OpsP08 == { <<"promote",T0,<<k>>>> : k \in PKinds }
OpsP09 == UNION { { <<"push",T0,<<k,x>>>> : x \in P2(k) } : k \in 2..7 }
OpsP10 == { <<"copyto_vec",T0,<<t>>>> : t \in {"int","uint","long","ulong","real","complex","string"} }
   \cup { <<"copyto_mat",T0,<<t>>>> : t \in {"int","long","real","complex"} }
OpsP11 == { <<"collapse",T0,<<>>>> }
OpsP12 == { <<"ser",T0,<<n>>>> : n \in {0,7} } \cup { <<"serb",T0,<<d>>>> : d \in {0,-1,-4,3} }
   \cup { <<"serde",T1,<<>>,T0>> }
OpsP13 == LET s == Ser(R[0]) IN
   { <<"deser",T1,<<SubSeq(s,1,n)>>>> : n \in 0..Len(s) } \cup
   { <<"deser",T1,<<[s EXCEPT ![n] = b]>>>> : n \in 1..Len(s), b \in {0,3,20,128,255} }
(* interface-spanning histories from a small alphabet *)
OpsP22 ==
   { <<"store",T0,<<"m",x>>>> : x \in {<<7,<<97>>>>,<<10,<<1>>>>,<<13,<<>>>>} } \cup
   { <<"push",t,<<k,A1(k)>>>> : t \in {T0,T1}, k \in {3,6,7} } \cup
   { <<"promote",T0,<<k>>>> : k \in {6,13,16,18,19} } \cup
   { <<"key",T0,<<"br",Ka>>>>, <<"idx",T0,<<"br",1>>>>, <<"atn",T0,<<5,1>>>>, <<"at2n",T0,<<6,0,0>>>>,
     <<"erase",T0,<<Ka>>>>, <<"clear",T0,<<>>>>, <<"collapse",T0,<<>>>>, <<"asg",T1,<<>>,T0>>, <<"asg",T0,<<>>,T1>>,
     <<"merge",T0,<<>>,T1>>, <<"serde",T1,<<>>,T0>> } \cup
   { <<"asg",t,<<>>,o>> : t \in { r \in Refs : r[1] = 0 }, o \in { r \in Refs : r[1] = 0 } }

OpSet == CASE Fam = "P01" -> OpsP01 [] Fam = "P02" -> OpsP02 [] Fam = "P03" -> OpsP03
           [] Fam = "P04" -> OpsP04 [] Fam = "P05" -> OpsP05 [] Fam = "P06" -> OpsP06
           [] Fam = "P07" -> OpsP07 [] Fam = "P08" -> OpsP08 [] Fam = "P09" -> OpsP09
           [] Fam = "P10" -> OpsP10 [] Fam = "P11" -> OpsP11 [] Fam = "P12" -> OpsP12
           [] Fam = "P13" -> OpsP13 [] Fam = "P22" -> OpsP22

-----------------------------------------------------------------------------
(* Scripts address nodes by selectors; a path is the same thing with the    *)
(* tags dropped and map keys replaced by positions.                         *)
RECURSIVE Sel(_,_)
Sel(v,p) == IF p = <<>> THEN <<>>
            ELSE IF p[1][1] = "i" THEN <<p[1][2]>> \o Sel(v[2][p[1][2]+1],Tail(p))
            ELSE <<KeyIdx(v[2],p[1][2])-1>> \o Sel(GetKey(v[2],p[1][2]),Tail(p))
Ref(t) == <<t[1]>> \o Sel(R[t[1]],t[2])
Line(x) == IF Len(x) = 4 THEN <<x[1],Ref(x[2]),x[3],Ref(x[4])>> ELSE <<x[1],Ref(x[2]),x[3]>>
InitLine(s,v) == <<"init",<<s>>,<<v>>>>

Init == /\ \E v \in Corpus0, w \in Corpus1 :
             /\ R = [ s \in 0..3 |-> IF s = 0 THEN v ELSE IF s = 1 THEN w ELSE NoVal ]
             /\ h = (IF v = NoVal THEN <<>> ELSE <<InitLine(0,v)>>) \o (IF w = NoVal THEN <<>> ELSE <<InitLine(1,w)>>)
        /\ last = <<"none">>
NInit == IF h = <<>> THEN 0 ELSE Cardinality({ i \in 1..Len(h) : h[i][1] = "init" })
Step(x) ==
  LET t == x[2]
      v == AtPath(R[t[1]],t[2])
      o == IF Len(x) = 4 THEN AtPath(R[x[4][1]],x[4][2]) ELSE NoVal
      r == TLCEval(Apply(x[1],v,x[3],o))
  IN /\ R' = [R EXCEPT ![t[1]] = PutPath(R[t[1]],t[2],r[2])]
     /\ h' = Append(h,Line(x))
     /\ last' = <<x[1],v,x[3],o,r[1],r[2],t>>
     /\ PrintT("S " \o ToJson(h'))
Next == /\ Len(h)-NInit < Depth
        /\ \E x \in OpSet : Step(x)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws.  They are stated on observations (what reading the container       *)
(* afterwards gives), not on how the operations are defined.                *)
TypeOK == \A s \in 0..3 : WellFormed(R[s])

Ok1(r) == r[1] = "ok"
(* other containers are never affected *)
LFrame == \A s \in 0..3 : s # last'[7][1] => R'[s] = R[s]
(* a refused operation leaves everything as it was (at2n may widen first,   *)
(* a rejected byte sequence leaves some content)                            *)
LRefused == last'[5][1] = "err" /\ last'[1] \notin {"at2n","deser"} => R' = R
ReadOnly == {"shape","type_name","getc","ptr","as","atc","at2c","number_at","cnumber_at","rowcol","exists","existsv",
             "must","get_keys","gie","compare","copyto_vec","copyto_mat","ser","serb"}
LRead == last'[1] \in ReadOnly => R' = R
LP01 == LET op == last'[1]  a == last'[3]  p == last'[6] IN
   /\ op = "store" => /\ (a[1] \notin {"za","zs","zc"} => p = a[2])
                      /\ \A k \in Kinds : IF k = K(p) THEN GetC(p,<<k>>)[1] = Ok(p) ELSE GetC(p,<<k>>) = Err(p)
   /\ op = "clear" => p = NoVal /\ Shape(p)[1] = <<"ok",0,0,0,0>>
   /\ op = "shape" => last'[5][3] = Len(IF K(p) = 0 THEN <<>> ELSE Elems(p)) \/ K(p) >= 19
   /\ op = "shape" /\ IsMatK(K(p)) => last'[5][3] = last'[5][4]*last'[5][5]
(* an integer result, converted back, is the stored number *)
BackReal(T,x) == CASE T = "int" -> IntToReal(x) [] T = "long" -> LongToReal(x)
                   [] T \in {"uint","ulong"} -> UlongToReal(x)
LP02 == LET v == last'[2]  T == last'[3][1]  r == last'[5] IN
   last'[1] = "as" /\ T \in {"int","uint","long","ulong"} /\ Ok1(r) =>
      CASE K(v) = 5 -> EqR(BackReal(T,r[2]),v[2]) \/ IsZero0R(v[2])
        [] K(v) = 6 -> EqR(BackReal(T,r[2]),v[2][1]) \/ IsZero0R(v[2][1])
        [] K(v) = 4 -> (IF T = "int" THEN IntToW(r[2]) ELSE r[2]) = v[2]
        [] K(v) \in {2,3} -> (IF T = "int" THEN IntToW(r[2]) ELSE r[2]) = IntToW(v[2])
(* element i as a complex number, whatever the element type *)
Num(v,i) == CNumberAt(v,<<i>>)[1]
LP03 == LET op == last'[1]  v == last'[2]  a == last'[3]  r == last'[5]  p == last'[6]
            n0 == NumElems(v)  n1 == NumElems(p) IN
   /\ op = "atn" /\ Ok1(r) /\ K(v) \in 9..13 =>
        /\ n1 = (IF a[2] < n0 THEN n0 ELSE a[2]+1)
        /\ \A i \in 0..n0-1 : i # a[2] => Num(p,i) = Num(v,i) \/ K(p) = TVEC
        /\ \A i \in n0..n1-1 : i # a[2] => K(p) = TVEC \/ Num(p,i) = Ok(<<ZeroW,ZeroW>>)
   /\ op \in {"atc","at2c"} /\ Ok1(r) =>
        CNumberAt(v,<< IF op = "atc" THEN a[2] ELSE a[2]+a[3]*v[2] >>)[1] = (IF a[1] = 7 THEN Er ELSE Ok(ToCplx(a[1],r[2])))
   /\ op = "at2n" /\ Ok1(r) /\ K(v) \in 15..18 =>
        /\ p[2] = v[2] /\ p[3] = v[3]
        /\ \A i \in 0..n0-1 : i # a[2]+a[3]*v[2] => Num(p,i) = Num(v,i)
   /\ op = "ptr_at" => /\ (Len(a) < 3 => p = v)
                       /\ (r # Er => Len(p[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : i # a[1]+1 => p[2][i] = v[2][i])
   /\ op = "idx" /\ Ok1(r) /\ K(v) = TVEC => \A i \in 1..n0 : i # a[2]+1 => p[2][i] = v[2][i]
(* the map is the function it should be *)
Look(m,k) == IF K(m) = TMAP /\ HasKey(m[2],k) THEN <<1,GetKey(m[2],k)>> ELSE <<0>>
LP04 == LET op == last'[1]  v == last'[2]  a == last'[3]  r == last'[5]  p == last'[6] IN
   /\ op = "key" /\ a[1] = "br" => /\ Look(p,a[2])[1] = 1
                                   /\ (Len(a) = 3 => Look(p,a[2]) = <<1,a[3]>>)
                                   /\ \A k \in GKeys \ {a[2]} : Look(p,k) = Look(v,k)
   /\ op = "erase" => Look(p,a[1]) = <<0>> /\ \A k \in GKeys \ {a[1]} : Look(p,k) = Look(v,k)
   /\ op = "get_keys" => /\ ToSet(r[2]) = { k \in GKeys : Look(p,k)[1] = 1 }
                         /\ \A i \in 1..Len(r[2])-1 : LessB(r[2][i],r[2][i+1])
   /\ op = "exists" => r[2] = Look(v,a[1])[1]
   /\ op \in {"key","keys"} /\ r = Er => \A k \in GKeys : Look(p,k) = Look(v,k)
LP05 == last'[1] \in {"from_gc","to_gc","load","asg","copyctor","asgc"} =>
          AtPath(R'[last'[7][1]],last'[7][2]) = last'[4]
RECURSIVE Entries(_,_)
(* every key path of a value that leads to something that is not a map *)
Entries(v,p) == IF K(v) # TMAP THEN {<<p,v>>}
                ELSE UNION { Entries(v[2][i][2],Append(p,v[2][i][1])) : i \in 1..Len(v[2]) }
LP06 == LET v == last'[2]  o == last'[4]  p == last'[6]  r == last'[5] IN
   last'[1] = "merge" =>
     /\ Ok1(r) <=> K(o) = 0 \/ (K(o) = TMAP /\ K(v) \in {0,TMAP})
     /\ Ok1(r) /\ K(o) = TMAP =>
          /\ Entries(o,<<>>) \subseteq Entries(p,<<>>)
          /\ \A e \in Entries(v,<<>>) : e \in Entries(p,<<>>) \/ K(v) = 0 \/
               \E n \in 1..Len(e[1]) : HasPath(o,KeyPath(SubSeq(e[1],1,n)))
          /\ \A e \in Entries(p,<<>>) : e \in Entries(v,<<>>) \cup Entries(o,<<>>)
          /\ Merge(p,o)[2] = p
LP07 == LET v == last'[2]  o == last'[4] IN
   last'[1] = "compare" => /\ last'[5] = Compare(o,v)[1]
                           /\ last'[5] = Ok(1) => K(v) = K(o)
                           /\ v = o => last'[5] = Ok(1)
                           /\ last'[5] = Ok(1) => ToString(v) = ToString(o)
LP08 == LET v == last'[2]  k == last'[3][1]  p == last'[6] IN
   last'[1] = "promote" /\ Ok1(last'[5]) =>
     /\ Promote(p,<<k>>) = << OkU, p >>
     /\ K(v) \in (9..13) \cup (15..18) /\ k # 19 => NumElems(p) = NumElems(v) /\ \A i \in 0..NumElems(v)-1 : Num(p,i) = Num(v,i)
     /\ K(v) \in 2..6 /\ k \in 3..6 => CNumber(p) = CNumber(v)
     /\ K(v) \in 2..6 /\ k \in 10..18 => NumElems(p) = 1 /\ Num(p,0) = CNumber(v)
     /\ K(v) \in 9..13 /\ k = 19 => \A i \in 0..NumElems(v)-1 : Num(p,i) = Num(v,i)
     /\ \A k2 \in PKinds : k \in 10..13 /\ k2 \in k..13 => Promote(p,<<k2>>) = Promote(v,<<k2>>)
LP09 == LET v == last'[2]  a == last'[3]  p == last'[6]  n == NumElems(v) IN
   last'[1] = "push" /\ Ok1(last'[5]) =>
     /\ NumElems(p) = n+1
     /\ \A i \in 0..n-1 : K(v) \in 9..13 => Num(p,i) = Num(v,i)
     /\ K(v) \in 2..6 /\ K(p) # TVEC => Num(p,0) = CNumber(v)
     /\ a[1] \in 2..6 => Num(p,n) = Ok(ToCplx(a[1],a[2]))
     /\ a[1] = 7 => p[2][n+1] \in {a[2],<<7,a[2]>>}
     /\ K(v) \in {14,19} => \A i \in 1..n : p[2][i] = v[2][i] \/ p[2][i] = <<7,v[2][i]>>
LP10 == LET v == last'[2]  T == last'[3][1]  r == last'[5] IN
   last'[1] = "copyto_vec" /\ Ok1(r) /\ T # "string" =>
     /\ Len(r[2]) = NumElems(v)
     /\ T = "complex" /\ K(v) >= 9 => \A i \in 1..Len(r[2]) : Num(v,i-1) = Ok(r[2][i])
     /\ T = "real" /\ K(v) \in 9..13 => \A i \in 1..Len(r[2]) : Num(v,i-1)[2][1] = r[2][i]
     /\ T \in {"int","uint","long","ulong"} /\ K(v) \in 9..12 =>
          \A i \in 1..Len(r[2]) : EqR(BackReal(T,r[2][i]),Num(v,i-1)[2][1])
RECURSIVE Leaves(_)
(* the numbers of a value in order, as complex numbers, other leaves as are *)
Leaves(v) == CASE K(v) = TVEC -> FlattenSeq([ i \in 1..Len(v[2]) |-> Leaves(v[2][i]) ])
               [] K(v) = TMAP -> FlattenSeq([ i \in 1..Len(v[2]) |-> <<<<"key",v[2][i][1]>>>> \o Leaves(v[2][i][2]) ])
               [] K(v) = 0 -> <<<<"no">>>>
               [] IsNumK(ElemK(K(v))) -> [ i \in 1..NumElems(v) |-> <<"num",ToCplx(ElemK(K(v)),Elems(v)[i])>> ]
               [] OTHER -> [ i \in 1..NumElems(v) |-> <<"other",Elems(v)[i]>> ]
LP11 == last'[1] = "collapse" => /\ Leaves(last'[6]) = Leaves(last'[2])
                                 /\ Collapse(last'[6]) = last'[6]
LP12 == LET v == last'[2] IN
   last'[1] = "ser" => LET s == last'[5][4] IN Len(s) = last'[5][2] /\ De(s,1) = <<v,Len(s)+1>>
LP13 == LET b == last'[3][1]  s == Ser(R[0]) IN
   last'[1] = "deser" => /\ Ok1(last'[5]) => last'[5][2] <= Len(b)
                         /\ Len(b) < Len(s) => last'[5] = Er
                         /\ b = s => last'[5] = Ok(Len(s)) /\ last'[6] = R[0]
StepLaw == /\ LFrame /\ LRefused /\ LRead
           /\ LP01 /\ LP02 /\ LP03 /\ LP04 /\ LP05 /\ LP06 /\ LP07 /\ LP08 /\ LP09 /\ LP10 /\ LP11 /\ LP12 /\ LP13
Laws == [][StepLaw]_vars
=============================================================================
