---------------------------- MODULE GCYamlModel ----------------------------
(* Small-scope model of the YAML reader and writer.  A state is either a    *)
(* value of the corpus, which is written, laid out in block and flow style  *)
(* and read back, or a text typed token by token, which is read.            *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES mode, txt, n
vars == <<mode,txt,n>>
View == vars

Tokens == { <<45,32>>, <<97,58,32>>, <<98,58>>, <<10>>, <<32,32>>, <<34>>, <<34,99,34>>, <<91>>, <<93>>, <<123>>, <<125>>, <<44,32>>, <<49>>, <<45,53>>, <<46,53>>,
            <<120>>, <<110,117,108,108>>, <<84,114,117,101>>, <<35>> }
Cls(t) == YParse(t)[1]

RealTab == << <<R15,B("1.5")>>, <<R1,B("1")>>, <<Rm0,B("-0")>>, <<ZeroW,B("0")>>, <<R31,B("2147483648")>>, <<Rm1,B("-1")>> >>
BackTab == << <<B("1.5"),R15>>, <<B("1"),R1>>, <<B("-0"),Rm0>>, <<B("0"),ZeroW>>, <<B("2147483648"),R31>>, <<B("-1"),Rm1>> >>
PayDoc(k,x) == CASE k = 1 -> <<"plain",HexText(PtrW(x))>> [] k = 2 -> <<"bool",x>> [] k = 3 -> <<"num",DecInt(x)>> [] k = 4 -> <<"num",DecW(x)>>
                 [] k = 5 -> IF HasEntry(RealTab,x) THEN <<"num",Lookup(RealTab,x)>> ELSE <<"plain",B(".inf")>>
                 [] k = 6 -> <<"plain",CplxText(x,RealTab)>> [] k = 7 -> <<"str",x>>
RECURSIVE DocOf(_)
DocOf(v) == CASE K(v) = 0 -> <<"null">> [] K(v) \in 1..7 -> PayDoc(K(v),v[2])
              [] IsVecK(K(v)) -> <<"arr",[ i \in 1..Len(v[2]) |-> PayDoc(K(v)-7,v[2][i]) ]>>
              [] IsMatK(K(v)) -> <<"arr",[ j \in 1..v[3] |-> <<"arr",[ i \in 1..v[2] |-> PayDoc(K(v)-12,v[4][(j-1)*v[2]+i]) ]>> ]>>
              [] K(v) = TVEC -> <<"arr",[ i \in 1..Len(v[2]) |-> DocOf(v[2][i]) ]>>
              [] K(v) = TMAP -> <<"obj",[ i \in 1..Len(v[2]) |-> <<<<"str",v[2][i][1]>>,DocOf(v[2][i][2])>> ]>>
RECURSIVE Flow(_,_)
Flow(d,sp) ==
  CASE d[1] = "plain" -> d[2]
    [] d[1] = "arr" -> <<91>> \o sp \o Join([ i \in 1..Len(d[2]) |-> Flow(d[2][i],sp) ],sp \o <<44,32>>) \o sp \o <<93>>
    [] d[1] = "obj" -> <<123>> \o sp \o Join([ i \in 1..Len(d[2]) |-> QuoteJ(d[2][i][1][2]) \o <<58,32>> \o Flow(d[2][i][2],sp) ],<<44,32>> \o sp) \o sp \o <<125>>
    [] OTHER -> RenderDoc(d,<<>>)
Pad(k) == [ i \in 1..k |-> 32 ]
(* block layout: collections at nesting below lv go on their own lines *)
RECURSIVE Lay(_,_,_,_)
Inl(d,lv) == d[1] \notin {"arr","obj"} \/ d[2] = <<>> \/ lv = 0
Lay(d,ind,st,lv) ==
  IF Inl(d,lv) THEN Pad(ind) \o Flow(d,<<>>) \o <<10>>
  ELSE IF d[1] = "arr"
  THEN FlatB([ i \in 1..Len(d[2]) |-> Pad(ind) \o <<45>> \o
                 (IF Inl(d[2][i],lv-1) THEN <<32>> \o Flow(d[2][i],<<>>) \o <<10>> ELSE <<10>> \o Lay(d[2][i],ind+st,st,lv-1)) ],1)
  ELSE FlatB([ i \in 1..Len(d[2]) |-> Pad(ind) \o QuoteJ(d[2][i][1][2]) \o <<58>> \o
                 (IF Inl(d[2][i][2],lv-1) THEN <<32>> \o Flow(d[2][i][2],<<>>) \o <<10>> ELSE <<10>> \o Lay(d[2][i][2],ind+st,st,lv-1)) ],1)
Layouts(d) == { Flow(d,<<>>), Flow(d,<<32>>) } \cup { Lay(d,0,st,lv) : st \in {1,2,3}, lv \in {1,2,3} }
Vals == {NoVal} \cup Scal2 \cup Vecs \cup Mats \cup Lists \cup MapsM

S(x) == PrintT("S " \o ToJson(x))
TS(s) == <<s>>
Init == n = 0 /\ \/ mode = "v" /\ txt \in { <<v>> : v \in Vals }
                 \/ mode = "t" /\ txt = <<>>
ReadS(t) == S(<< <<"init",TS(0),<< <<14,<<<<97>>,<<98>>>>>> >>>>, <<"from_yaml",TS(0),<<t,0>>>> >>)
Type == /\ mode = "t" /\ n < Depth
        /\ \E k \in Tokens : txt' = txt \o k
        /\ n' = n+1 /\ mode' = mode
        /\ IF Cls(txt') = "un" THEN TRUE ELSE ReadS(txt')
Write == /\ mode = "v" /\ n = 0
         /\ n' = 1 /\ txt' = txt /\ mode' = mode
         /\ \A how \in {0,1,2,3}, pre \in {<<>>,<<32,32>>} :
              S(<< <<"init",TS(0),<<txt[1]>>>>, <<"to_yaml",TS(0),<<how,pre>>>> >>)
         /\ \A t \in Layouts(DocOf(txt[1])) : ReadS(t)
Next == Type \/ Write
Spec == Init /\ [][Next]_vars

TypeOK == n \in 0..Depth
RECURSIVE Norm(_)
Norm(d0) == LET d == Resolve(d0) IN
  CASE d[1] = "arr" -> <<"arr",[ i \in 1..Len(d[2]) |-> Norm(d[2][i]) ]>>
    [] d[1] = "obj" -> <<"obj",[ i \in 1..Len(d[2]) |-> <<Resolve(d[2][i][1]), Norm(d[2][i][2])>> ]>>
    [] OTHER -> d
(* every layout of a document is read as that document, and denotes the     *)
(* value; no other value of the same kind is denoted by it                  *)
LV == LET v == txt[1]  d == DocOf(v) IN
      /\ TextOk(v) => \A t \in Layouts(d) :
           LET p == YParse(t) IN p[1] = "ok" /\ Norm(p[3]) = Norm(d) /\ YDenotes(p[3],v,BackTab,RealTab)
      /\ TextOk(v) => \A w \in Vals : K(v) \in {2,3,4,7,9,10,11,14,15,16} /\ K(w) = K(v) /\ YDenotes(YParse(Lay(d,0,2,2))[3],w,BackTab,RealTab)
             => w = v \/ (IsMatK(K(v)) /\ v[3] = 0 /\ w[3] = 0)
(* a text that is complete stays so, with the same meaning, when a comment  *)
(* line or a blank line is added; a text that breaks off inside a quoted    *)
(* scalar or a collection has no completion by adding lines                 *)
LT == LET p == YParse(txt') IN
      /\ p[1] = "ok" => \A e \in {<<10>>,<<10,35,120>>,<<10,32,32,10>>} : YParse(txt' \o e)[3] = p[3]
      /\ p[1] = "ok" => \A b \in {<<10>>,<<35,97,58,10>>} : YParse(b \o txt')[3] = p[3]
Laws == [][IF mode = "t" THEN LT ELSE LV]_vars
=============================================================================
