---------------------------- MODULE GCJsonModel ----------------------------
(* Small-scope models of the JSON reader and writer.                        *)
(* Fam = "P15": a text is typed token by token; as long as it is the        *)
(*   beginning of some document every token is tried next.  Every text is   *)
(*   handed to both readers.                                                *)
(* Fam = "P14": every value of the corpus is written and read back.         *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES txt, n
vars == <<txt,n>>
View == vars

Tokens == { <<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34,97,34>>, <<34>>, <<92>>, <<49>>, <<48>>, <<45>>, <<46>>, <<101>>,
            <<116,114,117,101>>, <<110,117,108>>, <<108>>, <<32>>, <<34,34>> }
(* the numbers the tokens can spell, with at most Depth tokens, whose value *)
(* is not an integer below 2^64 do not matter for the laws *)
NoTab == <<>>

(* the text ends before it goes wrong *)
Viable(t) == LET p == ParseDoc(1,t) IN p[1] = "ok" \/ (p[1] = "bad" /\ p[2] > Len(t)) \/ p[1] = "un"
Complete(t) == ParseDoc(1,t)[1] = "ok"

RealTab == << <<R15,B("1.5")>>, <<R1,B("1")>>, <<Rm0,B("-0")>>, <<ZeroW,B("0")>>, <<R31,B("2147483648")>>, <<Rm1,B("-1")>> >>
BackTab == << <<B("1.5"),R15>>, <<B("1"),R1>>, <<B("-0"),Rm0>>, <<B("0"),ZeroW>>, <<B("2147483648"),R31>>, <<B("-1"),Rm1>> >>
PayDoc(k,x) == CASE k = 1 -> <<"num",DecUW(PtrW(x))>> [] k = 2 -> <<"bool",x>> [] k = 3 -> <<"num",DecInt(x)>> [] k = 4 -> <<"num",DecW(x)>>
                 [] k = 5 -> IF HasEntry(RealTab,x) THEN <<"num",Lookup(RealTab,x)>> ELSE <<"null">>
                 [] k = 6 -> <<"str",CplxText(x,RealTab)>> [] k = 7 -> <<"str",x>>
RECURSIVE DocOf(_)
DocOf(v) == CASE K(v) = 0 -> <<"null">> [] K(v) \in 1..7 -> PayDoc(K(v),v[2])
              [] IsVecK(K(v)) -> <<"arr",[ i \in 1..Len(v[2]) |-> PayDoc(K(v)-7,v[2][i]) ]>>
              [] IsMatK(K(v)) -> <<"arr",[ j \in 1..v[3] |-> <<"arr",[ i \in 1..v[2] |-> PayDoc(K(v)-12,v[4][(j-1)*v[2]+i]) ]>> ]>>
              [] K(v) = TVEC -> <<"arr",[ i \in 1..Len(v[2]) |-> DocOf(v[2][i]) ]>>
              [] K(v) = TMAP -> <<"obj",[ i \in 1..Len(v[2]) |-> <<v[2][i][1],DocOf(v[2][i][2])>> ]>>
Vals == {NoVal} \cup Scal2 \cup Vecs \cup Mats \cup Lists \cup MapsM
Plain(v) == K(v) \in {0,2,3,4,7,9,10,11,14} \/ (K(v) = TVEC /\ \A i \in 1..Len(v[2]) : K(v[2][i]) \in {0,2,3,4,7})

S(x) == PrintT("S " \o ToJson(x))
TS(s) == <<s>>
Init == /\ n = 0
        /\ IF Fam = "P15" THEN txt = <<>> ELSE txt \in { <<v>> : v \in Vals }
Type == /\ Fam = "P15" /\ n < Depth /\ Viable(txt)
        /\ \E k \in Tokens : txt' = txt \o k
        /\ n' = n+1
        /\ S(<< <<"init",TS(0),<< <<14,<<<<97>>,<<98>>>>>> >>>>, <<"from_json",TS(0),<<txt',0>>>>, <<"init",TS(1),<<<<20,<<<<<<98>>,<<3,1>>>>>>>>>>>>, <<"from_json2",TS(1),<<txt'>>>> >>)
Write == /\ Fam = "P14" /\ n = 0
         /\ n' = 1 /\ txt' = txt
         /\ \A how \in {0,1,2,3}, pre \in {<<>>,<<32,9>>} :
              S(<< <<"init",TS(0),<<txt[1]>>>>, <<"to_json",TS(0),<<how,pre>>>> >>)
         /\ \A ws \in {<<>>,<<32>>,<<13,10,9>>} :
              S(<< <<"from_json",TS(0),<<RenderDoc(DocOf(txt[1]),ws),0>>>>, <<"from_json2",TS(1),<<RenderDoc(DocOf(txt[1]),ws)>>>> >>)
Next == Type \/ Write
Spec == Init /\ [][Next]_vars

TypeOK == n \in 0..Depth
(* laws *)
Closed(d) == d[1] \in {"arr","obj","str"}
(* a document that closes itself has no proper prefix that is a document,   *)
(* and what the second reader must read is what the first must read         *)
L15 == /\ Complete(txt') /\ Closed(ParseDoc(1,txt')[3]) =>
            \A k \in 0..Len(txt')-1 : Complete(SubSeq(txt',1,k)) => SkipWs(1,txt',k+1) > Len(txt')
       /\ LET p == ParseDoc(1,txt')  q == ParseDoc(2,txt') IN
            /\ q[1] = "ok" => p[1] = "ok" /\ p[3] = q[3]
            /\ p[1] = "ok" => q = p
       /\ Complete(txt') => LET d == ParseDoc(1,txt')[3] IN
            \A ws \in {<<>>,<<32,10>>} : ParseDoc(1,RenderDoc(d,ws))[3] = d
(* any writer that renders the document that belongs to a value satisfies   *)
(* Denotes; integers, text and their lists survive the round trip           *)
L14 == LET v == txt[1]  d == DocOf(v) IN
       /\ \A ws \in {<<>>,<<32>>,<<13,10,9>>} :
            LET p == ParseDoc(1,RenderDoc(d,ws)) IN p[1] = "ok" /\ p[3] = d
       /\ Denotes(d,v,BackTab,RealTab)
       /\ Plain(v) => LET c == Collapse(Image(d,BackTab)) IN K(v) = K(c) => c = v \/ (K(v) = TVEC)
       /\ \A w \in Vals : K(v) \in {2,3,4,7,9,10,11,14,15,16} /\ K(w) = K(v) /\ Denotes(d,w,BackTab,RealTab) => w = v \/ (IsMatK(K(v)) /\ v[3] = 0 /\ w[3] = 0)
Laws == [][IF Fam = "P15" THEN L15 ELSE L14]_vars
=============================================================================
