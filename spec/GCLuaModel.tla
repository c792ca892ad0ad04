---------------------------- MODULE GCLuaModel -----------------------------
(* Small-scope model of the Lua interpreter: container 0 holds a value of   *)
(* the corpus, 1 another one, 2 receives results; up to Depth calls, each   *)
(* transition written as a script for the real interpreter.                 *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES v0, G, P, h, n
vars == <<v0,G,P,h,n>>
View == <<v0,G,P,n>>

Other == <<TMAP,<<<<Ka,<<TVEC,<<<<3,1>>,<<5,R15>>>>>>>>,<<Kb,<<7,<<97,0>>>>>>>>>>
Vals == {NoVal} \cup ScalAll \cup Vecs \cup Mats \cup Lists \cup MapsM
        \cup { <<TVEC,<<x,y>>>> : x \in Scal2, y \in Scal2 } \cup { <<TMAP,<<<<Ka,x>>,<<Kb,<<TVEC,<<x>>>>>>>>>> : x \in Scal2 \cup Vecs }
(* the import the library is expected to produce *)
RECURSIVE LuaOut(_)
LuaOut(l) ==
  CASE l[1] \in {"nil","un"} \/ EmptyL(l) -> NoVal
    [] l[1] = "bool" -> <<TBOOL,l[2]>>
    [] IsLNum(l) -> (IF Integral(l) THEN <<TLONG,LongL(l)>> ELSE <<TREAL,l[2]>>)
    [] l[1] = "str" -> <<TSTR,l[2]>>
    [] l[1] = "map" -> <<TMAP,[ i \in 1..Len(l[2]) |-> <<l[2][i][1],LuaOut(l[2][i][2])>> ]>>
    [] l[1] = "list" ->
       LET s == l[2]  m == Len(s) IN
       CASE \A i \in 1..m : s[i][1] = "bool" -> <<VBOOL,[ i \in 1..m |-> s[i][2] ]>>
         [] \A i \in 1..m : s[i][1] = "str" -> <<VSTR,[ i \in 1..m |-> s[i][2] ]>>
         [] \A i \in 1..m : IsLNum(s[i]) -> (IF \A i \in 1..m : Integral(s[i]) THEN <<VLONG,[ i \in 1..m |-> LongL(s[i]) ]>>
                                             ELSE <<VREAL,[ i \in 1..m |-> RealL(s[i]) ]>>)
         [] OTHER -> <<TVEC,[ i \in 1..m |-> LuaOut(s[i]) ]>>
Nx == <<120>>  Ny == <<121>>
Calls == { <<"lua_set",<<0>>,<<Nx>>>>, <<"lua_set",<<1>>,<<Ny>>>>, <<"lua_set",<<2>>,<<Ny>>>> }
   \cup { <<"lua_get",<<2>>,<<g>>>> : g \in {Nx,Ny} }
   \cup { <<"lua_call",<<2>>,<<f>>,<<s>>>> : f \in {"id","two","none","wrap","mapk","pair","fail","undefined"}, s \in {0,2} }
   \cup { <<"lua_callx",<<2>>,<<>>,<<0>>>> }
   \cup { <<"lua_cmd",<<0>>,<<w,Ny,Nx,k>>>> : w \in {"copy","wrap","mapk","pair","len"}, k \in {0} }
   \cup { <<"lua_cmd",<<0>>,<<"del",Nx,Nx,0>>>>, <<"lua_cmd",<<0>>,<<"error",Nx,Nx,0>>>>, <<"lua_cmd",<<0>>,<<"syntax",Nx,Nx,0>>>>,
          <<"lua_cmd",<<0>>,<<"elem",Ny,Nx,1>>>>, <<"lua_cmd",<<0>>,<<"elem",Ny,Nx,2>>>>, <<"lua_cmd",<<0>>,<<"field",Ny,Nx,Ka>>>>,
          <<"lua_cmd",<<0>>,<<"file",Nx,Nx,7>>>>, <<"lua_cmd",<<0>>,<<"nofile",Nx,Nx,0>>>> }
Slot(s) == CASE s = 0 -> v0 [] s = 1 -> Other [] s = 2 -> P
Init == v0 \in Vals /\ G = <<>> /\ P = NoVal /\ n = 0
        /\ h = << <<"init",<<0>>,<<v0>>>>, <<"init",<<1>>,<<Other>>>> >>
Next == /\ n < Depth
        /\ \E x \in Calls :
             LET o == IF Len(x) = 4 THEN Slot(x[4][1]) ELSE NoVal
                 r == TLCEval(LuaStep(x[1],Slot(x[2][1]),x[3],o,G))
             IN /\ G' = r[2]
                /\ P' = (IF r[3] = <<"keep">> THEN P ELSE LuaOut(r[3]))
                /\ h' = Append(h,x)
                /\ PrintT("S " \o ToJson(h'))
        /\ n' = n+1 /\ v0' = v0
Spec == Init /\ [][Next]_vars
TypeOK == WellFormed(P) /\ \A i,j \in 1..Len(G) : i < j => G[i][1] # G[j][1]

(* does a content survive the trip through Lua *)
RECURSIVE Expressible(_)
Expressible(v) ==
  CASE K(v) \in {2,3,4,5,7} -> TRUE
    [] K(v) \in {9,10,11,12,14} -> v[2] # <<>>
    [] K(v) = TVEC -> v[2] # <<>> /\ \A i \in 1..Len(v[2]) : Expressible(v[2][i])
    [] K(v) = TMAP -> v[2] # <<>> /\ \A i \in 1..Len(v[2]) : Expressible(v[2][i][2])
    [] OTHER -> FALSE
(* the same Lua value, numbers compared as numbers *)
RECURSIVE SameL(_,_)
SameL(x,y) ==
  CASE IsLNum(x) /\ IsLNum(y) -> (IF Integral(x) THEN Integral(y) /\ LongL(x) = LongL(y) ELSE ~Integral(y) /\ x[2] = y[2])
    [] x[1] = "list" /\ y[1] = "list" -> Len(x[2]) = Len(y[2]) /\ \A i \in 1..Len(x[2]) : SameL(x[2][i],y[2][i])
    [] x[1] = "map" /\ y[1] = "map" -> Len(x[2]) = Len(y[2]) /\ \A i \in 1..Len(x[2]) : x[2][i][1] = y[2][i][1] /\ SameL(x[2][i][2],y[2][i][2])
    [] OTHER -> x = y
(* an import is an import of what it came from; a content Lua can express   *)
(* returns as the same Lua value and a second trip changes nothing; a       *)
(* failing call changes neither the interpreter nor the result              *)
LTrip == LET l == ToLua(v0)  p == LuaOut(l) IN
  /\ LuaIn(l,p)
  /\ Expressible(v0) => SameL(ToLua(p),l) /\ LuaOut(ToLua(p)) = p
  /\ \A i \in 1..Len(G') : LuaIn(G'[i][2],LuaOut(G'[i][2]))
LFail == LET x == h'[Len(h')]
             o == IF Len(x) = 4 THEN Slot(x[4][1]) ELSE NoVal
         IN LuaStep(x[1],Slot(x[2][1]),x[3],o,G)[1] = Er => G' = G /\ P' = P
(* exporting then importing under the same name gives the same as calling   *)
(* the identity                                                             *)
LId == LuaStep("lua_get",NoVal,<<Nx>>,NoVal,LuaStep("lua_set",v0,<<Nx>>,NoVal,G)[2])[3]
         \in {LuaStep("lua_call",NoVal,<<"id">>,v0,G)[3],<<"keep">>}
Laws == [][LTrip /\ LFail /\ LId]_vars
=============================================================================
