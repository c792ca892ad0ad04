------------------------------- MODULE GCLua --------------------------------
(* The embedded Lua interpreter.  Its state is the set of global variables: *)
(* a sequence of <<name,value>>, where a Lua value is                       *)
(*   <<"nil">> <<"bool",b>> <<"int",w>> <<"flt",w>> <<"str",bytes>>         *)
(*   <<"list",values>> <<"map",<<<<key,value>>,...>>>> or <<"un">> (not     *)
(*   tracked)                                                               *)
EXTENDS GCOps

Nil == <<"nil">>
Glob(G,n) == IF HasKey(G,n) THEN GetKey(G,n) ELSE Nil
SetGlob(G,n,x) == PutKey(G,n,x)

(* export: what a content becomes in Lua *)
PayL(k,x) == CASE k = 2 -> <<"bool",x>> [] k = 3 -> <<"flt",ToRealW(3,x)>> [] k = 4 -> <<"int",x>>
               [] k = 5 -> <<"flt",x>> [] k = 7 -> <<"str",x>>
RECURSIVE ToLua(_)
ToLua(v) ==
  CASE K(v) \in {2,3,4,5,7} -> PayL(K(v),v[2])
    [] K(v) \in {9,10,11,12,14} -> <<"list",[ i \in 1..Len(v[2]) |-> PayL(K(v)-7,v[2][i]) ]>>
    [] K(v) = TVEC -> <<"list",[ i \in 1..Len(v[2]) |-> ToLua(v[2][i]) ]>>
    [] K(v) = TMAP -> <<"map",SelectSeq([ i \in 1..Len(v[2]) |-> <<v[2][i][1],ToLua(v[2][i][2])>> ],LAMBDA e : e[2] # Nil)>>
    [] OTHER -> Nil

(* import.  Integral numbers come back as 64-bit integers. *)
IsLNum(l) == l[1] \in {"int","flt"}
SubNorm(w) == w[1] % 32768 < 16 /\ ~(w[1] % 32768 = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0)
Integral(l) == l[1] = "int" \/ (~SubNorm(l[2]) /\ LET iv == IntView(5,l[2]) IN iv # NoInt /\ FitsL(iv))
LongL(l) == IF l[1] = "int" THEN l[2] ELSE SignedW(IntView(5,l[2]))
RealL(l) == IF l[1] = "int" THEN ToRealW(4,l[2]) ELSE l[2]
ZeroRW(w) == w[1] % 32768 = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0
(* the same number as a real; an integral zero has no sign *)
SameReal(l,w) == w = RealL(l) \/ (ZeroRW(w) /\ ZeroRW(RealL(l)))
EmptyL(l) == l[1] \in {"list","map"} /\ l[2] = <<>>
(* p is an import of l *)
RECURSIVE LuaIn(_,_)
LuaIn(l,p) ==
  CASE l[1] = "un" -> WellFormed(p)
    [] l[1] = "nil" -> p = NoVal
    [] l[1] = "bool" -> p = <<TBOOL,l[2]>>
    [] IsLNum(l) -> p = IF Integral(l) THEN <<TLONG,LongL(l)>> ELSE <<TREAL,l[2]>>
    [] l[1] = "str" -> p = <<TSTR,l[2]>>
    [] EmptyL(l) -> p = NoVal
    [] l[1] = "map" -> /\ K(p) = TMAP /\ Len(p[2]) = Len(l[2])
                       /\ \A i \in 1..Len(l[2]) : HasKey(p[2],l[2][i][1]) /\ LuaIn(l[2][i][2],GetKey(p[2],l[2][i][1]))
    [] l[1] = "list" ->
       LET s == l[2]  n == Len(s)
           frac == \E i \in 1..n : IsLNum(s[i]) /\ ~Integral(s[i])
       IN CASE \E i \in 1..n : s[i][1] \in {"nil","un"} -> WellFormed(p)     \* lists with holes are no lists
            [] \A i \in 1..n : s[i][1] = "bool" -> p = <<VBOOL,[ i \in 1..n |-> s[i][2] ]>>
            [] \A i \in 1..n : s[i][1] = "str" -> p = <<VSTR,[ i \in 1..n |-> s[i][2] ]>>
            [] \A i \in 1..n : IsLNum(s[i]) -> IF frac THEN K(p) = VREAL /\ Len(p[2]) = n /\ \A i \in 1..n : SameReal(s[i],p[2][i])
                                                       ELSE p = <<VLONG,[ i \in 1..n |-> LongL(s[i]) ]>>
            [] OTHER -> /\ K(p) = TVEC /\ Len(p[2]) = n
                        /\ \A i \in 1..n : \/ LuaIn(s[i],p[2][i])
                                           \/ frac /\ IsLNum(s[i]) /\ K(p[2][i]) = TREAL /\ SameReal(s[i],p[2][i][2])

(* functions the interpreter knows: result of f(x), <<"fail">> if it raises *)
CallL(f,x) == CASE f = "id" -> x [] f = "two" -> x [] f = "none" -> Nil
                [] f = "wrap" -> (IF x = Nil THEN <<"list",<<>>>> ELSE <<"list",<<x>>>>)
                [] f = "mapk" -> (IF x = Nil THEN <<"map",<<>>>> ELSE <<"map",<<<<<<107>>,x>>>>>>)
                [] f = "pair" -> (IF x = Nil THEN <<"un">> ELSE <<"list",<<<<"int",ZeroW>>,x>>>>)
                [] OTHER -> <<"fail">>
(* commands: <<"fail">> or the value assigned to a[2] *)
LuaCmd(G,a) ==
  LET b == Glob(G,a[3]) IN
  CASE a[1] = "copy" -> b
    [] a[1] = "del" -> Nil
    [] a[1] \in {"id","wrap","mapk","pair"} -> CallL(a[1],b)
    [] a[1] = "len" -> (CASE b[1] = "un" -> <<"unf">>
                          [] b[1] = "str" -> <<"int",IntToW(Len(b[2]))>>
                          [] b[1] = "map" -> <<"int",ZeroW>>
                          [] b[1] = "list" -> (IF \E i \in 1..Len(b[2]) : b[2][i] = Nil THEN <<"un">> ELSE <<"int",IntToW(Len(b[2]))>>)
                          [] OTHER -> <<"fail">>)
    [] a[1] = "field" -> (CASE b[1] \in {"un","str"} -> <<"unf">>
                            [] b[1] = "map" -> Glob(b[2],a[4])
                            [] b[1] = "list" -> Nil
                            [] OTHER -> <<"fail">>)
    [] a[1] = "elem" -> (CASE b[1] \in {"un","str"} -> <<"unf">>
                           [] b[1] = "list" -> (IF a[4] \in 1..Len(b[2]) THEN b[2][a[4]] ELSE Nil)
                           [] b[1] = "map" -> Nil
                           [] OTHER -> <<"fail">>)
    [] a[1] = "file" -> <<"int",IntToW(a[4])>>
    [] OTHER -> <<"fail">>       \* error, syntax error, missing file
(* a step: <<reply, new globals, import>>; import is the Lua value that the  *)
(* target must now hold, or <<"keep">>                                       *)
LuaStep(op,v,a,o,G) ==
  CASE op = "lua_set" -> << OkU, SetGlob(G,a[1],ToLua(v)), <<"keep">> >>
    [] op = "lua_get" -> LET l == Glob(G,a[1]) IN
                         IF l = Nil THEN << Er, G, <<"keep">> >>
                         ELSE IF l = <<"un">> THEN << <<"any">>, G, l >>
                         ELSE << OkU, G, l >>
    [] op = "lua_cmd" -> LET r == LuaCmd(G,a) IN
                         CASE r = <<"fail">> -> << Er, G, <<"keep">> >>
                           [] r = <<"unf">> -> << <<"any">>, SetGlob(G,a[2],<<"un">>), <<"keep">> >>
                           [] OTHER -> << OkU, SetGlob(G,a[2],r), <<"keep">> >>
    [] op = "lua_call" -> LET r == CallL(a[1],ToLua(o)) IN
                          IF r = <<"fail">> THEN << Er, G, <<"keep">> >> ELSE << OkU, G, r >>
    [] op = "lua_callx" -> LET bad == \/ K(o) # TMAP \/ ~HasKey(o[2],<<102,117,110,99,116,105,111,110>>) \/ ~HasKey(o[2],<<97,114,103,115>>)
                           IN IF bad THEN << Er, G, <<"keep">> >> ELSE << <<"any">>, G, <<"un">> >>
    [] op = "lua_leak" -> << Ok(1), G, <<"keep">> >>
=============================================================================
