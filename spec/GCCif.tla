------------------------------- MODULE GCCif --------------------------------
(* The C interface: named containers, one of them selected, each with a     *)
(* cursor (head) that descends and climbs and an iteration over map keys.   *)
(*   act  selected container or -1                                          *)
(*   hd   per container <<"none">> (does not exist), <<"empty">> (popped    *)
(*        past the root) or <<"head",path>>                                 *)
(*   it   per container <<>>, <<path,keys,consumed>> or <<"open">>          *)
EXTENDS GCOps
Slots == 0..3
CX0 == [ act |-> -1, hd |-> [ s \in Slots |-> <<"none">> ], it |-> [ s \in Slots |-> <<>> ] ]
CX(X) == IF X = <<>> THEN CX0 ELSE X

COK == 0  CBADTYPE == 1  CNODATA == 2  CBADHEAD == 4
FillVal == << TVEC, <<
  <<3,1>>,
  <<12,<<ZeroW,ZeroW,<<16478,49152,0,0>>,ZeroW,ZeroW,ZeroW,ZeroW,ZeroW,ZeroW,ZeroW>>>>,
  <<20,<< <<B("aaa"),<<7,B("stringa1")>>>>, <<B("bbb"),<<7,B("stringa2")>>>>, <<B("paperino"),<<3,3>>>>, <<B("pippo"),<<3,13>>>>, <<B("pluto"),<<3,1>>>> >>>>,
  <<14,<<B("string1"),B("string2"),B("string3"),B("string4")>>>>,
  <<5,<<16372,52428,52428,52429>>>>,
  <<7,B("pippo")>>,
  <<20,<< <<B("aaa"),<<3,123>>>>, <<B("bbb"),<<5,<<16395,13107,13107,13107>>>>>>, <<B("vector"),<<10,<<12,10,1>>>>>> >>>>,
  <<19,<< <<3,123>>, <<5,<<16393,7864,20971,34079>>>>, <<7,B("nonna papera")>>,
          <<13,<< <<<<16368,0,0,0>>,ZeroW>>, <<<<16384,0,0,0>>,ZeroW>>, <<<<16392,0,0,0>>,ZeroW>>, <<<<49192,0,0,0>>,<<16384,0,0,0>>>> >>>> >>>>,
  <<17,2,2,<<ZeroW,ZeroW,<<16392,0,0,0>>,<<16384,0,0,0>>>>>>,
  <<18,2,2,<<<<ZeroW,ZeroW>>,<<ZeroW,ZeroW>>,<<<<16368,0,0,0>>,<<49136,0,0,0>>>>,<<<<16384,0,0,0>>,<<16384,0,0,0>>>>>>>>,
  <<2,1>> >> >>

ZeroC == <<ZeroW,ZeroW>>
(* calls that act on the node under the head: the operation of the library  *)
(* each one stands for                                                      *)
HeadOps == {"c_set","c_push","c_setvec","c_setvector","c_setmap","c_dump","c_types"}
Core(op,a) ==
  CASE op = "c_set" -> <<"store",<<"m",<<a[1],a[2]>>>>>>
    [] op = "c_push" -> <<"push",<<a[1],a[2]>>>>
    [] op = "c_setvec" -> <<"store",<<"m",<<a[1],a[2]>>>>>>
    [] op = "c_setvector" -> <<"alloc",<<TVEC,a[1]>>>>
    [] op = "c_setmap" -> <<"alloc",<<TMAP>>>>
    [] op \in {"c_dump","c_types"} -> <<"shape",<<>>>>
BadArg(op,a) == \/ op = "c_setvector" /\ a[1] < 0
                \/ op = "c_setvec" /\ Len(a) > 2 /\ a[3] < 0
(* calls that read: <<operation,args>> *)
ReadOps == {"c_get","c_at","c_coor","c_shape","c_type","c_type_name"}
CoreR(op,a) ==
  CASE op = "c_get" -> <<"getn",<<CASE a[1] = "bool" -> 2 [] a[1] = "int" -> 3 [] a[1] = "long" -> 4 [] a[1] = "real" -> 5
                                   [] a[1] \in {"complex","re","im"} -> 6 [] a[1] = "string" -> 7>>>>
    [] op = "c_at" -> (CASE a[1] = "bool" -> <<"atn",<<2,a[2]>>>> [] a[1] = "int" -> <<"atn",<<3,a[2]>>>>
                         [] a[1] = "string" -> <<"atn",<<7,a[2]>>>> [] a[1] = "real" -> <<"number_at",<<a[2]>>>>
                         [] a[1] \in {"complex","re","im"} -> <<"cnumber_at",<<a[2]>>>>)
    [] op = "c_coor" -> <<"at2n",<<IF a[1] = "real" THEN 5 ELSE 6,a[2],a[3]>>>>
    [] op \in {"c_shape","c_type","c_type_name"} -> <<"shape",<<>>>>
NegArg(op,a) == (op = "c_at" /\ a[2] < 0) \/ (op = "c_coor" /\ (a[2] < 0 \/ a[3] < 0))
(* what is answered when there is nothing to read *)
Neutral(op,a) ==
  CASE op \in {"c_get","c_at","c_coor"} ->
         (CASE a[1] \in {"bool","int"} -> Ok(0) [] a[1] \in {"long","real","re","im"} -> Ok(ZeroW)
            [] a[1] = "complex" -> Ok(ZeroC) [] a[1] = "string" -> OkU)
    [] op = "c_shape" -> Ok(0) [] op = "c_type" -> Ok(-1) [] op = "c_type_name" -> Ok(<<>>)
Answer(op,a,r,v) ==      \* r: reply of the core operation
  IF r = Er THEN Neutral(op,a)
  ELSE LET x == IF op = "c_get" THEN r[2][2] ELSE IF Len(r) > 1 THEN r[2] ELSE 0 IN
       CASE op = "c_shape" -> Ok(CASE a[1] = "size" -> r[3] [] a[1] = "rows" -> r[4] [] a[1] = "cols" -> r[5])
         [] op = "c_type" -> Ok(K(v))
         [] op = "c_type_name" -> Ok(B(TypeNames[K(v)+1]))
         [] a[1] = "re" -> Ok(x[1]) [] a[1] = "im" -> Ok(x[2])
         [] OTHER -> Ok(x)

KeysOfV(v) == IF K(v) = TMAP THEN KeysOf(v[2]) ELSE <<>>
(* the content of the container may have changed under the iteration *)
ItValid(R0,s,it) == Len(it) = 3 /\ HasPath(R0[s],it[1]) /\ K(AtPath(R0[s],it[1])) = TMAP /\ KeysOf(AtPath(R0[s],it[1])[2]) = it[2]
CSel(X,s) == [ X EXCEPT !.act = s, !.hd[s] = IF @ = <<"none">> THEN <<"head",<<>>>> ELSE @ ]
(* a step: <<reply, containers, X>>, and for calls on the head the core     *)
(* operation with its arguments (for what it leaves open)                   *)
CifStep(op,a,R0,XX,Ap(_,_,_)) ==
  LET X == CX(XX)
      s == X.act
      h == IF s = -1 THEN <<"none">> ELSE X.hd[s]
      at == h[1] = "head"
      v == IF at THEN AtPath(R0[s],h[2]) ELSE NoVal
      Put(x) == [ R0 EXCEPT ![s] = PutPath(R0[s],h[2],x) ]
      Same(r) == << r, R0, X >>
  IN
  CASE op \in {"c_new","c_ptr"} -> << Ok(IF op = "c_ptr" THEN 1 ELSE COK), R0, CSel(X,a[1]) >>
    [] op = "c_delete" -> << Ok(COK), [R0 EXCEPT ![a[1]] = NoVal],
                             [X EXCEPT !.act = IF @ = a[1] THEN -1 ELSE @, !.hd[a[1]] = <<"none">>, !.it[a[1]] = <<>>] >>
    [] op = "c_fill" -> << Ok(COK), [R0 EXCEPT ![a[1]] = FillVal],
                           [CSel(X,a[1]) EXCEPT !.hd[a[1]] = IF @ = <<"empty">> THEN @ ELSE <<"head",<<>>>>] >>
    [] op = "c_pop" -> (CASE s = -1 -> Same(Ok(CBADHEAD))
                          [] ~at -> Same(Ok(CNODATA))
                          [] OTHER -> << Ok(COK), R0, [X EXCEPT !.hd[s] = IF h[2] = <<>> THEN <<"empty">> ELSE <<"head",SubSeq(h[2],1,Len(h[2])-1)>>] >>)
    [] op = "c_reset" -> (CASE s = -1 -> Same(Ok(CBADHEAD))
                            [] ~at -> Same(Ok(CNODATA))
                            [] OTHER -> << Ok(COK), R0, [X EXCEPT !.hd[s] = <<"head",<<>>>>] >>)
    [] op = "c_pushpos" -> (CASE s = -1 -> Same(Ok(CBADHEAD))
                              [] a[1] < 0 -> Same(Ok(CNODATA))
                              [] ~at -> Same(Ok(CBADHEAD))
                              [] K(v) # TVEC -> Same(Ok(CBADTYPE))
                              [] OTHER -> << Ok(COK), Put(<<TVEC,Grow(v[2],a[1]+1,NoVal)>>), [X EXCEPT !.hd[s] = <<"head",Append(h[2],<<"i",a[1]>>)>>] >>)
    [] op = "c_pushkey" -> (CASE s = -1 -> Same(Ok(CBADHEAD))
                              [] ~at -> Same(Ok(CBADHEAD))
                              [] K(v) # TMAP -> Same(Ok(CBADTYPE))
                              [] OTHER -> << Ok(COK), IF HasKey(v[2],a[1]) THEN R0 ELSE Put(<<TMAP,PutKey(v[2],a[1],NoVal)>>),
                                             [X EXCEPT !.hd[s] = <<"head",Append(h[2],<<"k",a[1]>>)>>] >>)
    [] op = "c_initkey" -> (CASE s = -1 -> Same(Ok(CBADHEAD))
                              [] ~at -> Same(Ok(CBADHEAD))
                              [] K(v) # TMAP -> Same(Ok(CBADTYPE))
                              [] OTHER -> << Ok(COK), R0, [X EXCEPT !.it[s] = <<h[2],KeysOf(v[2]),0>>] >>)
    [] op = "c_nextkey" -> (CASE s = -1 \/ X.it[s] = <<>> -> Same(OkU)
                              [] ~ItValid(R0,s,X.it[s]) -> << <<"any">>, R0, [X EXCEPT !.it[s] = <<"open">>] >>
                              [] X.it[s][3] = Len(X.it[s][2]) -> Same(OkU)
                              [] OTHER -> << Ok(X.it[s][2][X.it[s][3]+1]), R0, [X EXCEPT !.it[s][3] = @+1] >>)
    [] op \in HeadOps -> (CASE s = -1 -> Same(Ok(CBADHEAD))
                            [] BadArg(op,a) -> Same(Ok(CNODATA))
                            [] ~at -> Same(Ok(CNODATA))
                            [] OTHER -> LET c == Core(op,a)  r == Ap(c[1],v,c[2]) IN
                                        << Ok(IF r[1] = Er THEN CNODATA ELSE COK), Put(r[2]), X, c, v >>)
    [] op \in ReadOps -> (IF ~at \/ NegArg(op,a) THEN Same(Neutral(op,a))
                          ELSE LET c == CoreR(op,a)  r == Ap(c[1],v,c[2]) IN
                               << Answer(op,a,r[1],v), Put(r[2]), X, c, v >>)
(* what else the head may hold where the core operation leaves it open *)
CifLoose(w,R1,LooseV(_,_,_,_)) ==
  LET s == w[3].act  p == w[3].hd[s][2] IN
  /\ Len(w) = 5 /\ w[4][1] \in {"alloc","at2n"}
  /\ HasPath(R1[s],p)
  /\ LET post == AtPath(R1[s],p) IN
     /\ LooseV(w[4][1],w[5],w[4][2],post)
     /\ R1 = [w[2] EXCEPT ![s] = PutPath(w[2][s],p,post)]
=============================================================================
