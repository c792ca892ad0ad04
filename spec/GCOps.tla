------------------------------- MODULE GCOps -------------------------------
(* Operations of a single container, as functions from the content before   *)
(* the call to << reply, content after >>.  A reply is <<"ok">>,            *)
(* <<"ok",x,..>> or <<"err">> (an exception; its text is not modelled).     *)
EXTENDS GCValue

Er == <<"err">>
OkU == <<"ok">>
Ok(x) == <<"ok",x>>
Err(v) == << Er, v >>

CStr(b) == IF \E i \in 1..Len(b) : b[i] = 0
           THEN SubSeq(b,1,(CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..i-1 : b[j] # 0)-1)
           ELSE b

-----------------------------------------------------------------------------
(* Storing (P01).                                                           *)
(* a = <<how,value>>: how selects the method, overload, assignment or       *)
(* constructor used; "z" passes a C string.                                 *)
Store(v,a) == LET x == IF a[1] \in {"zs","za","zc"} THEN << TSTR, CStr(a[2][2]) >> ELSE a[2]
              IN << Ok(x), x >>
(* unsigned / narrow floating point sources: a = <<how,type,word>> *)
StoreU(v,a) ==
  CASE a[2] = "uint"  -> LET x == IF WInInt(a[3]) THEN <<TINT,WToInt(a[3])>> ELSE <<TLONG,a[3]>>
                         IN << Ok(x), x >>
    [] a[2] = "ulong" -> IF IsNegW(a[3]) THEN Err(v)
                         ELSE << Ok(<<TLONG,a[3]>>), <<TLONG,a[3]>> >>
    [] a[2] = "float" -> << Ok(<<TREAL,a[3]>>), <<TREAL,a[3]>> >>
    [] a[2] = "cfloat" -> LET x == <<TCPLX,<<a[3],a[4]>>>> IN << Ok(x), x >>

(* set_vec_X(n), set_vector(n), set_mat_X(nr,nc), set_map(): a = <<kind,n..>> *)
AllocFresh(a) == CASE IsVecK(a[1]) -> << a[1], Fill(a[2],ZeroOf(ElemK(a[1]))) >>
                   [] IsMatK(a[1]) -> << a[1], a[2], a[3], Fill(a[2]*a[3],ZeroOf(ElemK(a[1]))) >>
                   [] a[1] = TVEC  -> << TVEC, Fill(a[2],NoVal) >>
                   [] a[1] = TMAP  -> << TMAP, <<>> >>
Alloc(v,a) == LET x == AllocFresh(a) IN << OkU, x >>
(* re-sizing a container that already has this type: only the new shape is  *)
(* promised for positions that existed                                      *)
AllocLoose(v,a,post) ==
  /\ K(v) = a[1] /\ a[1] # TMAP /\ K(post) = a[1] /\ WellFormed(post)
  /\ NumElems(post) = NumElems(AllocFresh(a))
  /\ IsMatK(a[1]) => post[2] = a[2] /\ post[3] = a[3]

ClearOp(v) == << OkU, NoVal >>
FreePtr(v) == IF K(v) \in {TNO,TPTR} THEN << OkU, NoVal >> ELSE Err(v)

TypeNames == << "NOTYPE","pointer","bool_type","int_type","long_type","real_type","complex_type",
  "string_type","vec_pointer_type","vec_bool_type","vec_int_type","vec_long_type",
  "vec_real_type","vec_complex_type","vec_string_type","mat_int_type","mat_long_type",
  "mat_real_type","mat_complex_type","vector_type","map_type" >>
Shape(v) == << << "ok", K(v), NumElems(v), NumRows(v), NumCols(v) >>, v >>

-----------------------------------------------------------------------------
(* Typed access (P01, P08): read-only access demands the exact kind; the    *)
(* modifying accessors create the kind from an empty container and widen    *)
(* numeric vectors and matrices.                                            *)
ColMat(k,v) == << k, Len(v[2]), 1, ConvSeq(ElemK(K(v)),ElemK(k),v[2]) >>
ConvMat(k,v) == << k, v[2], v[3], ConvSeq(ElemK(K(v)),ElemK(k),v[4]) >>
ConvVec(k,v) == << k, ConvSeq(ElemK(K(v)),ElemK(k),v[2]) >>
CanAccess(k,v) ==
  CASE k \in 2..7 -> K(v) \in {0,k}
    [] k \in {1,8,9,14,19,20} -> K(v) = k
    [] k \in 10..13 -> K(v) = 0 \/ K(v) \in 9..k
    [] k \in 15..18 -> K(v) = 0 \/ K(v) \in 9..(k-5) \/ K(v) \in 15..k
Accessed(k,v) ==
  CASE K(v) = k -> v
    [] K(v) = 0 -> IF k \in 2..7 THEN <<k,ZeroOf(k)>>
                   ELSE IF IsMatK(k) THEN <<k,0,0,<<>>>> ELSE <<k,<<>>>>
    [] k \in 10..13 -> ConvVec(k,v)
    [] k \in 15..18 -> IF IsMatK(K(v)) THEN ConvMat(k,v) ELSE ColMat(k,v)
GetC(v,a) == IF K(v) = a[1] THEN << Ok(v), v >> ELSE Err(v)
(* a = <<kind>> or <<kind,value written through the reference>> *)
GetN(v,a) == IF ~CanAccess(a[1],v) THEN Err(v)
             ELSE LET x == Accessed(a[1],v) IN
                  << Ok(x), IF Len(a) = 2 THEN a[2] ELSE x >>
(* get_int_pointer & co: a = <<element kind>>; all elements through it *)
PtrK(k,v) == K(v) \in {k,VecOf(k),MatOf(k)}
Ptr(v,a) == IF PtrK(a[1],v) THEN << Ok(Elems(v)), v >> ELSE Err(v)

-----------------------------------------------------------------------------
(* Numeric conversions (P02)                                                *)
AsT(T,v) == IF IsNumK(K(v))
            THEN LET iv == IntView(K(v),v[2]) IN
                 IF FitsT(T,iv) THEN Ok(ValT(T,iv)) ELSE Er
            ELSE Er
Number(v)  == IF K(v) \in 2..5 THEN Ok(ToRealW(K(v),v[2])) ELSE Er
CNumber(v) == IF K(v) \in 2..6 THEN Ok(ToCplx(K(v),v[2])) ELSE Er
AsReal(v)  == CASE K(v) \in 2..5 -> Ok(ToRealW(K(v),v[2]))
                [] K(v) = 6 /\ IsZero0R(v[2][2]) -> Ok(v[2][1])
                [] OTHER -> Er
(* double to float, or integer to float in one rounding when below 2^53 *)
AsFloat(v) == LET r == AsReal(v) IN
              IF r = Er THEN Er
              ELSE IF K(v) = TLONG /\ BitLenW(MagW(v[2])) > 53 THEN <<"any">>
              ELSE IF InFloatRange(r[2]) THEN Ok(RealToFloat(r[2])) ELSE <<"any">>
(* a = <<T>>: get_as_T / get_value<T>; on refusal the destination is kept *)
As(v,a) == LET r == CASE a[1] \in {"int","uint","long","ulong"} -> AsT(a[1],v)
                      [] a[1] = "double" -> AsReal(v)
                      [] a[1] = "float" -> AsFloat(v)
                      [] a[1] = "number" -> Number(v)
                      [] a[1] = "cnumber" -> CNumber(v)
           IN << IF r = Er THEN <<"err",1>> ELSE r, v >>

-----------------------------------------------------------------------------
(* Promotion (P08)                                                          *)
CanPromote(k,v) ==
  CASE k \in 3..6  -> K(v) = 0 \/ K(v) \in 2..k \/ (k = 6 /\ K(v) \in 9..13)
    [] k \in 10..13 -> K(v) = 0 \/ K(v) \in 2..(k-7) \/ K(v) \in 9..k
    [] k \in 15..18 -> K(v) = 0 \/ K(v) \in 2..(k-12) \/ K(v) \in 9..(k-5) \/ K(v) \in 15..k
    [] k = TVEC -> K(v) \notin (15..18) \cup {TMAP}
Promoted(k,v) ==
  CASE K(v) = k -> v
    [] k \in 3..6 -> CASE K(v) = 0 -> <<k,ZeroOf(k)>>
                       [] IsVecK(K(v)) -> ConvVec(VCPLX,v)
                       [] OTHER -> <<k,Conv(K(v),k,v[2])>>
    [] k \in 10..13 -> CASE K(v) = 0 -> <<k,<<ZeroOf(k-7)>>>>
                         [] IsVecK(K(v)) -> ConvVec(k,v)
                         [] OTHER -> <<k,<<Conv(K(v),k-7,v[2])>>>>
    [] k \in 15..18 -> CASE K(v) = 0 -> <<k,1,1,<<ZeroOf(k-12)>>>>
                         [] IsVecK(K(v)) -> ColMat(k,v)
                         [] IsMatK(K(v)) -> ConvMat(k,v)
                         [] OTHER -> <<k,1,1,<<Conv(K(v),k-12,v[2])>>>>
    [] k = TVEC -> CASE IsVecK(K(v)) -> <<TVEC,[ i \in 1..Len(v[2]) |-> <<ElemK(K(v)),v[2][i]>> ]>>
                     [] OTHER -> <<TVEC,<<v>>>>
Promote(v,a) == IF CanPromote(a[1],v) THEN << OkU, Promoted(a[1],v) >> ELSE Err(v)

-----------------------------------------------------------------------------
(* Element access (P03)                                                     *)
AtC(v,a) == LET k == a[1]  i == a[2] IN
            IF K(v) = VecOf(k) /\ i < Len(v[2]) THEN << Ok(v[2][i+1]), v >> ELSE Err(v)
(* kinds widened on modifying access to an element of kind k *)
AtWiden(k) == CASE k = 3 -> {2,3,9} [] k = 4 -> {2,3,4,9,10} [] k = 5 -> {9,10,11}
                [] k = 6 -> {9,10,11,12} [] OTHER -> {}
AtN(v,a) ==
  LET k  == a[1]  i == a[2]
      vk == VecOf(k)
      v1 == CASE K(v) = 0 -> <<vk,<<>>>>
              [] K(v) \in AtWiden(k) -> Promoted(vk,v)
              [] OTHER -> v
  IN IF K(v1) = vk
     THEN LET s == Grow(v1[2],i+1,ZeroOf(k)) IN
          << Ok(s[i+1]), << vk, IF Len(a) = 3 THEN [s EXCEPT ![i+1] = a[3]] ELSE s >> >>
     ELSE IF ~CanPromote(TVEC,v1) THEN Err(v)
     ELSE LET s == Grow(Promoted(TVEC,v1)[2],i+1,NoVal)
              e == IF K(s[i+1]) = k THEN s[i+1] ELSE <<k,ZeroOf(k)>>
          IN << Ok(e[2]), << TVEC, [s EXCEPT ![i+1] = IF Len(a) = 3 THEN <<k,a[3]>> ELSE e] >> >>
At2C(v,a) == LET k == a[1]  i == a[2]  j == a[3] IN
  IF K(v) = MatOf(k) /\ i < v[2] /\ j < v[3] THEN << Ok(v[4][i+j*v[2]+1]), v >> ELSE Err(v)
At2Widen(k) == CASE k = 3 -> {9,10} [] k = 4 -> {9,10,11} [] k = 5 -> {9,10,11,12}
                 [] k = 6 -> {9,10,11,12,13,17}
At2V(v,a) == CASE K(v) = 0 -> << MatOf(a[1]), a[2]+1, a[3]+1, Fill((a[2]+1)*(a[3]+1),ZeroOf(a[1])) >>
               [] K(v) \in At2Widen(a[1]) -> Promoted(MatOf(a[1]),v)
               [] OTHER -> v
At2N(v,a) ==
  LET v1 == At2V(v,a)  i == a[2]  j == a[3]  n == i+j*v1[2]+1 IN
  IF K(v1) # MatOf(a[1]) THEN Err(v)
  ELSE IF ~(i < v1[2] /\ j < v1[3]) THEN << Er, v1 >>
  ELSE << Ok(v1[4][n]), IF Len(a) = 4 THEN [v1 EXCEPT ![4] = [@ EXCEPT ![n] = a[4]]] ELSE v1 >>
NumberAt(v,a) ==
  IF a[1] >= NumElems(v) THEN Err(v)
  ELSE CASE K(v) \in (9..12) \cup (15..17) -> << Ok(ToRealW(ElemK(K(v)),Elems(v)[a[1]+1])), v >>
         [] K(v) = TVEC -> << Number(v[2][a[1]+1]), v >>
         [] OTHER -> Err(v)
CNumberAt(v,a) ==
  IF a[1] >= NumElems(v) THEN Err(v)
  ELSE CASE K(v) \in (9..13) \cup (15..18) -> << Ok(ToCplx(ElemK(K(v)),Elems(v)[a[1]+1])), v >>
         [] K(v) = TVEC -> << CNumber(v[2][a[1]+1]), v >>
         [] OTHER -> Err(v)
(* list positions: a = <<how,i>> or <<how,i,value stored there>> *)
Idx(v,a) ==
  LET i == a[2] IN
  IF a[1] \in {"br","gc"}
  THEN LET s == Grow(IF K(v) = TVEC THEN v[2] ELSE <<>>,i+1,NoVal) IN
       << Ok(s[i+1]), << TVEC, IF Len(a) = 3 THEN [s EXCEPT ![i+1] = a[3]] ELSE s >> >>
  ELSE IF K(v) = TVEC /\ i < Len(v[2])
       THEN << Ok(v[2][i+1]), IF Len(a) = 3 THEN <<TVEC,[v[2] EXCEPT ![i+1] = a[3]]>> ELSE v >>
       ELSE Err(v)
(* elements of a vector of pointers or of a list of pointers; a = <<i>> read *)
(* only, <<i,"n">> modifiable access, <<i,"n",x>> modifiable access and store. *)
(* Modifiable access to other contents is left open (the caller has no use   *)
(* for it): it is not exercised.                                             *)
PtrAt(v,a) ==
  LET i == a[1] IN
  IF K(v) = 8
  THEN IF i < Len(v[2]) THEN << Ok(v[2][i+1]), IF Len(a) = 3 THEN <<8,[v[2] EXCEPT ![i+1] = a[3]]>> ELSE v >> ELSE Err(v)
  ELSE IF K(v) = TVEC /\ i < Len(v[2]) /\ K(v[2][i+1]) = 1
       THEN << Ok(v[2][i+1][2]), IF Len(a) = 3 THEN <<TVEC,[v[2] EXCEPT ![i+1] = <<1,a[3]>>]>> ELSE v >>
       ELSE Err(v)
(* rows and columns of a matrix: a = <<0 row / 1 column, index>> *)
RowCol(v,a) ==
  IF ~IsMatK(K(v)) THEN Err(v)
  ELSE IF a[1] = 0
       THEN IF a[2] < v[2] THEN << Ok([ j \in 1..v[3] |-> v[4][a[2]+(j-1)*v[2]+1] ]), v >> ELSE Err(v)
       ELSE IF a[2] < v[3] THEN << Ok([ i \in 1..v[2] |-> v[4][(i-1)+a[2]*v[2]+1] ]), v >> ELSE Err(v)

-----------------------------------------------------------------------------
(* Maps (P04)                                                               *)
Key(v,a) ==
  LET k == a[2] IN
  IF a[1] = "br"
  THEN LET m  == IF K(v) = TMAP THEN v[2] ELSE <<>>
           x  == IF HasKey(m,k) THEN GetKey(m,k) ELSE NoVal
           y  == IF Len(a) = 3 THEN a[3] ELSE x
       IN << Ok(x), <<TMAP,PutKey(m,k,y)>> >>
  ELSE IF K(v) = TMAP /\ HasKey(v[2],k)
       THEN << Ok(GetKey(v[2],k)), IF Len(a) = 3 THEN <<TMAP,PutKey(v[2],k,a[3])>> ELSE v >>
       ELSE Err(v)
(* first of several keys present: its position, or 0 *)
FirstKey(m,ks) == IF \E i \in 1..Len(ks) : HasKey(m,ks[i])
                  THEN CHOOSE i \in 1..Len(ks) : HasKey(m,ks[i]) /\ \A j \in 1..i-1 : ~HasKey(m,ks[j])
                  ELSE 0
Keys(v,a) ==
  LET n == IF K(v) = TMAP THEN FirstKey(v[2],a[2]) ELSE 0 IN
  IF n = 0 THEN Err(v)
  ELSE << Ok(GetKey(v[2],a[2][n])),
          IF Len(a) = 3 THEN <<TMAP,PutKey(v[2],a[2][n],a[3])>> ELSE v >>
Bool01(b) == IF b THEN 1 ELSE 0
Exists(v,a) == << Ok(Bool01(K(v) = TMAP /\ HasKey(v[2],a[1]))), v >>
ExistsV(v,a) == << Ok(Bool01(K(v) = TMAP /\ FirstKey(v[2],a[1]) # 0)), v >>
MustExist(v,a) == LET n == IF K(v) = TMAP THEN FirstKey(v[2],a[1]) ELSE 0 IN
                  IF n = 0 THEN Err(v) ELSE << Ok(a[1][n]), v >>
RECURSIVE JoinB(_,_)
JoinB(ks,sep) == IF Len(ks) = 0 THEN <<>> ELSE IF Len(ks) = 1 THEN ks[1]
                 ELSE ks[1] \o sep \o JoinB(Tail(ks),sep)
GetKeys(v) == LET ks == IF K(v) = TMAP THEN KeysOf(v[2]) ELSE <<>> IN
              << <<"ok",ks,JoinB(ks,<<44,32>>)>>, v >>
Erase(v,a) == IF K(v) = TMAP THEN << OkU, <<TMAP,DelKey(v[2],a[1])>> >> ELSE Err(v)
(* optional typed read of one entry: Er when it is not there or unsuitable *)
GieVal(T,x) ==
  CASE T = "bool" -> IF K(x) = TBOOL THEN Ok(x[2]) ELSE Er
    [] T = "string" -> IF K(x) = TSTR THEN Ok(x[2]) ELSE Er
    [] T \in {"int","uint","long","ulong"} -> AsT(T,x)
    [] T = "real" -> AsReal(x)
    [] T = "complex" -> CNumber(x)
(* a = <<T,keys>>: the first key whose entry can be read as T *)
Gie(v,a) ==
  LET m == IF K(v) = TMAP THEN v[2] ELSE <<>>
      good(i) == HasKey(m,a[2][i]) /\ GieVal(a[1],GetKey(m,a[2][i])) # Er
      S == { i \in 1..Len(a[2]) : good(i) }
  IN IF S = {} THEN << <<"ok",0,1>>, v >>
     ELSE LET n == CHOOSE i \in S : \A j \in S : i <= j IN
          << <<"ok",1,GieVal(a[1],GetKey(m,a[2][n]))[2]>>, v >>
(* typed read of a mandatory entry: a = <<what,how,keys>>, how = "key" (one *)
(* key), "any" (first present of several), "path" (nested keys)             *)
MapRead(w,how,x) ==
  CASE w = "bool" -> IF K(x) = TBOOL THEN Ok(x[2]) ELSE Er
    [] w = "int" -> IF how = "path" THEN (IF K(x) = TINT THEN Ok(x[2]) ELSE Er) ELSE AsT("int",x)
    [] w = "number" -> Number(x)
    [] w = "string" -> IF K(x) = TSTR THEN Ok(x[2]) ELSE Er
    [] w = "vec_real" -> IF K(x) = VREAL THEN Ok(x[2]) ELSE Er
    [] w = "vec_complex" -> IF K(x) = VCPLX THEN Ok(x[2]) ELSE Er
    [] w = "vec_string" -> IF K(x) = VSTR THEN Ok(x[2]) ELSE Er
KeyPath(ks) == [ i \in 1..Len(ks) |-> <<"k",ks[i]>> ]
GetMap(v,a) ==
  CASE a[2] = "path" -> IF HasPath(v,KeyPath(a[3]))
                        THEN << MapRead(a[1],"path",AtPath(v,KeyPath(a[3]))), v >> ELSE Err(v)
    [] OTHER -> LET n == IF K(v) = TMAP THEN FirstKey(v[2],a[3]) ELSE 0 IN
                LET x == GetKey(v[2],a[3][n])
                    k == IF a[1] = "vec_real" THEN VREAL ELSE VCPLX
                IN IF n = 0 THEN Err(v)
                   \* the vector reads widen a numeric vector in place
                   ELSE IF a[1] \in {"vec_real","vec_complex"} /\ CanAccess(k,x)
                   THEN << Ok(Accessed(k,x)[2]), <<TMAP,PutKey(v[2],a[3][n],Accessed(k,x))>> >>
                   ELSE << MapRead(a[1],a[2],x), v >>

-----------------------------------------------------------------------------
(* Two-operand operations: o is the content of the other container before   *)
(* the call (P05, P06, P07)                                                 *)
Assign(v,o) == << OkU, o >>
(* assignment of the typed content (vector, matrix, string..) of o *)
AssignContent(v,o) == << OkU, o >>
RECURSIVE MergeMap(_,_)
MergeMap(d,s) ==   \* d, s sequences of entries
  IF s = <<>> THEN d
  ELSE LET k == s[1][1]  x == s[1][2]
           y == IF HasKey(d,k) /\ K(GetKey(d,k)) = TMAP /\ K(x) = TMAP
                THEN <<TMAP,MergeMap(GetKey(d,k)[2],x[2])>> ELSE x
       IN MergeMap(PutKey(d,k,y),Tail(s))
Merge(v,o) == CASE K(o) = 0 -> << OkU, v >>
                [] K(o) # TMAP -> Err(v)
                [] K(v) = 0 -> << OkU, <<TMAP,MergeMap(<<>>,o[2])>> >>
                [] K(v) # TMAP -> Err(v)
                [] OTHER -> << OkU, <<TMAP,MergeMap(v[2],o[2])>> >>
Compare(v,o) == << Ok(Bool01(SameContent(v,o))), v >>

-----------------------------------------------------------------------------
(* Appending (P09)                                                          *)
PushInto(v,k,x) ==  \* v a vector or list able to take an element of kind k
  IF K(v) = TVEC THEN <<TVEC,Append(v[2],<<k,x>>)>>
  ELSE <<K(v),Append(v[2],Conv(k,ElemK(K(v)),x))>>
Push(v,a) ==
  LET k == a[1]  x == a[2] IN
  CASE K(v) = TVEC -> << OkU, PushInto(v,k,x) >>
    [] k = TBOOL -> IF K(v) \in 9..13 THEN << OkU, PushInto(v,k,x) >> ELSE Err(v)
    [] k \in 3..6 -> CASE K(v) = 0 -> << OkU, <<VecOf(k),<<x>>>> >>
                       [] K(v) \in VecOf(k)..13 -> << OkU, PushInto(v,k,x) >>
                       [] CanPromote(VecOf(k),v) -> << OkU, PushInto(Promoted(VecOf(k),v),k,x) >>
                       [] OTHER -> Err(v)
    [] k = TSTR -> CASE K(v) = VSTR -> << OkU, <<VSTR,Append(v[2],x)>> >>
                     [] K(v) = 0 -> << OkU, <<TVEC,<<<<TSTR,x>>>>>> >>
                     [] CanPromote(TVEC,v) -> << OkU, PushInto(Promoted(TVEC,v),k,x) >>
                     [] OTHER -> Err(v)

-----------------------------------------------------------------------------
(* Bulk extraction (P10): targets "int" "uint" "long" "ulong" "real"        *)
(* "complex" "string"                                                       *)
TgtKind(T) == CASE T = "int" -> 3 [] T = "long" -> 4 [] T = "real" -> 5 [] T = "complex" -> 6
ElemAs(T,k,x) == \* one numeric element of kind k
  CASE T \in {"int","uint","long","ulong"} -> AsT(T,<<k,x>>)
    [] T = "real" -> AsReal(<<k,x>>)
    [] T = "complex" -> CNumber(<<k,x>>)
(* the elements one by one, as <<kind,payload>>, or <<"bad">> *)
AllOk(s) == \A i \in 1..Len(s) : s[i] # Er
Payloads(s) == [ i \in 1..Len(s) |-> s[i][2] ]
CopyVec(T,v) ==
  LET n == NumElems(v)
      s == CASE T = "string" ->
                  (CASE K(v) = TSTR -> <<Ok(v[2])>>
                     [] K(v) = VSTR -> [ i \in 1..n |-> Ok(v[2][i]) ]
                     [] K(v) = TVEC -> [ i \in 1..n |-> IF K(v[2][i]) = TSTR THEN Ok(v[2][i][2]) ELSE Er ]
                     [] OTHER -> <<Er>>)
             [] n = 0 -> <<>>
             [] IsNumK(ElemK(K(v))) /\ K(v) <= MCPLX -> [ i \in 1..n |-> ElemAs(T,ElemK(K(v)),Elems(v)[i]) ]
             [] K(v) = TVEC -> [ i \in 1..n |-> IF ~IsNumK(K(v[2][i])) THEN Er
                                                     \* items of a list are read with get_number
                                                     ELSE IF T = "real" THEN Number(v[2][i])
                                                     ELSE ElemAs(T,K(v[2][i]),v[2][i][2]) ]
             [] OTHER -> <<Er>>
  IN IF AllOk(s) THEN Ok(Payloads(s)) ELSE Er
CopyToVec(v,a) == << CopyVec(a[1],v), v >>
CopyMat(T,v) ==
  LET k == TgtKind(T) IN
  CASE K(v) = TVEC ->
         IF Len(v[2]) = 0 THEN Er
         ELSE LET nr == NumElems(v[2][1])  nc == Len(v[2])
                  cols == [ j \in 1..nc |-> CopyVec(T,v[2][j]) ]
              IN IF (\A j \in 1..nc : NumElems(v[2][j]) = nr) /\ AllOk(cols)
                 THEN Ok(<< nr, nc, FlattenSeq(Payloads(cols)) >>) ELSE Er
    [] CanPromote(MatOf(k),v) -> LET m == Promoted(MatOf(k),v) IN Ok(<<m[2],m[3],m[4]>>)
    [] OTHER -> Er
CopyToMat(v,a) == << CopyMat(a[1],v), v >>

-----------------------------------------------------------------------------
(* Collapsing (P11)                                                         *)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Collapse(_)
Collapse(v) ==
  CASE K(v) = TMAP -> <<TMAP,[ i \in 1..Len(v[2]) |-> << v[2][i][1], Collapse(v[2][i][2]) >> ]>>
    [] K(v) = TVEC ->
         LET s  == TLCEval([ i \in 1..Len(v[2]) |-> Collapse(v[2][i]) ])
             ks == { K(s[i]) : i \in 1..Len(s) }
             same == \A i \in 1..Len(s) : NumElems(s[i]) = NumElems(s[1])
         IN IF Len(s) = 0 THEN v
            ELSE IF ks = {TSTR} THEN <<VSTR,[ i \in 1..Len(s) |-> s[i][2] ]>>
            ELSE IF ks \subseteq 2..6
                 THEN LET k == SetMax(ks) IN
                      <<VecOf(k),[ i \in 1..Len(s) |-> Conv(K(s[i]),k,s[i][2]) ]>>
            ELSE IF ks \subseteq 9..13 /\ same /\ ks # {VBOOL}
                 THEN LET k == SetMax(ks)-7 IN
                      << MatOf(k), NumElems(s[1]), Len(s),
                         FlattenSeq([ i \in 1..Len(s) |-> ConvSeq(ElemK(K(s[i])),k,s[i][2]) ]) >>
            ELSE <<TVEC,s>>
    [] OTHER -> v
CollapseOp(v) == << OkU, Collapse(v) >>
=============================================================================
