------------------------------- MODULE GCMex --------------------------------
(* The MATLAB interface.  A MATLAB array is                                 *)
(*   <<"nul">>                                     no array                 *)
(*   <<"num",class,complex?,dims,data>>            column by column         *)
(*   <<"char",dims,codes>>  <<"cell",dims,arrays>>                          *)
(*   <<"struct",dims,names,<<fields of each element,...>>>>                 *)
(*   <<"sparse",class,complex?,rows,cols,jc,ir,data>>                       *)
(*   <<"str",bytes>> (string object)  <<"obj">> (any other object)          *)
EXTENDS GCPrint

MxDbl0 == <<"num","double",0,<<0,0>>,<<>>>>
MxTxt(s) == IF s = <<>> THEN <<"char",<<0,0>>,<<>>>> ELSE <<"char",<<1,Len(s)>>,s>>
MxWide(k,s) == IF k = 3 THEN [ i \in 1..Len(s) |-> IntToW(s[i]) ] ELSE s   \* 64-bit words of integers
MxCls(k) == CASE k = 2 -> "logical" [] k \in {3,4} -> "int64" [] OTHER -> "double"
MxNum(k,c,dims,s) == <<"num",c,IF k = 6 THEN 1 ELSE 0,dims,MxWide(k,s)>>

(* export *)
RECURSIVE MxOut(_)
MxOut(v) ==
  CASE K(v) \in {0,1,8} -> MxDbl0
    [] K(v) \in 2..6 -> MxNum(K(v),MxCls(K(v)),<<1,1>>,<<v[2]>>)
    [] K(v) = TSTR -> MxTxt(v[2])
    [] K(v) \in 9..13 -> MxNum(K(v)-7,MxCls(K(v)-7),<<1,Len(v[2])>>,v[2])
    [] K(v) = VSTR -> <<"cell",<<1,Len(v[2])>>,[ i \in 1..Len(v[2]) |-> MxTxt(v[2][i]) ]>>
    [] IsMatK(K(v)) -> MxNum(K(v)-12,IF K(v) = MINT THEN "int32" ELSE MxCls(K(v)-12),<<v[2],v[3]>>,v[4])
    [] K(v) = TVEC -> <<"cell",<<1,Len(v[2])>>,[ i \in 1..Len(v[2]) |-> MxOut(v[2][i]) ]>>
    [] K(v) = TMAP -> <<"struct",<<1,1>>,KeysOf(v[2]),<<[ i \in 1..Len(v[2]) |-> MxOut(v[2][i][2]) ]>>>>
(* export of a value of a C++ type (to_mxArray): vectors are columns *)
MxVal(v) ==
  CASE K(v) \in {0,1,8,19,20} -> <<"nul">>
    [] K(v) \in 9..13 -> MxNum(K(v)-7,IF K(v) = VINT THEN "int32" ELSE MxCls(K(v)-7),<<Len(v[2]),1>>,v[2])
    [] K(v) = VSTR -> <<"cell",<<Len(v[2]),1>>,[ i \in 1..Len(v[2]) |-> MxTxt(v[2][i]) ]>>
    [] OTHER -> MxOut(v)

(* import *)
MxKind(c) == CASE c \in {"int8","uint8","int16","uint16","int32"} -> 3
               [] c \in {"uint32","int64","uint64"} -> 4
               [] c \in {"single","double"} -> 5
MxPay(c,k,x) == IF k = 3 THEN WToInt(x) ELSE x
MxReal(c,x) == CASE c \in {"single","double"} -> x [] c = "uint64" -> UlongToReal(x) [] OTHER -> LongToReal(x)
MxShape(k,dims,s) ==   \* a number, a vector or a matrix of them
  CASE Len(s) = 1 -> <<k,s[1]>>
    [] Len(dims) > 2 -> NoVal
    [] dims[1] = 1 -> <<k+7,s>>
    [] OTHER -> <<k+12,dims[1],dims[2],s>>
MxBools(s) == IF Len(s) = 1 THEN <<TBOOL,s[1]>> ELSE <<TVEC,[ i \in 1..Len(s) |-> <<TBOOL,s[i]>> ]>>
JcK == B("jc")  IrK == B("ir")  ValuesK == B("values")
MxSpCols(x) == << <<JcK,<<VINT,x[6]>>>>, <<IrK,<<VINT,SubSeq(x[7],1,x[6][x[5]+1])>>>>,
                  LET d == SubSeq(x[8],1,x[6][x[5]+1]) IN
                  <<ValuesK, CASE x[2] = "logical" -> <<VREAL,[ i \in 1..Len(d) |-> BoolToReal(d[i]) ]>>
                               [] x[3] = 1 -> <<VCPLX,d>> [] OTHER -> <<VREAL,d>> >> >>
RECURSIVE MxPutAll(_,_,_)
MxPutAll(m,c,i) == IF i > Len(c) THEN m ELSE MxPutAll(PutKey(m,c[i][1],c[i][2]),c,i+1)
MxSparse(x,m) == <<TMAP,MxPutAll(m,MxSpCols(x),1)>>
RECURSIVE MxIn(_), MxFields(_,_)
MxIn(x) ==
  CASE x[1] \in {"nul","obj"} -> NoVal
    [] x[1] = "str" -> <<TSTR,x[2]>>
    [] x[1] = "char" -> <<TSTR,x[3]>>
    [] x[1] = "cell" -> <<TVEC,[ i \in 1..Len(x[3]) |-> MxIn(x[3][i]) ]>>
    [] x[1] = "struct" -> <<TMAP,MxFields(x,1)>>
    [] x[1] = "sparse" -> MxSparse(x,<<>>)
    [] x[2] = "logical" -> MxBools(x[5])
    [] x[3] = 1 -> MxShape(6,x[4],[ i \in 1..Len(x[5]) |-> <<MxReal(x[2],x[5][i][1]),MxReal(x[2],x[5][i][2])>> ])
    [] OTHER -> LET k == MxKind(x[2]) IN MxShape(k,x[4],[ i \in 1..Len(x[5]) |-> MxPay(x[2],k,x[5][i]) ])
MxFields(x,i) ==
  IF i > Len(x[3]) THEN <<>>
  ELSE PutKey(MxFields(x,i+1),x[3][i],
              IF x[2] = <<1,1>> THEN MxIn(x[4][1][i])
              ELSE <<TVEC,[ e \in 1..Len(x[4]) |-> MxIn(x[4][e][i]) ]>>)
(* an unsigned number beyond the largest long integer cannot be kept *)
RECURSIVE MxTooBig(_)
MxTooBig(x) ==
  CASE x[1] = "cell" -> \E i \in 1..Len(x[3]) : MxTooBig(x[3][i])
    [] x[1] = "struct" -> \E e \in 1..Len(x[4]) : \E i \in 1..Len(x[4][e]) : MxTooBig(x[4][e][i])
    [] x[1] = "num" -> /\ x[2] = "uint64" /\ x[3] = 0 /\ (Len(x[5]) = 1 \/ Len(x[4]) = 2)
                       /\ \E i \in 1..Len(x[5]) : IsNegW(x[5][i])
    [] OTHER -> FALSE

(* replies end with 1 if anything was written to the standard output *)
MxQ == <<"ok",0>>
MxInOp(v,a) == IF MxTooBig(a[1]) THEN << Er, NoVal >> ELSE << MxQ, MxIn(a[1]) >>
MxSparseOp(v,a) == << MxQ, MxSparse(a[1],IF K(v) = TMAP THEN v[2] ELSE <<>>) >>
MxOutOp(v) == << <<"ok",MxOut(v),0>>, v >>
MxValOp(v) == << <<"ok",MxVal(v),0>>, v >>
MxTrip(v,o) == << MxQ, MxIn(MxOut(o)) >>
MxPrintOp(v,a) == << <<"ok",Dump(v,<<>>,<<32,32,32,32>>,a[1],a[2]) \o <<10>>,0>>, v >>
=============================================================================
