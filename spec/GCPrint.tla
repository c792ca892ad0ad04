------------------------------ MODULE GCPrint -------------------------------
(* The human-readable reports: dump / print, print_content_types and info,  *)
(* as exact texts.  ft: <<real,text>> with the precision of the stream;     *)
(* ct: <<real,text>> with the library's own precision (complex numbers).    *)
EXTENDS GCYaml

PadL(s,n) == [ i \in 1..(IF Len(s) < n THEN n-Len(s) ELSE 0) |-> 32 ] \o s
HexP(x) == IF x = 0 THEN <<48>> ELSE HexText(PtrW(x))
TrueB == B("true")  FalseB == B("false")
PayText(k,x,ft,ct) ==
  CASE k = 1 -> HexP(x) [] k = 2 -> (IF x = 1 THEN TrueB ELSE FalseB)
    [] k = 3 -> DecInt(x) [] k = 4 -> DecW(x) [] k = 5 -> Lookup(ft,x)
    [] k = 6 -> CplxText(x,ct) [] k = 7 -> <<34>> \o x \o <<34>>

(* keys such as  "12 ##- Title":  a number (for the order), one or two      *)
(* hashes, an underline character, the title                                *)
(* <<>> or << two hashes?, underline, title >>                              *)
Blanks == {32,9,10,11,12,13}
RECURSIVE SkipSet(_,_,_)
SkipSet(t,i,S) == IF i <= Len(t) /\ t[i] \in S THEN SkipSet(t,i+1,S) ELSE i
HeadKey(t) ==
  LET a == TLCEval(SkipSet(t,1,Blanks))
      b == TLCEval(SkipSet(t,a,48..57))
      c == TLCEval(SkipSet(t,b,Blanks))
      d == IF c < Len(t) /\ t[c+1] = 35 THEN c+2 ELSE c+1
      u == d <= Len(t) /\ t[d] \in {45,61,126,95}
      e == TLCEval(SkipSet(t,IF u THEN d+1 ELSE d,Blanks))
      r == SubSeq(t,e,Len(t))
  IN IF b = a \/ c > Len(t) \/ (c <= Len(t) /\ t[c] # 35) THEN <<>>
     ELSE IF \E i \in 1..Len(r) : r[i] \in {10,13} THEN <<>>
     ELSE << d = c+2, IF u THEN <<t[d]>> ELSE <<>>, r >>
ShownKey(t) == LET h == HeadKey(t) IN IF h = <<>> THEN t ELSE h[3]
(* the line(s) announcing the content of a key, one indentation step up *)
Announce(t,pre) ==
  LET h == HeadKey(t) IN
  IF h = <<>> THEN pre \o t \o <<58,10>>
  ELSE (IF h[1] THEN <<10>> ELSE <<>>) \o pre \o h[3]
       \o (IF h[2] = <<>> THEN <<58>> ELSE <<10>> \o pre \o [ i \in 1..Len(h[3]) |-> h[2][1] ]) \o <<10>>

SimpleV(v) == K(v) <= TSTR
FlatT1(s) == FlatB(TLCEval(s),1)   \* evaluate the pieces once
VecText(v,ft,ct) == <<91>> \o FlatT1([ i \in 1..Len(v[2]) |-> <<32>> \o PayText(ElemK(K(v)),v[2][i],ft,ct) ]) \o <<32,93>>
ByS == B(" by ")  MatrixS == B(" matrix")  VPS == B("vec_pointer(")
MatText(v,pre,ft,ct) ==
  IF v[2] = 0 \/ v[3] = 0 THEN pre \o DecInt(v[2]) \o ByS \o DecInt(v[3]) \o MatrixS \o <<10>>
  ELSE FlatT1([ i \in 1..v[2] |->
         pre \o FlatT1([ j \in 1..v[3] |-> (IF j = 1 THEN <<>> ELSE <<32>>)
                 \o PadL(PayText(ElemK(K(v)),v[4][(j-1)*v[2]+i],ft,ct),IF K(v) = MCPLX THEN 12 ELSE 8) ]) \o <<10>> ])
NullS == B("null")
RECURSIVE Dump(_,_,_,_,_)
Dump(v,pre,ind,ft,ct) ==
  CASE K(v) = 0 -> pre \o NullS \o <<10>>
    [] K(v) \in 1..7 -> pre \o PayText(K(v),v[2],ft,ct) \o <<10>>
    [] K(v) = VPTR -> FlatT1([ i \in 1..Len(v[2]) |-> pre \o VPS \o DecInt(i-1) \o <<41,58,32>> \o HexP(v[2][i]) \o <<10>> ])
    [] K(v) = VSTR -> FlatT1([ i \in 1..Len(v[2]) |-> pre \o DecInt(i-1) \o <<58,32,34>> \o v[2][i] \o <<34,10>> ])
    [] IsVecK(K(v)) -> pre \o VecText(v,ft,ct) \o <<10>>
    [] IsMatK(K(v)) -> MatText(v,pre,ft,ct)
    [] K(v) = TVEC -> FlatT1([ i \in 1..Len(v[2]) |->
         LET x == v[2][i]  inl == SimpleV(x) \/ (K(x) \in VBOOL..VCPLX /\ Len(x[2]) <= 10) IN
         pre \o DecInt(i-1) \o (IF inl THEN <<58,32>> \o Dump(x,<<>>,ind,ft,ct) ELSE <<58,10>> \o Dump(x,pre \o ind,ind,ft,ct)) ])
    [] K(v) = TMAP -> FlatT1([ i \in 1..Len(v[2]) |->
         LET x == v[2][i][2] IN
         IF SimpleV(x) THEN pre \o ShownKey(v[2][i][1]) \o <<58,32>> \o Dump(x,<<>>,ind,ft,ct)
         ELSE Announce(v[2][i][1],pre) \o Dump(x,pre \o ind,ind,ft,ct) ])

-----------------------------------------------------------------------------
TyNames == << B("Empty!"), B("(*void)"), B("bool"), B("int"), B("long int"), B("double"), B("complex"), B("string"),
              B("vector of pointer"), B("vector of bool"), B("vector of int"), B("vector of long"), B("vector of double"), B("vector of complex"), B("vector of string"),
              B("matrix of int"), B("matrix of long"), B("matrix of double"), B("matrix of complex") >>
RECURSIVE Types(_,_,_)
Types(v,pre,ind) ==
  CASE K(v) <= 7 -> pre \o TyNames[K(v)+1] \o <<10>>
    [] IsVecK(K(v)) -> pre \o TyNames[K(v)+1] \o <<91>> \o DecInt(Len(v[2])) \o <<93,10>>
    [] IsMatK(K(v)) -> pre \o TyNames[K(v)+1] \o <<91>> \o DecInt(v[2]) \o <<44>> \o DecInt(v[3]) \o <<93,10>>
    [] K(v) = TVEC -> FlatT1([ i \in 1..Len(v[2]) |->
         LET x == v[2][i] IN
         pre \o DecInt(i-1) \o (IF K(x) < VSTR THEN <<58,32>> \o Types(x,<<>>,ind) ELSE <<58,10>> \o Types(x,pre \o ind,ind)) ])
    [] K(v) = TMAP -> FlatT1([ i \in 1..Len(v[2]) |->
         LET x == v[2][i][2] IN
         IF K(x) < VSTR THEN pre \o ShownKey(v[2][i][1]) \o <<58,32>> \o Types(x,<<>>,ind)
         ELSE Announce(v[2][i][1],pre) \o Types(x,pre \o ind,ind) ])

-----------------------------------------------------------------------------
InfoNames == << B("GenericContainer: No data stored"), B("Generic pointer: "), B("Boolean: "), B("Integer: "), B("Long: "), B("Floating Point: "), B("Complex Floating Point: "), B("String: "),
                B("Vector of generic pointer of size "), B("Vector of boolean of size "), B("Vector of integer of size "), B("Vector of long integer of size "),
                B("Vector of floating point number of size "), B("Vector of complex floating point number of size "), B("Vector of string of size "),
                B("Matrix of integer of size "), B("Matrix of long integer of size "), B("Matrix of floating point number of size "), B("Matrix of complex floating point number of size "),
                B("Vector of generic data type of size "), B("Map") >>
InfoText(v,ft,ct) ==
  InfoNames[K(v)+1] \o
  (CASE K(v) \in {0,TMAP} -> <<>>
     [] K(v) = TSTR -> v[2]
     [] K(v) \in 1..6 -> PayText(K(v),v[2],ft,ct)
     [] IsMatK(K(v)) -> DecInt(v[2]) \o <<32,120,32>> \o DecInt(v[3])
     [] OTHER -> DecInt(Len(v[2]))) \o <<10>>

-----------------------------------------------------------------------------
(* reply: <<"ok", text, stream state kept (1)>>;  with another number base  *)
(* set on the stream the text is not compared (the driver leaves it out)    *)
(* a = <<prefix,indent,how,precision,base,ft,ct>>                           *)
PrintArgs(a) == IF a[3] = 3 THEN << <<>>, <<32,32,32,32>> >> ELSE << a[1], a[2] >>
DumpOp(v,a)  == LET p == PrintArgs(a) IN << <<"ok",IF a[5] # 0 THEN <<>> ELSE Dump(v,p[1],p[2],a[6],a[7]),1>>, v >>
TypesOp(v,a) == LET p == PrintArgs(a) IN << <<"ok",IF a[5] # 0 THEN <<>> ELSE Types(v,p[1],p[2]),1>>, v >>
InfoOp(v,a)  == IF K(v) = TSTR /\ \E i \in 1..Len(v[2]) : v[2][i] = 0 THEN << <<"any">>, v >>
                ELSE << <<"ok",IF a[5] # 0 THEN <<>> ELSE InfoText(v,a[6],a[7]),1>>, v >>
=============================================================================
