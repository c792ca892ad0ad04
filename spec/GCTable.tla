------------------------------ MODULE GCTable -------------------------------
(* Column tables as text: write_formatted_data, write_table,                *)
(* write_table_formatted, read_formatted_data and read_formatted_data2.     *)
EXTENDS GCJson

Kh == B("headers")  Kd == B("data")
RECURSIVE SplitAt(_,_,_)
(* lines of a text; a last line need not be terminated; CRLF counts as LF   *)
SplitAt(t,i,j) == IF j > Len(t) THEN (IF i > Len(t) THEN <<>> ELSE <<SubSeq(t,i,Len(t))>>)
                  ELSE IF t[j] = 10 THEN <<SubSeq(t,i,j-1)>> \o SplitAt(t,j+1,j+1) ELSE SplitAt(t,i,j+1)
DropCR(l) == IF l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l,1,Len(l)-1) ELSE l
LinesOf(t) == LET s == TLCEval(SplitAt(t,1,1)) IN [ i \in 1..Len(s) |-> DropCR(s[i]) ]
HasAny(l,cs) == \E i \in 1..Len(l) : l[i] \in cs
RECURSIVE TokAt(_,_,_)
TokAt(l,dl,i) ==
  IF i > Len(l) THEN <<>>
  ELSE IF l[i] \in dl THEN TokAt(l,dl,i+1)
  ELSE LET E == { j \in i..Len(l) : l[j] \in dl }
           e == IF E = {} THEN Len(l)+1 ELSE SetMin(E)
       IN <<SubSeq(l,i,e-1)>> \o TokAt(l,dl,e)
Toks(l,dl) == LET t == TokAt(l,dl,1) IN
              IF t # <<>> /\ t[Len(t)][1] \in {10,13} THEN SubSeq(t,1,Len(t)-1) ELSE t
(* the number a text starts with *)
BlankC == {32,9,10,11,12,13}
Digs == 48..57
RECURSIVE SkipIn(_,_,_)
SkipIn(t,i,S) == IF i <= Len(t) /\ t[i] \in S THEN SkipIn(t,i+1,S) ELSE i
LowC(c) == IF c \in 65..90 THEN c+32 ELSE c
StartsLow(t,i,w) == Len(t) >= i+Len(w)-1 /\ \A q \in 1..Len(w) : LowC(t[i+q-1]) = w[q]
InfS == B("inf")  NanS == B("nan")
NumPrefix(t) ==
  LET i0 == TLCEval(SkipIn(t,1,BlankC))
      i1 == IF i0 <= Len(t) /\ t[i0] \in {43,45} THEN i0+1 ELSE i0
      neg == i1 > i0 /\ t[i0] = 45
      i2 == TLCEval(SkipIn(t,i1,Digs))
      dot == i2 <= Len(t) /\ t[i2] = 46
      i3 == TLCEval(IF dot THEN SkipIn(t,i2+1,Digs) ELSE i2)
      some == i2 > i1 \/ (dot /\ i3 > i2+1)
      ex == i3 <= Len(t) /\ t[i3] \in {69,101}
      i4 == IF ex /\ i3 < Len(t) /\ t[i3+1] \in {43,45} THEN i3+2 ELSE i3+1
      i5 == TLCEval(IF ex THEN SkipIn(t,i4,Digs) ELSE i3)
      e  == IF ex /\ i5 > i4 THEN i5 ELSE i3
  IN CASE i2 = i1+1 /\ t[i1] = 48 /\ i2 <= Len(t) /\ t[i2] \in {88,120} -> <<"open">>
       [] some -> <<"num",SubSeq(t,i0,e-1)>>
       [] StartsLow(t,i1,InfS) -> <<"val",IF neg THEN NInfW ELSE PInfW>>
       [] StartsLow(t,i1,NanS) -> <<"val",NaNW>>
       [] OTHER -> <<"none">>
(* rt: <<lexeme,word>> *)
CellW(t,rt) == LET p == NumPrefix(t) IN CASE p[1] = "num" -> Lookup(rt,p[2]) [] p[1] = "val" -> p[2] [] OTHER -> ZeroW
OpenCell(t) == NumPrefix(t)[1] = "open"

(* parameters in comment lines:  #! name = value *)
Blank2(c) == c \in {32,9}
TrimP(s) == LET J == { i \in 1..Len(s) : ~Blank2(s[i]) } IN IF J = {} THEN s ELSE SubSeq(s,SetMin(J),SetMax(J))
ParamOf(l,rt) ==   \* <<>> or <<key,value>>
  IF Len(l) <= 2 \/ l[2] # 33 THEN <<>>
  ELSE LET q == Toks(SubSeq(l,3,Len(l)),{61}) IN
       IF Len(q) < 2 THEN <<>>
       ELSE LET r == TrimP(q[2])  p == NumPrefix(r) IN
            << TrimP(q[1]), IF p[1] = "none" THEN <<TSTR,r>> ELSE <<TREAL,CellW(r,rt)>> >>
Comment(two,l,cc) == (two /\ l = <<>>) \/ HasAny(l,cc)
RECURSIVE NextLine(_,_,_,_)
NextLine(L,i,two,cc) == IF i > Len(L) THEN i ELSE IF Comment(two,L[i],cc) THEN NextLine(L,i+1,two,cc) ELSE i
(* rows from line i: <<good, rows, lines consumed>> *)
RECURSIVE RowsFrom(_,_,_,_,_,_)
RowsFrom(L,i,two,cc,dl,nc) ==
  LET j == TLCEval(NextLine(L,i,two,cc)) IN
  IF j > Len(L) THEN << TRUE, <<>>, Len(L) >>
  ELSE LET t == TLCEval(Toks(L[j],dl)) IN
       IF t = <<>> THEN << TRUE, <<>>, j >>
       ELSE IF Len(t) # nc THEN << FALSE, <<>>, j >>
       ELSE LET r == RowsFrom(L,j+1,two,cc,dl,nc) IN << r[1], <<t>> \o r[2], r[3] >>
(* the whole: <<good, headers, rows, lines consumed>> *)
ReadTable(text,two,cc,dl) ==
  LET L == TLCEval(LinesOf(text))
      j == TLCEval(NextLine(L,1,two,cc))
      hd == TLCEval(IF j > Len(L) THEN <<>> ELSE Toks(L[j],dl))
      r == TLCEval(RowsFrom(L,j+1,two,cc,dl,Len(hd)))
  IN << r[1], hd, r[2], IF j > Len(L) THEN Len(L) ELSE r[3] >>
SetOf(b) == { b[i] : i \in 1..Len(b) }
ColOf(rows,c,rt) == [ i \in 1..Len(rows) |-> CellW(rows[i][c],rt) ]
RECURSIVE MapOf(_,_,_)
MapOf(hd,cols,n) == IF n > Len(hd) THEN <<>> ELSE PutKey(MapOf(hd,cols,n+1),hd[n],cols[n])
RECURSIVE Params(_,_,_,_,_)
Params(L,i,n,cc,rt) == IF i > n THEN <<>> ELSE
  LET p == IF Comment(TRUE,L[i],cc) THEN ParamOf(L[i],rt) ELSE <<>> IN
  (IF p = <<>> THEN <<>> ELSE <<p>>) \o Params(L,i+1,n,cc,rt)
RECURSIVE PutPars(_,_)
PutPars(v,ps) == IF ps = <<>> THEN v ELSE PutPars(Key(v,<<"br",ps[1][1],ps[1][2]>>)[2],Tail(ps))
NoDupS(s) == \A i,j \in 1..Len(s) : i < j => s[i] # s[j]
TableOpen(p) == \E i \in 1..Len(p[3]) : \E c \in 1..Len(p[3][i]) : OpenCell(p[3][i][c])
(* a = <<text,comment chars,delimiters,how,number table>>                   *)
(* <<reply, content or <<"open">>, parameters found>>                       *)
TRead(v,a,two) ==
  LET p == TLCEval(ReadTable(a[1],two,SetOf(a[2]),SetOf(a[3])))
      hd == p[2]  rt == a[5]
      cols == TLCEval([ c \in 1..Len(hd) |-> <<VREAL,ColOf(p[3],c,rt)>> ])
      data == IF two THEN (IF hd = <<>> THEN NoVal ELSE <<TMAP,MapOf(hd,cols,1)>>) ELSE <<TVEC,cols>>
      res == <<TMAP,<< <<Kd,data>>, <<Kh,<<VSTR,hd>>>> >>>>
      ps == IF two THEN Params(LinesOf(a[1]),1,p[4],SetOf(a[2]),rt) ELSE <<>>
  IN IF ~p[1] THEN << Er, <<"open">>, ps >>
     ELSE IF TableOpen(p) \/ (two /\ ~NoDupS(hd)) THEN << OkU, <<"open">>, ps >>
     ELSE << OkU, res, ps >>

-----------------------------------------------------------------------------
(* writing; ft: <<word,text>>, the number printed with the stream precision *)
Cell(col,i,ft) == LET r == NumberAt(col,<<i>>)[1] IN IF r = Er THEN Er ELSE Ok(Lookup(ft,r[2]))
PadT(s,n) == [ i \in 1..(IF Len(s) < n THEN n-Len(s) ELSE 0) |-> 32 ] \o s
CStrB(b) == LET J == { i \in 1..Len(b) : b[i] = 0 } IN IF J = {} THEN b ELSE SubSeq(b,1,SetMin(J)-1)
(* the table: <<good, headers, rows of cell texts>> *)
TableOf(v,ft) ==
  IF K(v) # TMAP \/ ~HasKey(v[2],Kh) \/ ~HasKey(v[2],Kd) THEN <<FALSE>>
  ELSE LET h == GetKey(v[2],Kh)  d == GetKey(v[2],Kd) IN
       IF K(h) # VSTR \/ K(d) \notin {TVEC,17} THEN <<FALSE>>
       ELSE IF K(d) = 17
       THEN IF d[3] > Len(h[2]) THEN <<FALSE>>
            ELSE << TRUE, SubSeq(h[2],1,d[3]), [ i \in 1..(IF d[3] = 0 THEN 0 ELSE d[2]) |-> [ c \in 1..d[3] |-> Lookup(ft,d[4][i+(c-1)*d[2]]) ] ], Len(h[2]) # d[3] >>
       ELSE IF Len(d[2]) < Len(h[2]) THEN <<FALSE>>
       ELSE IF h[2] = <<>> THEN << TRUE, <<>>, <<>>, FALSE >>
       ELSE LET n == NumElems(d[2][1])
                cell == [ i \in 1..n |-> [ c \in 1..Len(h[2]) |-> Cell(d[2][c],i-1,ft) ] ]
            IN IF \E i \in 1..n : \E c \in 1..Len(h[2]) : cell[i][c] = Er THEN <<FALSE>>
               ELSE << TRUE, h[2], [ i \in 1..n |-> [ c \in 1..Len(h[2]) |-> cell[i][c][2] ] ], FALSE >>
RECURSIVE FlatT(_)
FlatT(s) == IF s = <<>> THEN <<>> ELSE s[1] \o FlatT(Tail(s))
RowText(r,sep) == JoinB(r,sep) \o <<10>>
(* a = <<delimiter,precision,how,ft>>; how 2: aligned *)
TWrite(v,a) ==
  LET t == TableOf(v,a[4]) IN
  IF ~t[1] THEN Er
  ELSE IF t[2] = <<>> THEN Ok(<<>>)
  ELSE IF a[3] \notin {2,5} THEN Ok(RowText(t[2],<<a[1]>>) \o FlatT([ i \in 1..Len(t[3]) |-> RowText(t[3][i],<<a[1]>>) ]))
  ELSE IF t[4] THEN <<"any">>
  ELSE LET ml == SetMin({20,SetMax({8} \cup { Len(t[2][c]) : c \in 1..Len(t[2]) })})
           dash == [ i \in 1..Len(t[2])*(ml+1)-1 |-> 45 ] \o <<10>>
           P(r) == RowText([ c \in 1..Len(r) |-> PadT(r[c],ml) ],<<32>>)
       IN Ok(P([ c \in 1..Len(t[2]) |-> CStrB(t[2][c]) ]) \o dash \o FlatT([ i \in 1..Len(t[3]) |-> P(t[3][i]) ]) \o dash)
=============================================================================
