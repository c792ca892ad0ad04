------------------------------- MODULE GCSer -------------------------------
(* The serialized form (P12, P13): little-endian, self-delimiting.          *)
EXTENDS GCOps

PtrW(p)   == << 0, 0, p, p >>           \* address of pointer p (p*65537)
BytesToPtr(b) == LET w == BytesToW(b) IN
                 IF w[1] = 0 /\ w[2] = 0 /\ w[3] = w[4] /\ w[3] < 30000 THEN w[3] ELSE -1
ItemBytes(k,x) == CASE k = 1 -> WToBytes(PtrW(x))
                    [] k = 2 -> <<x>>
                    [] k = 3 -> IntToBytes(x)
                    [] k \in {4,5} -> WToBytes(x)
                    [] k = 6 -> WToBytes(x[1]) \o WToBytes(x[2])
                    [] k = 7 -> IntToBytes(Len(x)+1) \o x \o <<0>>
ItemSize(k) == CASE k = 1 -> 8 [] k = 2 -> 1 [] k = 3 -> 4 [] k = 4 -> 8 [] k = 5 -> 8 [] k = 6 -> 16
Cat(s) == FlattenSeq(TLCEval(s))
RECURSIVE Ser(_)
Ser(v) ==
  IntToBytes(K(v)) \o
  CASE K(v) = 0 -> <<>>
    [] K(v) \in 1..7 -> ItemBytes(K(v),v[2])
    [] IsVecK(K(v)) -> IntToBytes(Len(v[2])) \o Cat([ i \in 1..Len(v[2]) |-> ItemBytes(ElemK(K(v)),v[2][i]) ])
    [] IsMatK(K(v)) -> IntToBytes(v[2]) \o IntToBytes(v[3]) \o
                       Cat([ i \in 1..Len(v[4]) |-> ItemBytes(ElemK(K(v)),v[4][i]) ])
    [] K(v) = TVEC -> IntToBytes(Len(v[2])) \o Cat([ i \in 1..Len(v[2]) |-> Ser(v[2][i]) ])
    [] K(v) = TMAP -> IntToBytes(Len(v[2])) \o
                      Cat([ i \in 1..Len(v[2]) |-> ItemBytes(7,v[2][i][1]) \o Ser(v[2][i][2]) ])

-----------------------------------------------------------------------------
(* Reading: <<value,next>> where next is the position after it, or Bad.     *)
Bad == << NoVal, 0 >>
IsBad(r) == r[2] = 0
Left(b,p) == Len(b)-p+1
ReadInt(b,p) == BytesToInt(SubSeq(b,p,p+3))
ReadItem(k,b,p) == CASE k = 1 -> BytesToPtr(SubSeq(b,p,p+7))
                     [] k = 2 -> IF b[p] > 0 THEN 1 ELSE 0
                     [] k = 3 -> ReadInt(b,p)
                     [] k = 4 -> BytesToW(SubSeq(b,p,p+7))
                     [] k = 5 -> LET w == BytesToW(SubSeq(b,p,p+7)) IN IF IsNaN(w) THEN NaNW ELSE w
                     [] k = 6 -> LET x == BytesToW(SubSeq(b,p,p+7)) y == BytesToW(SubSeq(b,p+8,p+15))
                                 IN << IF IsNaN(x) THEN NaNW ELSE x, IF IsNaN(y) THEN NaNW ELSE y >>
(* n items of size z fit in what is left (n*z may exceed 32 bits) *)
Fits(n,z,left) == n >= 0 /\ n <= left \div z
(* <<bytes,next>> or <<_,0>> *)
ReadStr(b,p) == IF Left(b,p) < 4 THEN << <<>>, 0 >>
                ELSE LET n == ReadInt(b,p) IN
                     IF n < 1 \/ n > Left(b,p)-4 THEN << <<>>, 0 >>
                     ELSE << SubSeq(b,p+4,p+2+n), p+4+n >>
RECURSIVE ReadStrs(_,_,_,_)
ReadStrs(b,p,n,acc) == IF n = 0 THEN <<acc,p>>
                       ELSE LET s == ReadStr(b,p) IN
                            IF s[2] = 0 THEN <<acc,0>> ELSE ReadStrs(b,s[2],n-1,Append(acc,s[1]))
RECURSIVE De(_,_), DeList(_,_,_,_), DeMap(_,_,_,_)
De(b,p) ==
  IF Left(b,p) < 4 THEN Bad
  ELSE LET k == ReadInt(b,p)  q == p+4 IN
  IF k \notin 0..20 THEN Bad
  ELSE CASE k = 0 -> << NoVal, q >>
    [] k \in 1..6 -> IF Left(b,q) < ItemSize(k) THEN Bad
                     ELSE << <<k,ReadItem(k,b,q)>>, q+ItemSize(k) >>
    [] k = 7 -> LET s == ReadStr(b,q) IN IF s[2] = 0 THEN Bad ELSE << <<7,s[1]>>, s[2] >>
    [] k \in 8..13 ->
         IF Left(b,q) < 4 THEN Bad
         ELSE LET n == ReadInt(b,q)  z == ItemSize(k-7) IN
              IF ~Fits(n,z,Left(b,q)-4) THEN Bad
              ELSE << <<k,[ i \in 1..n |-> ReadItem(k-7,b,q+4+(i-1)*z) ]>>, q+4+n*z >>
    [] k = 14 ->
         IF Left(b,q) < 4 THEN Bad
         ELSE LET n == ReadInt(b,q) IN
              IF ~Fits(n,4,Left(b,q)-4) THEN Bad
              ELSE LET r == ReadStrs(b,q+4,n,<<>>) IN
                   IF r[2] = 0 THEN Bad ELSE << <<14,r[1]>>, r[2] >>
    [] k \in 15..18 ->
         IF Left(b,q) < 8 THEN Bad
         ELSE LET nr == ReadInt(b,q)  nc == ReadInt(b,q+4)  z == ItemSize(k-12)
                  room == (Left(b,q)-8) \div z
              IN IF nr < 0 \/ nc < 0 THEN Bad
                 ELSE IF ~(nr = 0 \/ nc = 0 \/ nc <= room \div nr) THEN Bad
                 ELSE << <<k,nr,nc,IF nr = 0 \/ nc = 0 THEN <<>> ELSE
                           [ i \in 1..nr*nc |-> ReadItem(k-12,b,q+8+(i-1)*z) ]>>,
                         IF nr = 0 \/ nc = 0 THEN q+8 ELSE q+8+nr*nc*z >>
    [] k = TVEC ->
         IF Left(b,q) < 4 THEN Bad
         ELSE LET n == ReadInt(b,q) IN
              IF ~Fits(n,4,Left(b,q)-4) THEN Bad
              ELSE LET r == DeList(b,q+4,n,<<>>) IN IF IsBad(r) THEN Bad ELSE << <<TVEC,r[1]>>, r[2] >>
    [] k = TMAP ->
         IF Left(b,q) < 4 THEN Bad
         ELSE LET n == ReadInt(b,q) IN
              IF ~Fits(n,9,Left(b,q)-4) THEN Bad
              ELSE LET r == DeMap(b,q+4,n,<<>>) IN IF IsBad(r) THEN Bad ELSE << <<TMAP,r[1]>>, r[2] >>
DeList(b,p,n,acc) ==
  IF n = 0 THEN <<acc,p>>
  ELSE LET r == TLCEval(De(b,p)) IN IF IsBad(r) THEN <<acc,0>> ELSE DeList(b,r[2],n-1,Append(acc,r[1]))
DeMap(b,p,n,acc) ==
  IF n = 0 THEN <<acc,p>>
  ELSE LET s == ReadStr(b,p) IN
       IF s[2] = 0 THEN <<acc,0>>
       ELSE LET r == TLCEval(De(b,s[2])) IN
            IF IsBad(r) THEN <<acc,0>> ELSE DeMap(b,r[2],n-1,PutKey(acc,s[1],r[1]))

-----------------------------------------------------------------------------
MemSize(v) == Len(Ser(v))
SerOp(v)  == LET s == Ser(v) IN << <<"ok",Len(s),Len(s),s,1>>, v >>
SerBuf(v,a) == LET s == Ser(v) IN
               IF a[1] < 0 THEN Err(v) ELSE << <<"ok",Len(s),s,1>>, v >>
(* a rejected input leaves some well formed content (DeserLoose) *)
Deser(v,a) == LET r == De(a[1],1) IN IF IsBad(r) THEN Err(v) ELSE << Ok(r[2]-1), r[1] >>
DeserLoose(v,a,post) == IsBad(De(a[1],1)) /\ WellFormed(post)
SerDe(v,o) == LET n == Len(Ser(o)) IN << <<"ok",n,n>>, o >>
=============================================================================
