---------------------------- MODULE GCTomlModel ----------------------------
(* Small-scope model of the TOML reader and writer.  mode "v": a map of the *)
(* corpus, written, rendered in two styles and read back; "l": a document   *)
(* typed line by line (the rules for tables); "t": typed token by token.    *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES mode, txt, n
vars == <<mode,txt,n>>
View == vars

Lines == { B("[a]\n"), B("[a.b]\n"), B("[b.a]\n"), B("[[a]]\n"), B("[[a.b]]\n"), B("a=1\n"), B("b = true\n"), B("a.b=\"x\"\n"), B("b.a.b=0.5\n"),
           B("a={}\n"), B("a={b=2}\n"), B("a=[{},{b=1}]\n"), B("a=[1,2]\n"), B("#[a]\n") }
Tokens == { B("a"), B("="), B("1"), B("["), B("]"), B("."), B("\n"), <<34>>, B("{"), B("}"), B(","), B(" "), B("-"), B("true"), B("'"), B("#"), B("5") }
(* values typed from pieces: numbers in all bases, dates and times, text over several lines *)
Pieces == { B("0"), B("1"), B("9"), B("_"), B("0x"), B("0b"), B("f"), B("-"), B("+"), B("."), B("e"), B("1979-02-28"), B("2024-02-29"), B("2023-02-29"), B("T"), B(" "), B("23:59:59"),
            B(".50"), B("Z"), B("+01:30"), B("-00:00"), B("24:00:00"), <<34,34,34>>, <<34>>, <<39,39,39>>, <<39>>, <<10>>, <<92>>, B("a"), B("#") }

MapVals == { v \in MapsM : TRUE } \cup { <<TMAP,<<<<Ka,v>>>>>> : v \in Scal2 \cup Vecs \cup Mats \cup Lists }
           \cup { <<TMAP,<<<<K0,v>>,<<Kb,<<TVEC,<<<<TMAP,<<<<Ka,v>>>>>>,<<TMAP,<<>>>>>>>>>>>>>> : v \in Vecs \cup Mats \cup MapsM }

RealTab == << <<R15,B("1.5")>>, <<R1,B("1.0")>>, <<Rm0,B("-0.0")>>, <<ZeroW,B("0.0")>>, <<R31,B("2147483648.0")>>, <<Rm1,B("-1.0")>> >>
BackTab == [ i \in 1..Len(RealTab) |-> <<RealTab[i][2],RealTab[i][1]>> ]
RealT(x) == IF HasEntry(RealTab,x) THEN Lookup(RealTab,x) ELSE IF x = NaNW THEN B("nan") ELSE IF x = PInfW THEN B("inf") ELSE B("-inf")
PayT(k,x) == CASE k = 1 -> QuoteJ(HexText(PtrW(x))) [] k = 2 -> (IF x = 1 THEN B("true") ELSE B("false")) [] k = 3 -> DecInt(x) [] k = 4 -> DecW(x)
               [] k = 5 -> RealT(x) [] k = 6 -> <<91>> \o RealT(x[1]) \o <<44>> \o RealT(x[2]) \o <<93>> [] k = 7 -> QuoteJ(x)
ListT(s) == <<91>> \o Join(s,<<44,32>>) \o <<93>>
InlT(s) == <<123>> \o Join(s,<<44>>) \o <<125>>
Kv(k,x) == QuoteJ(k) \o <<61>> \o x
RECURSIVE InlV(_)
InlV(v) ==
  CASE K(v) \in 1..7 -> PayT(K(v),v[2])
    [] IsVecK(K(v)) -> ListT([ i \in 1..Len(v[2]) |-> PayT(K(v)-7,v[2][i]) ])
    [] IsMatK(K(v)) -> InlT(<< Kv(MatTag(K(v)),InlT(<< Kv(B("$ncols"),DecInt(v[3])), Kv(B("$nrows"),DecInt(v[2])) >> \o
         (IF K(v) = 18 THEN << Kv(B("$data_real"),ListT([ i \in 1..Len(v[4]) |-> RealT(v[4][i][1]) ])),
                               Kv(B("$data_imag"),ListT([ i \in 1..Len(v[4]) |-> RealT(v[4][i][2]) ])) >>
          ELSE << Kv(B("$data"),ListT([ i \in 1..Len(v[4]) |-> PayT(K(v)-12,v[4][i]) ])) >>))) >>)
    [] K(v) = TVEC -> ListT([ i \in 1..Len(v[2]) |-> InlV(v[2][i]) ])
    [] K(v) = TMAP -> InlT([ i \in 1..Len(v[2]) |-> Kv(v[2][i][1],InlV(v[2][i][2])) ])
(* style 0: everything inline; style 1: nested maps under headers *)
IsSub(v) == K(v) = TMAP
RECURSIVE Sects(_,_)
Sects(v,path) ==
  FlatB([ i \in 1..Len(v[2]) |-> IF IsSub(v[2][i][2]) THEN <<>> ELSE Kv(v[2][i][1],InlV(v[2][i][2])) \o <<10>> ],1) \o
  FlatB([ i \in 1..Len(v[2]) |-> IF IsSub(v[2][i][2])
            THEN <<91>> \o Join([ q \in 1..Len(path)+1 |-> QuoteJ(Append(path,v[2][i][1])[q]) ],<<46>>) \o <<93,10>> \o Sects(v[2][i][2],Append(path,v[2][i][1]))
            ELSE <<>> ],1)
Flat(v) == FlatB([ i \in 1..Len(v[2]) |-> Kv(v[2][i][1],InlV(v[2][i][2])) \o <<10>> ],1)

S(x) == PrintT("S " \o ToJson(x))
TS(s) == <<s>>
ReadS(t) == S(<< <<"init",TS(0),<< <<14,<<<<97>>,<<98>>>>>> >>>>, <<"from_toml",TS(0),<<t,0>>>> >>)
Init == n = 0 /\ \/ mode = "v" /\ txt \in { <<v>> : v \in MapVals }
                 \/ mode \in {"l","t"} /\ txt = <<>>
                 \/ mode = "p" /\ txt = B("a=")
Type == /\ mode \in {"l","t","p"} /\ n < (IF mode = "t" THEN Depth+1 ELSE Depth)
        /\ mode = "l" => TParse(txt)[1] = "ok"
        /\ mode = "t" => LET p == TParse(txt) IN p[1] # "bad" \/ p[2] > Len(txt) \/ p[2] = 0
        /\ mode = "p" => LET p == TParse(txt) IN p[1] # "bad" \/ p[2] > Len(txt) \/ n < 3
        /\ \E k \in IF mode = "l" THEN Lines ELSE IF mode = "p" THEN Pieces ELSE Tokens : txt' = txt \o k
        /\ n' = n+1 /\ mode' = mode
        /\ ReadS(txt')
Write == /\ mode = "v" /\ n = 0
         /\ n' = 1 /\ txt' = txt /\ mode' = mode
         /\ \A how \in {0,1,2} : S(<< <<"init",TS(0),<<txt[1]>>>>, <<"to_toml",TS(0),<<how>>>> >>)
         /\ IF HasNone(txt[1]) THEN TRUE ELSE ReadS(Flat(txt[1])) /\ ReadS(Sects(txt[1],<<>>))
Next == Type \/ Write
Spec == Init /\ [][Next]_vars
TypeOK == n \in 0..Depth+1

RECURSIVE NoDup(_)
NoDup(d) == CASE d[1] = "tab" -> /\ \A i,j \in 1..Len(d[2]) : i # j => d[2][i][1] # d[2][j][1]
                                 /\ \A i \in 1..Len(d[2]) : NoDup(d[2][i][2])
              [] d[1] \in {"arr","aot"} -> \A i \in 1..Len(d[2]) : NoDup(d[2][i])
              [] OTHER -> TRUE
(* a table never has two values for a key; comments, blank lines and a      *)
(* final newline do not matter; once wrong, no further line mends a text    *)
LT == LET p == TParse(txt') IN
      /\ p[1] = "ok" => /\ NoDup(p[3])
                        /\ \A e \in {<<10>>,<<10,35,120>>,<<10,32,9,10>>} : TParse(txt' \o e)[3] = p[3]
                        /\ \A b \in {<<10>>,<<35,97,61,10>>} : TParse(b \o txt')[3] = p[3]
      /\ mode = "l" /\ p[1] = "bad" => \A k \in Lines : TParse(txt' \o k)[1] = "bad"
(* both renderings of a value denote it, and only it among its kind *)
LV == LET v == txt[1] IN
      TextOk(v) /\ ~HasNone(v) =>
        \A t \in {Flat(v),Sects(v,<<>>)} :
          LET p == TParse(t) IN
          /\ p[1] = "ok" /\ TDenotes(p[3],v,BackTab)
          /\ \A w \in MapVals : TDenotes(p[3],w,BackTab) => Collapse(TImage(p[3],BackTab)) = Collapse(TImage(TParse(Flat(w))[3],BackTab))
Laws == [][IF mode = "v" THEN LV ELSE LT]_vars
=============================================================================
