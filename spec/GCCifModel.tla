----------------------------- MODULE GCCifModel ----------------------------
(* Small-scope model of the C interface: every history of up to Depth calls *)
(* from an alphabet, over two named containers, from several preparations.  *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES R, X, h, last
vars == <<R,X,h,last>>
View == <<R,X,Len(h)>>

T == <<0>>
C(op,a) == <<op,T,a>>
(* histories to start from: nothing, a list of two, a map of two, a map     *)
(* being iterated, a cursor in the depth, a filled container, a deletion    *)
NewA == C("c_new",<<0,0>>)
Preps == { <<>>, <<NewA>>,
   <<NewA,C("c_setvector",<<2,0>>),C("c_pushpos",<<1>>)>>,
   <<NewA,C("c_setmap",<<>>),C("c_pushkey",<<Kb>>),C("c_set",<<3,5,0>>),C("c_pop",<<>>),C("c_pushkey",<<Ka>>)>>,
   <<NewA,C("c_setmap",<<>>),C("c_pushkey",<<Kb>>),C("c_pop",<<>>),C("c_pushkey",<<Ka>>),C("c_pop",<<>>),C("c_initkey",<<>>),C("c_nextkey",<<>>)>>,
   <<NewA,C("c_setmap",<<>>),C("c_pushkey",<<Kb>>),C("c_setvector",<<1,0>>),C("c_pushpos",<<0>>),C("c_setvec",<<10,<<4,5>>>>)>>,
   <<C("c_fill",<<0>>),C("c_pushpos",<<8>>)>>, <<C("c_fill",<<1>>),C("c_pushpos",<<2>>),NewA,C("c_set",<<5,R15,0>>)>>,
   <<NewA,C("c_setvec",<<12,<<R15,R1>>>>),C("c_new",<<1,1>>),C("c_setvec",<<9,<<1,0>>>>)>>,
   <<NewA,C("c_pop",<<>>)>>, <<NewA,C("c_setmap",<<>>),C("c_delete",<<0>>)>>,
   <<NewA,C("c_setmap",<<>>),C("c_new",<<1,0>>),C("c_setvec",<<13,<<<<R15,R1>>>>>>),C("c_delete",<<0>>)>> }
Alphabet ==
   { C("c_new",<<i,w>>) : i \in {0,1}, w \in {0,1} } \cup { C("c_delete",<<i>>) : i \in {0,1} } \cup { C("c_ptr",<<1>>), C("c_fill",<<0>>) }
   \cup { C(op,<<>>) : op \in {"c_pop","c_reset","c_setmap","c_initkey","c_nextkey","c_type","c_type_name","c_dump"} }
   \cup { C("c_pushpos",<<n>>) : n \in {-1,0,1,3} } \cup { C("c_pushkey",<<k>>) : k \in {Ka,Kab} }
   \cup { C("c_set",<<3,9,0>>), C("c_set",<<6,<<R15,R1>>,0>>), C("c_set",<<6,<<R1,R15>>,1>>), C("c_set",<<7,<<98>>,0>>), C("c_set",<<2,1,1>>) }
   \cup { C("c_push",<<2,1,0>>), C("c_push",<<3,8,0>>), C("c_push",<<5,R15,0>>), C("c_push",<<6,<<R15,R1>>,1>>), C("c_push",<<7,<<97>>,0>>) }
   \cup { C("c_setvec",<<k,<<A1(k-7)>>>>) : k \in {9,10,12,13} } \cup { C("c_setvec",<<14,<<<<97>>,<<>>>>>>) }
   \cup { C("c_setvec",<<k,<<>>,n>>) : k \in {9,10,12,13,14}, n \in {0,-1} }
   \cup { C("c_setvector",<<0,1>>), C("c_setvector",<<3,0>>), C("c_setvector",<<-1,0>>) }
   \cup { C("c_get",<<w>>) : w \in {"bool","int","long","real","complex","re","im","string"} }
   \cup { C("c_at",<<w,n>>) : w \in {"bool","int","real","complex","re","im","string"}, n \in {-1,0,1} }
   \cup { C("c_coor",<<w,i,j>>) : w \in {"real","complex","re","im"}, i \in {-1,0,1}, j \in {0,1} }
   \cup { C("c_shape",<<w>>) : w \in {"size","rows","cols"} }
Do(x,R0,X0) == CifStep(x[1],x[3],R0,X0,LAMBDA op,v,a : Apply(op,v,a,NoVal))
RECURSIVE Run(_,_,_)
Run(p,R0,X0) == IF p = <<>> THEN <<R0,X0>> ELSE LET w == Do(p[1],R0,X0) IN Run(Tail(p),w[2],w[3])
R00 == [ s \in 0..3 |-> NoVal ]
Init == \E p \in Preps : LET w == Run(p,R00,CX0) IN h = p /\ R = w[1] /\ X = w[2] /\ last = <<"none",Len(p)>>
Next == /\ Len(h)-last[2] < Depth
        /\ \E x \in Alphabet :
             LET w == TLCEval(Do(x,R,X)) IN
             /\ R' = w[2] /\ X' = w[3] /\ h' = Append(h,x)
             /\ last' = <<x[1],last[2],x[3],w[1]>>
             /\ PrintT("S " \o ToJson(h'))
Spec == Init /\ [][Next]_vars
(* every head points at a node that exists; exactly the existing containers *)
(* can be selected; what does not exist is empty                            *)
TypeOK == /\ \A s \in 0..3 : WellFormed(R[s])
          /\ \A s \in 0..3 : X.hd[s][1] = "head" => HasPath(R[s],X.hd[s][2])
          /\ X.act # -1 => X.hd[X.act] # <<"none">>
          /\ \A s \in 0..3 : X.hd[s] = <<"none">> => R[s] = NoVal /\ X.it[s] = <<>>
Selects == {"c_new","c_ptr","c_fill","c_delete"}
(* only the selected container changes, and in it only at or below the head *)
LFrame == LET op == last'[1] IN
  /\ \A s \in 0..3 : R'[s] # R[s] => s = X.act \/ (op \in {"c_fill","c_delete"} /\ s = last'[3][1])
  /\ op \notin Selects =>
       /\ X'.act = X.act /\ \A s \in 0..3 : s # X.act => X'.hd[s] = X.hd[s] /\ X'.it[s] = X.it[s]
       /\ R' # R => LET p == X.hd[X.act][2] IN HasPath(R'[X.act],p) /\ R'[X.act] = PutPath(R[X.act],p,AtPath(R'[X.act],p))
(* an error code means nothing happened *)
LErr == last'[1] \in HeadOps \cup {"c_pop","c_reset","c_pushpos","c_pushkey","c_initkey"} /\ last'[4] # Ok(0) => R' = R /\ X' = X
(* nothing selected: error code or neutral value *)
LNone == X.act = -1 /\ last'[1] \notin Selects =>
           R' = R /\ X' = X /\ (last'[1] \in HeadOps \cup {"c_pop","c_reset","c_pushpos","c_pushkey","c_initkey"} => last'[4] = Ok(4))
(* going down and up again is where one was *)
LUpDown == last'[1] \in {"c_pushpos","c_pushkey"} /\ last'[4] = Ok(0) => Do(C("c_pop",<<>>),R',X')[3] = X
(* what was set is read *)
LSetGet == last'[1] = "c_set" /\ last'[4] = Ok(0) =>
    LET k == last'[3][1]  x == last'[3][2]
        G(w) == Do(C("c_get",<<w>>),R',X')[1]
    IN CASE k = 2 -> G("bool") = Ok(x) [] k = 3 -> G("int") = Ok(x) [] k = 5 -> G("real") = Ok(x) [] k = 7 -> G("string") = Ok(x)
         [] k = 6 -> G("complex") = Ok(x) /\ G("re") = Ok(x[1]) /\ G("im") = Ok(x[2])
(* an iteration gives every key once, in order, then its end *)
RECURSIVE Iter(_,_,_)
Iter(R0,X0,n) == IF n = 0 THEN <<>> ELSE LET w == Do(C("c_nextkey",<<>>),R0,X0) IN
                 IF Len(w[1]) = 1 THEN <<>> ELSE <<w[1][2]>> \o Iter(w[2],w[3],n-1)
LIter == last'[1] = "c_initkey" /\ last'[4] = Ok(0) =>
    Iter(R',X',10) = KeysOf(AtPath(R'[X'.act],X'.hd[X'.act][2])[2])
Laws == [][LFrame /\ LErr /\ LNone /\ LUpDown /\ LSetGet /\ LIter]_vars
=============================================================================
