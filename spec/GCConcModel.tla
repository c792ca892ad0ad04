---------------------------- MODULE GCConcModel ----------------------------
(* Threads.  Two threads; each owns a container (its container 0) and both  *)
(* read container 3, the same object for all.  A transition is one complete *)
(* operation of one thread, in every order (a container only read, or owned *)
(* by one thread, needs no lock).  Depth operations for the first thread,   *)
(* one for the second.                                                      *)
(*   sh      the shared container                                           *)
(*   own     the thread's container     out   replies the thread got        *)
(*   did     operations the thread has done                                 *)
EXTENDS GCCorpus, Json
CONSTANTS Fam, Depth
VARIABLES sh, own, out, did
vars == <<sh,own,out,did>>
View == vars

Th == 1..2
Todo == <<Depth,1>>
T0 == <<0>>  Sh == <<3>>
TA == B("[true, \"a\", null]")  TY == B("a: true\nb: [x, y]\n")  TT == B("a = true\nb = [\"x\"]\n")
(* operations on the thread's own container; the shared one as source       *)
OwnOps == { <<op,T0,<<>>,Sh>> : op \in {"from_gc","asg","load","merge","copyctor","compare","serde"} }
   \cup { <<"store",T0,<<"m",<<3,5>>>>>>, <<"clear",T0,<<>>>>, <<"push",T0,<<3,1>>>>, <<"key",T0,<<"br",Ka,<<2,1>>>>>>, <<"idx",T0,<<"gc",0,<<7,<<98>>>>>>>>,
          <<"promote",T0,<<13>>>>, <<"collapse",T0,<<>>>>, <<"erase",T0,<<Ka>>>>,
          <<"from_json",T0,<<TA,0>>>>, <<"from_yaml",T0,<<TY,0>>>>, <<"from_toml",T0,<<TT,0>>>> }
(* operations that read the shared container                                *)
ShOps == { <<"shape",Sh,<<>>>>, <<"getc",Sh,<<12>>>>, <<"getc",Sh,<<20>>>>, <<"as",Sh,<<"double">>>>, <<"atc",Sh,<<5,0>>>>, <<"number_at",Sh,<<0>>>>, <<"cnumber_at",Sh,<<1>>>>,
           <<"exists",Sh,<<Ka>>>>, <<"must",Sh,<<<<Kb,Ka>>>>>>, <<"get_keys",Sh,<<>>>>, <<"gie",Sh,<<"int",<<Ka>>,"1">>>>, <<"compare",Sh,<<>>,T0>>,
           <<"copyto_vec",Sh,<<"real">>>>, <<"copyto_vec",Sh,<<"complex">>>>, <<"copyto_mat",Sh,<<"real">>>>, <<"ser",Sh,<<0>>>>, <<"serb",Sh,<<0>>>>,
           <<"to_json",Sh,<<0,<<>>>>>>, <<"to_yaml",Sh,<<0,<<>>>>>>, <<"to_toml",Sh,<<0>>>>,
           <<"dump",Sh,<<<<>>,<<46>>,0,6,0>>>>, <<"types",Sh,<<<<>>,<<46>>,0,6,0>>>>, <<"info",Sh,<<<<>>,<<>>,2,6,0>>>> }
Ops == OwnOps \cup ShOps
(* longer histories: first a copy of the shared container, then anything    *)
Starts == { <<op,T0,<<>>,Sh>> : op \in {"from_gc","asg","load","merge"} }
Shared == { NoVal, <<3,1>>, <<6,<<R1,ZeroW>>>>, <<7,<<97>>>>, <<9,<<1,0>>>>, <<11,<<W(1),P31>>>>, <<12,<<R1,R15>>>>, <<14,<<<<97>>,<<>>>>>>, <<15,1,2,<<1,2>>>>, <<18,1,1,<<<<R15,R1>>>>>>,
            LInt, <<TVEC,<<<<7,<<97>>>>,<<12,<<R1>>>>>>>>, <<TMAP,<<<<Ka,<<3,1>>>>>>>>,
            <<TMAP,<<<<Ka,<<TMAP,<<<<Kb,<<5,R15>>>>>>>>>>,<<Kb,LInt>>>>>>, <<TMAP,<<<<B("1#t"),<<10,<<1,2>>>>>>,<<Ka,<<14,<<Ka,Kb>>>>>>>>>> }

(* texts and reports: the specification of their contents is in the other   *)
(* models and is applied when the log is validated; here, they only read    *)
Say == {"to_json","to_yaml","to_toml","dump","types","info"}
Args(e) == IF e[1] \in {"from_json","from_yaml","from_toml"} THEN e[3] \o << <<>> >> ELSE e[3]
Ref(t,s,o) == IF t = Sh THEN s ELSE o
Do(e,s,o) ==    \* operation, shared content, own content -> reply, content after
  IF e[1] \in Say THEN << <<"any">>, Ref(e[2],s,o) >>
  ELSE Apply(e[1],Ref(e[2],s,o),Args(e),IF Len(e) > 3 THEN Ref(e[4],s,o) ELSE NoVal)

Init == sh \in Shared /\ own = [ t \in Th |-> NoVal ] /\ out = [ t \in Th |-> <<>> ] /\ did = [ t \in Th |-> <<>> ]
S(x) == PrintT("S " \o ToJson(x))
Step(t) == Len(did[t]) < Todo[t] /\ \E e \in (IF Len(did[t]) = 0 /\ Todo[t] > 1 THEN Starts ELSE Ops) :
  LET r == TLCEval(Do(e,sh,own[t])) IN
  /\ did' = [did EXCEPT ![t] = Append(@,e)]
  /\ out' = [out EXCEPT ![t] = Append(@,r[1])]
  /\ IF e[2] = Sh THEN sh' = r[2] /\ own' = own ELSE sh' = sh /\ own' = [own EXCEPT ![t] = r[2]]
  \* written once, whatever the order of the operations
  /\ IF t = 2 /\ Len(did[1]) = Todo[1] THEN S(<< <<"par",sh,did'[1],did'[2]>> >>) ELSE TRUE
Next == \E t \in Th : Step(t)
Spec == Init /\ [][Next]_vars
TypeOK == WellFormed(sh) /\ \A t \in Th : WellFormed(own[t]) /\ Len(out[t]) = Len(did[t])

-----------------------------------------------------------------------------
(* what a thread would have got working alone *)
RECURSIVE Alone(_,_)
Alone(es,s) == IF es = <<>> THEN << <<>>, NoVal >>
  ELSE LET p == Alone(SubSeq(es,1,Len(es)-1),s)  e == es[Len(es)]  r == Do(e,s,p[2])
       IN << Append(p[1],r[1]), IF e[2] = Sh THEN p[2] ELSE r[2] >>
(* reading changes nothing, and nobody sees the others                      *)
Laws == [][ /\ sh' = sh
            /\ \A t \in Th : LET a == TLCEval(Alone(did'[t],sh)) IN out'[t] = a[1] /\ own'[t] = a[2]
            /\ \E t \in Th : \A u \in Th \ {t} : own'[u] = own[u] /\ out'[u] = out[u] ]_vars
=============================================================================
