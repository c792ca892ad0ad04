------------------------------ MODULE GCTrace ------------------------------
(* Trace validation: replays a log recorded from the real library and       *)
(* checks every step against the specification.                             *)
(*   i     next line;   R  the containers;   one log line = one step        *)
(*   X     state of the other interfaces (Lua globals, C cursor)            *)
(* A step that the specification does not allow is reported ("BAD") and the *)
(* logged contents are adopted, so that the rest of the trace is checked.   *)
EXTENDS GCApply, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES i, R, X
vars == <<i,R,X>>

Empty == [ s \in 0..3 |-> NoVal ]
X0 == <<>>
Init == i = 1 /\ R = Empty /\ X = X0 /\ TLCSet(1,0)

(* contents allowed besides the one Apply gives *)
Loose(op,v,a,post) ==
  CASE op = "alloc" -> AllocLoose(v,a,post)
    [] op = "deser" -> DeserLoose(v,a,post)
    [] op = "at2n" -> post = v \/ post = At2V(v,a)
    [] op \in {"from_json","from_json2","from_yaml","from_toml","mx_in"} -> WellFormed(post)
    [] OTHER -> FALSE
(* the loose alternatives apply to refused calls (except alloc) and to      *)
(* calls whose outcome is open                                              *)
LooseReply(op,r) == op = "alloc" \/ r[1] = Er \/ r[1] = <<"any">>

ReplyOk(want,got) == want = <<"any">> \/ want = got

-----------------------------------------------------------------------------
RECURSIVE Upd(_,_)
Upd(R0,c) == IF c = <<>> THEN R0 ELSE Upd([R0 EXCEPT ![c[1][1]] = c[1][2]],Tail(c))

Report(x) == PrintT("BAD " \o ToJson(x)) /\ TLCSet(1,TLCGet(1)+1)

StepOk(e,R1) ==  \* R1: logged contents after the step
  LET s == e.t[1]  p == e.t[2] IN
  /\ HasPath(R[s],p)
  /\ LET v == AtPath(R[s],p)
         o == IF "o" \in DOMAIN e THEN AtPath(R[e.o[1]],e.o[2]) ELSE NoVal
         a == IF "x" \in DOMAIN e THEN e.a \o e.x ELSE e.a   \* x: number tables
         r == TLCEval(Apply(e.op,v,a,o))
     IN /\ ReplyOk(r[1],e.r) \/ (PrintT("WANT " \o ToJson(r)) /\ FALSE)
        /\ Judge(e.op,v,a,e.r)
        /\ \/ R1 = [R EXCEPT ![s] = PutPath(R[s],p,r[2])]
           \/ /\ LooseReply(e.op,r) /\ HasPath(R1[s],p)
              /\ R1 = [R EXCEPT ![s] = PutPath(R[s],p,AtPath(R1[s],p))]
              /\ Loose(e.op,v,a,AtPath(R1[s],p))
           \/ (PrintT("WANT " \o ToJson(r)) /\ FALSE)

(* Lua: the target holds an import of the Lua value, everything else as     *)
(* before                                                                   *)
LuaOps == {"lua_set","lua_get","lua_cmd","lua_call","lua_callx","lua_leak"}
LuaWant(e) ==
  LET v == AtPath(R[e.t[1]],e.t[2])
      o == IF "o" \in DOMAIN e THEN AtPath(R[e.o[1]],e.o[2]) ELSE NoVal
  IN LuaStep(e.op,v,e.a,o,X)
LuaOk(e,R1,w) ==
  LET s == e.t[1]  p == e.t[2] IN
  /\ ReplyOk(w[1],e.r) \/ (PrintT("WANT " \o ToJson(w)) /\ FALSE)
  /\ IF w[3] = <<"keep">> THEN R1 = R
     ELSE /\ HasPath(R1[s],p)
          /\ R1 = [R EXCEPT ![s] = PutPath(R[s],p,AtPath(R1[s],p))]
          /\ LuaIn(w[3],AtPath(R1[s],p)) \/ (PrintT("WANT " \o ToJson(w)) /\ FALSE)

(* C interface *)
CifOps == {"c_new","c_ptr","c_delete","c_fill","c_pop","c_reset","c_pushpos","c_pushkey","c_initkey","c_nextkey"} \cup HeadOps \cup ReadOps
CifOk(e,R1,w) ==
  /\ ReplyOk(w[1],e.r) \/ (PrintT("WANT " \o ToJson(w)) /\ FALSE)
  /\ R1 = w[2] \/ CifLoose(w,R1,Loose) \/ (PrintT("WANT " \o ToJson(w)) /\ FALSE)

(* reading a table: the target gets the table, the other one (if any) the   *)
(* parameters                                                               *)
TabOps == {"tread","tread2"}
TabOk(e,R1) ==
  LET s == e.t[1]  p == e.t[2]
      w == TLCEval(TRead(AtPath(R[s],p),e.a \o e.x,e.op = "tread2"))
      two == "o" \in DOMAIN e
      R2 == IF two THEN [R EXCEPT ![e.o[1]] = PutPath(R[e.o[1]],e.o[2],PutPars(AtPath(R[e.o[1]],e.o[2]),w[3]))] ELSE R
  IN /\ ReplyOk(w[1],e.r) \/ (PrintT("WANT " \o ToJson(w)) /\ FALSE)
     /\ IF w[2] = <<"open">>
        THEN HasPath(R1[s],p) /\ WellFormed(R1[s]) /\ R1 = [R2 EXCEPT ![s] = PutPath(R2[s],p,AtPath(R1[s],p))]
        ELSE R1 = [R2 EXCEPT ![s] = PutPath(R2[s],p,w[2])] \/ (PrintT("WANT " \o ToJson(w)) /\ FALSE)

Next ==
  /\ i <= N
  /\ i' = i+1
  /\ LET e == Trace[i] IN
     CASE e.op = "begin" -> R' = Empty /\ X' = X0
       [] e.op = "end" -> UNCHANGED <<R,X>> /\ (IF e.leak = 0 THEN TRUE ELSE Report(<<i,"leak",e.leak>>))
       [] e.op = "crash" -> UNCHANGED <<R,X>> /\ Report(<<i,"crash",e.a>>)
       [] e.op \in LuaOps ->
                   LET R1 == TLCEval(Upd(R,e.c))  w == TLCEval(LuaWant(e)) IN
                   /\ R' = R1 /\ X' = w[2]
                   /\ IF LuaOk(e,R1,w) THEN TRUE ELSE Report(<<i,e.op>>)
       [] e.op \in CifOps ->
                   LET R1 == TLCEval(Upd(R,e.c))
                       w == TLCEval(CifStep(e.op,e.a,R,X,LAMBDA op,v,a : Apply(op,v,a,NoVal))) IN
                   /\ R' = R1 /\ X' = w[3]
                   /\ IF CifOk(e,R1,w) THEN TRUE ELSE Report(<<i,e.op>>)
       [] e.op \in TabOps ->
                   LET R1 == TLCEval(Upd(R,e.c)) IN
                   /\ R' = R1 /\ X' = X
                   /\ IF TabOk(e,R1) THEN TRUE ELSE Report(<<i,e.op>>)
       [] OTHER -> LET R1 == TLCEval(Upd(R,e.c)) IN
                   /\ R' = R1 /\ X' = X
                   /\ IF StepOk(e,R1) THEN TRUE ELSE Report(<<i,e.op>>)
Spec == Init /\ [][Next]_vars

(* every line was consumed and none was rejected *)
Accepted == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter-1))
            /\ TLCGet("stats").diameter - 1 = N
            /\ TLCGet(1) = 0
=============================================================================
