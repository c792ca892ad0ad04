------------------------------ MODULE GCApply ------------------------------
(* One operator for all the operations: content before the call, arguments, *)
(* content of the other operand -> << reply, content after >>.              *)
EXTENDS GCToml, GCLua, GCCif, GCTable, GCMex

(* the operations of the library *)
Apply(op,v,a,o) ==
  CASE op = "init" -> << OkU, a[1] >>
    [] op = "store" -> Store(v,a)        [] op = "storeu" -> StoreU(v,a)
    [] op = "alloc" -> Alloc(v,a)        [] op = "clear" -> ClearOp(v)
    [] op = "free_pointer" -> FreePtr(v) [] op = "shape" -> Shape(v)
    [] op = "type_name" -> LET n == B(TypeNames[K(v)+1]) IN << <<"ok",n,n>>, v >>
    [] op = "getc" -> GetC(v,a)          [] op = "getn" -> GetN(v,a)
    [] op = "ptr" -> Ptr(v,a)            [] op = "as" -> As(v,a)
    [] op = "promote" -> Promote(v,a)
    [] op = "atc" -> AtC(v,a)            [] op = "atn" -> AtN(v,a)
    [] op = "at2c" -> At2C(v,a)          [] op = "at2n" -> At2N(v,a)
    [] op = "number_at" -> NumberAt(v,a) [] op = "cnumber_at" -> CNumberAt(v,a)
    [] op = "idx" -> Idx(v,a)            [] op = "rowcol" -> RowCol(v,a)
    [] op = "ptr_at" -> PtrAt(v,a)
    [] op = "key" -> Key(v,a)            [] op = "keys" -> Keys(v,a)
    [] op = "exists" -> Exists(v,a)      [] op = "existsv" -> ExistsV(v,a)
    [] op = "must" -> MustExist(v,a)     [] op = "get_keys" -> GetKeys(v)
    [] op = "erase" -> Erase(v,a)        [] op = "gie" -> Gie(v,a)
    [] op = "getmap" -> GetMap(v,a)
    [] op \in {"from_gc","to_gc","load","asg","asgc"} -> Assign(v,o)
    [] op = "copyctor" -> << Ok(o), o >>
    [] op = "merge" -> Merge(v,o)        [] op = "compare" -> Compare(v,o)
    [] op = "push" -> Push(v,a)
    [] op = "pushc" -> IF K(o) \in {6,7} THEN Push(v,<<K(o),o[2]>>) ELSE << OkU, v >>
    [] op = "copyto_vec" -> CopyToVec(v,a) [] op = "copyto_mat" -> CopyToMat(v,a)
    [] op = "collapse" -> CollapseOp(v)
    [] op = "ser" -> SerOp(v)            [] op = "serb" -> SerBuf(v,a)
    [] op = "deser" -> Deser(v,a)        [] op = "serde" -> SerDe(v,o)
    [] op = "to_json" -> << <<"any">>, v >>
    [] op = "from_json" -> FromJson(1,v,a) [] op = "from_json2" -> FromJson(2,v,a)
    [] op = "to_yaml" -> << <<"any">>, v >> [] op = "from_yaml" -> FromYaml(v,a)
    [] op = "to_toml" -> << <<"any">>, v >> [] op = "from_toml" -> FromToml(v,a)
    [] op = "dump" -> DumpOp(v,a)        [] op = "types" -> TypesOp(v,a)
    [] op = "info" -> InfoOp(v,a)
    [] op = "mx_in" -> MxInOp(v,a)       [] op = "mx_sparse" -> MxSparseOp(v,a)
    [] op = "mx_out" -> MxOutOp(v)       [] op = "mx_val" -> MxValOp(v)
    [] op = "mx_rt" -> MxTrip(v,o)       [] op = "mx_print" -> MxPrintOp(v,a)
    [] op = "twrite" -> << TWrite(v,a), v >>

(* where the reply is not a function of the content: is this reply right? *)
Judge(op,v,a,r) ==
  CASE op = "to_json" -> ToJsonOk(v,a,r)
    [] op = "to_yaml" -> ToYamlOk(v,a,r)
    [] op = "to_toml" -> ToTomlOk(v,a,r)
    [] OTHER -> TRUE

=============================================================================
