-------------------------------- MODULE Prog --------------------------------
(***************************************************************************)
(* Common parts of the generated programs: host imports, constants, the    *)
(* code that shows memory to the host, and the record that is printed.     *)
(***************************************************************************)
EXTENDS WasmSem, Draw, Json

Pick(seq, x) == seq[(x % Len(seq)) + 1]
C(t, v) == <<ConstOp[t], v>>
I32(n) == <<"i32.const", FromInt(n, 4)>>
Rep(s, k) == [i \in 1..k |-> s]
StoreOpT(t) == CASE t = "i32" -> "i32.store" [] t = "i64" -> "i64.store" [] t = "f32" -> "f32.store" [] OTHER -> "f64.store"
LoadOpT(t) == CASE t = "i32" -> "i32.load" [] t = "i64" -> "i64.load" [] t = "f32" -> "f32.load" [] OTHER -> "f64.load"

NImp == 2                      \* fd_write, sched_yield
Imps == <<"fd_write", "sched_yield">>
ISigs == <<<<<<"i32", "i32", "i32", "i32">>, <<"i32">>>>, <<<<>>, <<"i32">>>>>>
(* write memory [from, from+len) to stdout; the I/O area is 2048..2063 *)
DumpRange(from, len) ==
  <<I32(2048), I32(from), <<"i32.store", 0>>, I32(2048), I32(len), <<"i32.store", 4>>,
    I32(1), I32(2048), I32(1), I32(2056), <<"call", 0>>, <<"drop">>>>
IdFn(t) == Fn(<<<<t>>, <<t>>>>, <<>>, <<<<"local.get", 0>>>>)

NoVm == [s |-> "none"]
Decided(vm) == vm.s \in {"done", "trap"}
Report(tag, P, vm) == [prof |-> tag, prog |-> P, s |-> vm.s, n |-> vm.n, hc |-> vm.hc, out |-> vm.out, res |-> vm.res]

(* ---- edge values ---------------------------------------------------------*)
I32V == <<<<0,0,0,0>>, <<1,0,0,0>>, <<255,255,255,255>>, <<0,0,0,128>>, <<255,255,255,127>>,
          <<2,0,0,0>>, <<7,0,0,0>>, <<31,0,0,0>>, <<32,0,0,0>>, <<33,0,0,0>>, <<128,0,0,0>>,
          <<0,128,0,0>>, <<0,0,1,0>>, <<254,255,255,255>>, <<200,155,7,244>>, <<120,86,52,18>>>>
I64V == <<Zero(8), One(8), Ones(8), MinS(8), WNot(MinS(8)), <<0,0,0,0,1,0,0,0>>,
          <<255,255,255,255,0,0,0,0>>, <<0,0,0,128,0,0,0,0>>, <<255,255,255,127,0,0,0,0>>,
          <<63,0,0,0,0,0,0,0>>, <<64,0,0,0,0,0,0,0>>, <<33,0,0,0,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>,
          <<0,128,0,0,0,0,0,0>>, <<0,0,0,128,255,255,255,255>>, <<1,2,3,4,5,6,7,8>>,
          <<200,155,7,244,0,1,99,201>>, <<254,255,255,255,255,255,255,255>>>>
F32V == <<<<0,0,0,0>>, <<0,0,0,128>>, <<1,0,0,0>>, <<1,0,0,128>>, <<255,255,127,0>>, <<0,0,128,0>>,
          <<0,0,128,63>>, <<0,0,128,191>>, <<219,15,73,64>>, <<255,255,127,127>>, <<255,255,127,255>>,
          <<0,0,128,127>>, <<0,0,128,255>>, <<0,0,192,127>>, <<1,0,160,127>>, <<0,0,192,255>>,
          <<0,0,0,63>>, <<0,0,0,191>>, <<0,0,192,63>>, <<0,0,32,64>>, <<0,0,96,192>>, <<255,255,255,62>>,
          <<205,204,204,61>>, <<1,0,128,51>>, <<0,0,0,75>>, <<1,0,128,75>>>>
F64V == <<Zero(8), MinS(8), <<1,0,0,0,0,0,0,0>>, <<1,0,0,0,0,0,0,128>>, <<255,255,255,255,255,255,15,0>>,
          <<0,0,0,0,0,0,16,0>>, <<0,0,0,0,0,0,240,63>>, <<0,0,0,0,0,0,240,191>>, <<24,45,68,84,251,33,9,64>>,
          <<255,255,255,255,255,255,239,127>>, <<255,255,255,255,255,255,239,255>>,
          <<0,0,0,0,0,0,240,127>>, <<0,0,0,0,0,0,240,255>>, <<0,0,0,0,0,0,248,127>>,
          <<1,0,0,0,0,0,244,127>>, <<0,0,0,0,0,0,248,255>>, <<0,0,0,0,0,0,224,63>>, <<0,0,0,0,0,0,224,191>>,
          <<0,0,0,0,0,0,248,63>>, <<0,0,0,0,0,0,4,64>>, <<0,0,0,0,0,0,12,192>>,
          <<255,255,255,255,255,255,223,63>>, <<154,153,153,153,153,153,185,63>>,
          <<1,0,0,0,0,0,176,60>>, <<0,0,0,0,0,0,48,67>>, <<1,0,0,0,0,0,64,67>>>>
(* around the borders of the integer ranges, for the conversions *)
F32B == <<<<0,0,0,79>>, <<0,0,0,207>>, <<1,0,0,207>>, <<255,255,255,78>>, <<0,0,128,79>>, <<255,255,127,79>>,
          <<0,0,0,95>>, <<0,0,0,223>>, <<1,0,0,223>>, <<255,255,255,94>>, <<0,0,128,95>>, <<255,255,127,95>>,
          <<102,102,102,191>>, <<255,255,127,191>>, <<0,0,128,75>>, <<205,204,246,194>>, <<0,0,127,67>>>>
F64B == <<<<0,0,0,0,0,0,224,65>>, <<0,0,192,255,255,255,223,65>>, <<0,0,0,0,0,0,224,193>>,
          <<0,0,0,0,0,0,240,65>>, <<0,0,224,255,255,255,239,65>>, <<255,255,255,255,255,255,239,65>>,
          <<255,255,31,0,0,0,224,193>>, <<0,0,32,0,0,0,224,193>>, <<0,0,0,0,0,0,224,67>>,
          <<0,0,0,0,0,0,224,195>>, <<1,0,0,0,0,0,224,195>>, <<255,255,255,255,255,255,223,67>>,
          <<0,0,0,0,0,0,240,67>>, <<255,255,255,255,255,255,239,67>>, <<205,204,204,204,204,204,236,191>>,
          <<255,255,255,255,255,255,239,191>>, <<0,0,0,224,255,255,239,71>>, <<0,0,0,240,255,255,239,71>>,
          <<0,0,0,0,0,0,80,54>>, <<1,0,0,0,0,0,160,54>>, <<0,0,0,0,0,0,16,56>>, <<255,255,255,223,255,255,15,56>>>>
EdgeV == [t \in NumTypes |-> CASE t = "i32" -> I32V [] t = "i64" -> I64V [] t = "f32" -> F32V [] OTHER -> F64V]
(* an arbitrary value: bytes from the draw; floats get a moderate exponent half the time *)
Arb(t, x, y) ==
  LET b == [i \in 1..Size[t] |-> ((IF i % 2 = 0 THEN x ELSE y) \div (1 + i * i)) % 256]
  IN IF t = "f32" /\ x % 2 = 0 THEN [b EXCEPT ![4] = (IF y % 2 = 0 THEN 62 ELSE 190) + ((x \div 2) % 4)]
     ELSE IF t = "f64" /\ x % 2 = 0 THEN [b EXCEPT ![8] = IF y % 2 = 0 THEN 64 ELSE 191]
     ELSE b
=============================================================================
