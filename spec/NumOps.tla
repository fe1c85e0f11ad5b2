------------------------------- MODULE NumOps -------------------------------
(***************************************************************************)
(* The numeric instructions of WebAssembly: which exist, their types and   *)
(* their value functions.  Values are little-endian bit patterns (Word,    *)
(* Float); Apply returns <<"ok", value>> or <<"trap">>.                    *)
(***************************************************************************)
EXTENDS Float, TLC

IBin == {"add", "sub", "mul", "div_s", "div_u", "rem_s", "rem_u", "and", "or", "xor",
         "shl", "shr_s", "shr_u", "rotl", "rotr"}
IRel == {"eq", "ne", "lt_s", "lt_u", "gt_s", "gt_u", "le_s", "le_u", "ge_s", "ge_u"}
IUn  == {"clz", "ctz", "popcnt", "extend8_s", "extend16_s"}
FBin == {"add", "sub", "mul", "div", "min", "max", "copysign"}
FRel == {"eq", "ne", "lt", "gt", "le", "ge"}
FUn  == {"abs", "neg", "ceil", "floor", "trunc", "nearest", "sqrt"}

I32Bin == {"i32." \o o : o \in IBin}   I64Bin == {"i64." \o o : o \in IBin}
I32Rel == {"i32." \o o : o \in IRel}   I64Rel == {"i64." \o o : o \in IRel}
I32Un  == {"i32." \o o : o \in IUn}    I64Un  == {"i64." \o o : o \in IUn \cup {"extend32_s"}}
F32Bin == {"f32." \o o : o \in FBin}   F64Bin == {"f64." \o o : o \in FBin}
F32Rel == {"f32." \o o : o \in FRel}   F64Rel == {"f64." \o o : o \in FRel}
F32Un  == {"f32." \o o : o \in FUn}    F64Un  == {"f64." \o o : o \in FUn}
Cvt == {"i32.wrap_i64", "i64.extend_i32_s", "i64.extend_i32_u",
        "i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u",
        "i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s", "i64.trunc_f64_u",
        "i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u",
        "i64.trunc_sat_f32_s", "i64.trunc_sat_f32_u", "i64.trunc_sat_f64_s", "i64.trunc_sat_f64_u",
        "f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s", "f32.convert_i64_u",
        "f64.convert_i32_s", "f64.convert_i32_u", "f64.convert_i64_s", "f64.convert_i64_u",
        "f32.demote_f64", "f64.promote_f32",
        "i32.reinterpret_f32", "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64"}
Eqz == {"i32.eqz", "i64.eqz"}

NumTypes == {"i32", "i64", "f32", "f64"}
Size == [t \in NumTypes |-> IF t \in {"i32", "f32"} THEN 4 ELSE 8]
IsFloat(t) == t \in {"f32", "f64"}

BinOps == [t \in NumTypes |-> CASE t = "i32" -> I32Bin [] t = "i64" -> I64Bin
                                [] t = "f32" -> F32Bin [] OTHER -> F64Bin]
RelOps == [t \in NumTypes |-> CASE t = "i32" -> I32Rel [] t = "i64" -> I64Rel
                                [] t = "f32" -> F32Rel [] OTHER -> F64Rel]
UnOps  == [t \in NumTypes |-> CASE t = "i32" -> I32Un [] t = "i64" -> I64Un
                                [] t = "f32" -> F32Un [] OTHER -> F64Un]
CvtSrc(o) == CASE o \in {"i32.wrap_i64", "f32.convert_i64_s", "f32.convert_i64_u",
                         "f64.convert_i64_s", "f64.convert_i64_u", "f64.reinterpret_i64"} -> "i64"
               [] o \in {"i64.extend_i32_s", "i64.extend_i32_u", "f32.convert_i32_s",
                         "f32.convert_i32_u", "f64.convert_i32_s", "f64.convert_i32_u",
                         "f32.reinterpret_i32"} -> "i32"
               [] o \in {"i32.trunc_f32_s", "i32.trunc_f32_u", "i64.trunc_f32_s", "i64.trunc_f32_u",
                         "i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i64.trunc_sat_f32_s",
                         "i64.trunc_sat_f32_u", "f64.promote_f32", "i32.reinterpret_f32"} -> "f32"
               [] OTHER -> "f64"
(* the result type is the prefix of the mnemonic *)
T32i == {"i32." \o o : o \in IBin \cup IUn}
    \cup {o \in Cvt : o \in {"i32.wrap_i64", "i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s",
          "i32.trunc_f64_u", "i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s",
          "i32.trunc_sat_f64_u", "i32.reinterpret_f32"}}
CvtDst == [o \in Cvt |->
   CASE o \in T32i -> "i32"
     [] o \in {"f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s", "f32.convert_i64_u",
               "f32.demote_f64", "f32.reinterpret_i32"} -> "f32"
     [] o \in {"f64.convert_i32_s", "f64.convert_i32_u", "f64.convert_i64_s", "f64.convert_i64_u",
               "f64.promote_f32", "f64.reinterpret_i64"} -> "f64"
     [] OTHER -> "i64"]
CvtOps == [t \in NumTypes |-> {o \in Cvt : CvtSrc(o) = t}]

BinAll == I32Bin \cup I64Bin \cup F32Bin \cup F64Bin
RelAll == I32Rel \cup I64Rel \cup F32Rel \cup F64Rel
UnAll  == I32Un \cup I64Un \cup F32Un \cup F64Un
NumInstr == BinAll \cup RelAll \cup UnAll \cup Cvt \cup Eqz

(* signature: operand types (in stack order) and result type *)
Sig == [o \in NumInstr |->
   CASE o \in I32Bin -> <<<<"i32", "i32">>, "i32">> [] o \in I64Bin -> <<<<"i64", "i64">>, "i64">>
     [] o \in F32Bin -> <<<<"f32", "f32">>, "f32">> [] o \in F64Bin -> <<<<"f64", "f64">>, "f64">>
     [] o \in I32Rel -> <<<<"i32", "i32">>, "i32">> [] o \in I64Rel -> <<<<"i64", "i64">>, "i32">>
     [] o \in F32Rel -> <<<<"f32", "f32">>, "i32">> [] o \in F64Rel -> <<<<"f64", "f64">>, "i32">>
     [] o \in I32Un -> <<<<"i32">>, "i32">> [] o \in I64Un -> <<<<"i64">>, "i64">>
     [] o \in F32Un -> <<<<"f32">>, "f32">> [] o \in F64Un -> <<<<"f64">>, "f64">>
     [] o = "i32.eqz" -> <<<<"i32">>, "i32">> [] o = "i64.eqz" -> <<<<"i64">>, "i32">>
     [] OTHER -> <<<<CvtSrc(o)>>, CvtDst[o]>>]

(* short name of an instruction without its type prefix, for the shared tables *)
Short == [o \in NumInstr |->
   IF o \in BinAll THEN CHOOSE s \in IBin \cup FBin : \E t \in NumTypes : t \o "." \o s = o
   ELSE IF o \in RelAll THEN CHOOSE s \in IRel \cup FRel : \E t \in NumTypes : t \o "." \o s = o
   ELSE IF o \in UnAll THEN CHOOSE s \in IUn \cup FUn \cup {"extend32_s"} :
                                     \E t \in NumTypes : t \o "." \o s = o
   ELSE o]

IBinVal(s, a, b) ==
  CASE s = "add" -> Add(a, b) [] s = "sub" -> Sub(a, b) [] s = "mul" -> Mul(a, b)
    [] s = "div_s" -> DivS(a, b) [] s = "div_u" -> DivU(a, b)
    [] s = "rem_s" -> RemS(a, b) [] s = "rem_u" -> RemU(a, b)
    [] s = "and" -> WAnd(a, b) [] s = "or" -> WOr(a, b) [] s = "xor" -> WXor(a, b)
    [] s = "shl" -> Shl(a, b) [] s = "shr_s" -> ShrS(a, b) [] s = "shr_u" -> ShrU(a, b)
    [] s = "rotl" -> Rotl(a, b) [] s = "rotr" -> Rotr(a, b)
IBinTraps(s, a, b) ==
  \/ s \in {"div_s", "div_u", "rem_s", "rem_u"} /\ IsZero(b)
  \/ s = "div_s" /\ a = MinS(Len(a)) /\ b = Ones(Len(a))
IRelVal(s, a, b) ==
  CASE s = "eq" -> a = b [] s = "ne" -> a # b
    [] s = "lt_s" -> LtS(a, b) [] s = "lt_u" -> LtU(a, b)
    [] s = "gt_s" -> LtS(b, a) [] s = "gt_u" -> LtU(b, a)
    [] s = "le_s" -> ~LtS(b, a) [] s = "le_u" -> ~LtU(b, a)
    [] s = "ge_s" -> ~LtS(a, b) [] s = "ge_u" -> ~LtU(a, b)
IUnVal(s, a) ==
  CASE s = "clz" -> Clz(a) [] s = "ctz" -> Ctz(a) [] s = "popcnt" -> Popcnt(a)
    [] s = "extend8_s" -> SignExt(a, 1) [] s = "extend16_s" -> SignExt(a, 2)
    [] s = "extend32_s" -> SignExt(a, 4)
FBinVal(s, a, b) ==
  CASE s = "add" -> FAdd(a, b) [] s = "sub" -> FSub(a, b) [] s = "mul" -> FMul(a, b)
    [] s = "div" -> FDiv(a, b) [] s = "min" -> FMin(a, b) [] s = "max" -> FMax(a, b)
    [] s = "copysign" -> IF Marked(a) THEN a ELSE WithSign(a, Sgn(b))
FRelVal(s, a, b) ==
  CASE s = "eq" -> FEq(a, b) [] s = "ne" -> FNe(a, b) [] s = "lt" -> FLt(a, b)
    [] s = "gt" -> FLt(b, a) [] s = "le" -> FLe(a, b) [] s = "ge" -> FLe(b, a)
FUnVal(s, a) ==
  CASE s = "abs" -> FAbs(a) [] s = "neg" -> FNegF(a) [] s = "sqrt" -> FSqrt(a)
    [] OTHER -> FRound(a, s)
TruncOps == {"i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u",
             "i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s", "i64.trunc_f64_u"}
SignedOps == {"i64.extend_i32_s",
  "i32.trunc_f32_s", "i32.trunc_f64_s", "i64.trunc_f32_s", "i64.trunc_f64_s",
  "i32.trunc_sat_f32_s", "i32.trunc_sat_f64_s", "i64.trunc_sat_f32_s", "i64.trunc_sat_f64_s",
  "f32.convert_i32_s", "f32.convert_i64_s", "f64.convert_i32_s", "f64.convert_i64_s"}
SatOps == {"i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u",
           "i64.trunc_sat_f32_s", "i64.trunc_sat_f32_u", "i64.trunc_sat_f64_s", "i64.trunc_sat_f64_u"}
ConvOps == {"f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s", "f32.convert_i64_u",
            "f64.convert_i32_s", "f64.convert_i32_u", "f64.convert_i64_s", "f64.convert_i64_u"}
CvtVal(o, a) ==
  CASE o = "i32.wrap_i64" -> Take(a, 4)
    [] o = "i64.extend_i32_s" -> ExtS(a, 8) [] o = "i64.extend_i32_u" -> ExtU(a, 8)
    [] o \in TruncOps -> TruncVal(a, Size[CvtDst[o]])
    [] o \in SatOps -> TruncSat(a, Size[CvtDst[o]], o \in SignedOps)
    [] o \in ConvOps -> ConvertInt(a, Size[CvtDst[o]], o \in SignedOps)
    [] o = "f32.demote_f64" -> Resize(a, 4) [] o = "f64.promote_f32" -> Resize(a, 8)
    [] OTHER -> a                                                 \* reinterpret

Traps(o, args) ==
  IF o \in I32Bin \/ o \in I64Bin THEN IBinTraps(Short[o], args[1], args[2])
  ELSE IF o \in TruncOps THEN ~TruncOk(args[1], Size[CvtDst[o]], o \in SignedOps)
  ELSE FALSE
Value(o, args) ==
  CASE o \in I32Bin \/ o \in I64Bin -> IBinVal(Short[o], args[1], args[2])
    [] o \in I32Rel \/ o \in I64Rel -> Bool(IRelVal(Short[o], args[1], args[2]))
    [] o \in I32Un \/ o \in I64Un   -> IUnVal(Short[o], args[1])
    [] o \in Eqz                    -> Bool(IsZero(args[1]))
    [] o \in F32Bin \/ o \in F64Bin -> FBinVal(Short[o], args[1], args[2])
    [] o \in F32Rel \/ o \in F64Rel -> Bool(FRelVal(Short[o], args[1], args[2]))
    [] o \in F32Un \/ o \in F64Un   -> FUnVal(Short[o], args[1])
    [] OTHER                        -> CvtVal(o, args[1])
(* does the instruction expose bits the specification leaves open? *)
Opaque(o, args) == \/ o \in {"i32.reinterpret_f32", "i64.reinterpret_f64"} /\ Marked(args[1])
                   \/ o \in {"f32.copysign", "f64.copysign"} /\ Marked(args[2])
=============================================================================
