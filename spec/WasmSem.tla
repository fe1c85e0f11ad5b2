------------------------------ MODULE WasmSem -------------------------------
(***************************************************************************)
(* The WebAssembly virtual machine chiwawa implements, as a state machine: *)
(* `Boot(P)` is the instantiated machine of program P and `Step(P, vm)`    *)
(* executes exactly one instruction.  Everything the guest can observe is  *)
(* in the machine: operands, labels, frames, globals, memory, tables,      *)
(* dropped segments and the output passed to the host.                     *)
(*                                                                         *)
(* P is a record                                                           *)
(*   imps    names of imported host functions, with their types in isigs   *)
(*   funcs   [sig |-> <<params, results>>, loc |-> types, code, lk]        *)
(*   globals [t, init]  (init a value)                                     *)
(*   mem     <<min, max>> pages (max < 0: none)                            *)
(*   tables  [t, min, max];  elems [tab, off, fs];  datas [off, b]         *)
(*           (off < 0: passive)                                            *)
(*   start   function index or -1;  main  index of the exported function   *)
(*   args    its arguments                                                 *)
(* Function indices count imports first, from 0, as in the binary format.  *)
(***************************************************************************)
EXTENDS NumOps

NullRef  == <<-1>>
RefTypes == {"funcref", "externref"}
Default(t) == IF t \in RefTypes THEN NullRef ELSE Zero(Size[t])

(* instruction classes ----------------------------------------------------*)
Loads == {"i32.load", "i64.load", "f32.load", "f64.load", "i32.load8_s", "i32.load8_u",
          "i32.load16_s", "i32.load16_u", "i64.load8_s", "i64.load8_u", "i64.load16_s",
          "i64.load16_u", "i64.load32_s", "i64.load32_u"}
Stores == {"i32.store", "i64.store", "f32.store", "f64.store", "i32.store8", "i32.store16",
           "i64.store8", "i64.store16", "i64.store32"}
MemOps == Loads \cup Stores
Width == [o \in MemOps |->
   CASE o \in {"i32.load8_s", "i32.load8_u", "i64.load8_s", "i64.load8_u", "i32.store8", "i64.store8"} -> 1
     [] o \in {"i32.load16_s", "i32.load16_u", "i64.load16_s", "i64.load16_u", "i32.store16", "i64.store16"} -> 2
     [] o \in {"i32.load", "f32.load", "i64.load32_s", "i64.load32_u", "i32.store", "f32.store", "i64.store32"} -> 4
     [] OTHER -> 8]
MemT == [o \in MemOps |->
   CASE o \in {"f32.load", "f32.store"} -> "f32" [] o \in {"f64.load", "f64.store"} -> "f64"
     [] o \in {"i32.load", "i32.load8_s", "i32.load8_u", "i32.load16_s", "i32.load16_u",
               "i32.store", "i32.store8", "i32.store16"} -> "i32"
     [] OTHER -> "i64"]
SignedLoads == {"i32.load8_s", "i32.load16_s", "i64.load8_s", "i64.load16_s", "i64.load32_s"}
Consts == {"i32.const", "i64.const", "f32.const", "f64.const"}
Plain  == {"local.get", "local.set", "local.tee", "global.get", "global.set", "memory.size",
           "memory.grow", "memory.copy", "memory.fill", "memory.init", "data.drop", "block",
           "loop", "if", "else", "end", "br", "br_if", "br_table", "return", "call",
           "call_indirect", "drop", "select", "select_t", "nop", "unreachable", "ref.null",
           "ref.is_null", "table.get", "table.set", "table.fill"}
Kind == [o \in Plain \cup Consts \cup MemOps \cup NumInstr |->
   IF o \in NumInstr THEN "num" ELSE IF o \in Loads THEN "load" ELSE IF o \in Stores THEN "store"
   ELSE IF o \in Consts THEN "const" ELSE o]
ConstOp == [t \in NumTypes |-> CASE t = "i32" -> "i32.const" [] t = "i64" -> "i64.const"
                                 [] t = "f32" -> "f32.const" [] OTHER -> "f64.const"]
Arity == [o \in NumInstr |-> Len(Sig[o][1])]

(* matching else/end positions, for every position of a function body -----*)
Link(code) ==
  FoldLeft(LAMBDA acc, i :
     LET k == code[i][1]
     IN CASE k \in {"block", "loop", "if"} -> <<Append(acc[1], <<i, 0>>), acc[2]>>
          [] k = "else" -> LET t == acc[1][Len(acc[1])]
                           IN <<[acc[1] EXCEPT ![Len(acc[1])] = <<t[1], i>>],
                                [acc[2] EXCEPT ![t[1]] = <<i, 0>>]>>
          [] k = "end" -> LET t  == acc[1][Len(acc[1])]
                              l1 == [acc[2] EXCEPT ![t[1]] = <<@[1], i>>]
                          IN <<SubSeq(acc[1], 1, Len(acc[1]) - 1),
                               IF t[2] = 0 THEN l1 ELSE [l1 EXCEPT ![t[2]] = <<0, i>>]>>
          [] OTHER -> acc,
     <<<<>>, [i \in 1..Len(code) |-> <<0, 0>>]>>, [i \in 1..Len(code) |-> i])[2]
Fn(sig, loc, code) == [sig |-> sig, loc |-> loc, code |-> code, lk |-> Link(code)]

(* memory: a sparse function from addresses to bytes -----------------------*)
PageSize == 65536
MByte(m, a) == IF a \in DOMAIN m THEN m[a] ELSE 0
MRead(m, a, n) == [i \in 1..n |-> MByte(m, a + i - 1)]
MWrite(m, a, b) == IF Len(b) = 0 THEN m
                   ELSE IF \A i \in 1..Len(b) : (a + i - 1) \in DOMAIN m
                   THEN FoldLeft(LAMBDA acc, i : [acc EXCEPT ![a + i - 1] = b[i]], m, [i \in 1..Len(b) |-> i])
                   ELSE [x \in (a .. a + Len(b) - 1) |-> b[x - a + 1]] @@ m
(* effective address; -1 when it is beyond anything the programs use        *)
Small(w) == w[4] = 0                                   \* < 2^24
EA(w, off) == IF Small(w) /\ off < 16777216 THEN ToNat(w) + off ELSE -1
InMem(vm, a, n) == a >= 0 /\ a + n <= vm.pages * PageSize
HasMark(b) == \E i \in DOMAIN b : b[i] > 255

(* stack helpers -----------------------------------------------------------*)
Top(s) == s[Len(s)]
Pop(s, k) == SubSeq(s, 1, Len(s) - k)
TopN(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))

End(vm, s) == [vm EXCEPT !.s = s]
Trap(vm) == End(vm, "trap")
Discard(vm) == End(vm, "discard")       \* outside what the specification decides
Push(vm, st, v) == [vm EXCEPT !.st = Append(st, v), !.pc = @ + 1]
Keep(vm, st) == [vm EXCEPT !.st = st, !.pc = @ + 1]

FSig(P, fi) == IF fi < Len(P.imps) THEN P.isigs[fi + 1] ELSE P.funcs[fi + 1 - Len(P.imps)].sig
FBody(P, fi) == P.funcs[fi + 1 - Len(P.imps)]

Return(P, vm, vals) ==
  IF vm.fr = <<>> THEN [vm EXCEPT !.s = "done", !.res = vals]
  ELSE LET f == Top(vm.fr)
       IN [vm EXCEPT !.f = f[1], !.pc = f[2], !.st = f[3] \o vals, !.lab = f[4], !.loc = f[5],
                     !.fr = Pop(vm.fr, 1)]

(* the host functions the generated programs import: fd_write on stdout and
   sched_yield.  Output is a sequence of written pieces.                     *)
OutPiece(vm, a, n) ==
  IF n <= 64 THEN [b |-> MRead(vm.m, a, n)] ELSE [a |-> a, n |-> n, m |-> vm.m]
HostCall(P, vm, name, args, rest) ==
  CASE name = "sched_yield" -> Push([vm EXCEPT !.hc = @ + 1], rest, Zero(4))
    [] name = "fd_write" ->
         IF ~(Small(args[2]) /\ Small(args[3]) /\ Small(args[4])) THEN Discard(vm)
         ELSE LET n == ToNat(args[3])  ip == ToNat(args[2])  nw == ToNat(args[4])
                  iov(i) == <<MRead(vm.m, ip + 8 * i, 4), MRead(vm.m, ip + 8 * i + 4, 4)>>
                  ok == /\ args[1] = One(4) /\ n \in 1..4
                        /\ InMem(vm, ip, 8 * n) /\ InMem(vm, nw, 4)
                        /\ \A i \in 0..(n - 1) : /\ ~HasMark(iov(i)[1]) /\ ~HasMark(iov(i)[2])
                                                 /\ Small(iov(i)[1]) /\ Small(iov(i)[2])
                                                 /\ InMem(vm, ToNat(iov(i)[1]), ToNat(iov(i)[2]))
              IN IF ~ok THEN Discard(vm)
                 ELSE LET ps == [i \in 1..n |-> OutPiece(vm, ToNat(iov(i - 1)[1]), ToNat(iov(i - 1)[2]))]
                          tot == FoldLeft(LAMBDA acc, i : acc + ToNat(iov(i - 1)[2]), 0, [i \in 1..n |-> i])
                      IN Push([vm EXCEPT !.out = @ \o ps, !.m = MWrite(@, nw, FromNat(tot, 4)),
                                         !.hc = @ + 1], rest, Zero(4))
    [] OTHER -> Discard(vm)

DepthOf(P) == IF "depth" \in DOMAIN P THEN P.depth ELSE 200
Invoke(P, vm, fi, rest, args) ==
  IF fi < Len(P.imps) THEN HostCall(P, vm, P.imps[fi + 1], args, rest)
  ELSE IF Len(vm.fr) >= DepthOf(P) THEN Discard(vm)
  ELSE LET b == FBody(P, fi)
       IN [vm EXCEPT !.fr = Append(@, <<vm.f, vm.pc + 1, rest, vm.lab, vm.loc>>),
                     !.f = fi, !.pc = 1, !.st = <<>>, !.lab = <<>>,
                     !.loc = args \o [i \in DOMAIN b.loc |-> Default(b.loc[i])]]
Call(P, vm, fi, st) == LET k == Len(FSig(P, fi)[1]) IN Invoke(P, vm, fi, Pop(st, k), TopN(st, k))

(* labels: <<arity, height, continuation, is loop>> ------------------------*)
Branch(P, vm, l, st) ==
  IF l = Len(vm.lab) THEN Return(P, vm, TopN(st, Len(FSig(P, vm.f)[2])))
  ELSE LET t == vm.lab[Len(vm.lab) - l]
       IN [vm EXCEPT !.st = SubSeq(st, 1, t[2]) \o TopN(st, t[1]), !.pc = t[3],
                     !.lab = IF t[4] THEN Pop(@, l) ELSE Pop(@, l + 1)]
Enter(vm, st, bt, cont, isLoop) ==
  [vm EXCEPT !.st = st, !.pc = @ + 1,
             !.lab = Append(@, <<IF isLoop THEN Len(bt[1]) ELSE Len(bt[2]),
                                 Len(st) - Len(bt[1]), cont, isLoop>>)]

TabSlot(vm, t, w) == IF Fits(w) /\ ToNat(w) < Len(vm.tab[t + 1]) THEN ToNat(w) + 1 ELSE 0

(* linear-memory width of a value after a store, and of a load's result ----*)
LoadVal(o, b) ==
  LET t == MemT[o] n == Size[t]
  IN IF ~HasMark(b) THEN IF o \in SignedLoads THEN ExtS(b, n) ELSE ExtU(b, n)
     ELSE b
LoadOk(o, b) == ~HasMark(b) \/ (IsFloat(MemT[o]) /\ b = NaN(Size[MemT[o]]))

(* one instruction ----------------------------------------------------------*)
Exec(P, vm, fn, ins) ==
  LET o == ins[1]  k == Kind[o]  st == vm.st
  IN
  CASE k = "local.get" -> Push(vm, st, vm.loc[ins[2] + 1])
    [] k = "const" -> Push(vm, st, ins[2])
    [] k = "num" ->
         LET n == Arity[o]  a == TopN(st, n)
         IN IF Opaque(o, a) THEN Discard(vm)
            ELSE IF Traps(o, a) THEN Trap(vm) ELSE Push(vm, Pop(st, n), Value(o, a))
    [] k = "local.set" -> [vm EXCEPT !.loc[ins[2] + 1] = Top(st), !.st = Pop(st, 1), !.pc = @ + 1]
    [] k = "local.tee" -> [vm EXCEPT !.loc[ins[2] + 1] = Top(st), !.pc = @ + 1]
    [] k = "global.get" -> Push(vm, st, vm.g[ins[2] + 1])
    [] k = "global.set" -> [vm EXCEPT !.g[ins[2] + 1] = Top(st), !.st = Pop(st, 1), !.pc = @ + 1]
    [] k = "load" ->
         LET a == EA(Top(st), ins[2])  w == Width[o]
         IN IF ~InMem(vm, a, w) THEN Discard(vm)
            ELSE LET b == MRead(vm.m, a, w)
                 IN IF LoadOk(o, b) THEN Push(vm, Pop(st, 1), LoadVal(o, b)) ELSE Discard(vm)
    [] k = "store" ->
         LET a == EA(st[Len(st) - 1], ins[2])  w == Width[o]
         IN IF ~InMem(vm, a, w) THEN Discard(vm)
            ELSE Keep([vm EXCEPT !.m = MWrite(@, a, SubSeq(Top(st), 1, w))], Pop(st, 2))
    [] k = "block" -> Enter(vm, st, ins[2], fn.lk[vm.pc][2] + 1, FALSE)
    [] k = "loop"  -> Enter(vm, st, ins[2], vm.pc + 1, TRUE)
    [] k = "if" ->
         LET c == ~IsZero(Top(st))  s1 == Pop(st, 1)  l == fn.lk[vm.pc]
         IN IF c THEN Enter(vm, s1, ins[2], l[2] + 1, FALSE)
            ELSE IF l[1] = 0 THEN [vm EXCEPT !.st = s1, !.pc = l[2] + 1]
            ELSE [Enter(vm, s1, ins[2], l[2] + 1, FALSE) EXCEPT !.pc = l[1] + 1]
    [] k = "else" -> [vm EXCEPT !.pc = fn.lk[vm.pc][2]]          \* to the matching end
    [] k = "end"  -> [vm EXCEPT !.lab = Pop(@, 1), !.pc = @ + 1]
    [] k = "br" -> Branch(P, vm, ins[2], st)
    [] k = "br_if" -> IF IsZero(Top(st)) THEN Keep(vm, Pop(st, 1)) ELSE Branch(P, vm, ins[2], Pop(st, 1))
    [] k = "br_table" ->
         LET w == Top(st)
             l == IF Fits(w) /\ ToNat(w) < Len(ins[2]) THEN ins[2][ToNat(w) + 1] ELSE ins[3]
         IN Branch(P, vm, l, Pop(st, 1))
    [] k = "return" -> Return(P, vm, TopN(st, Len(fn.sig[2])))
    [] k = "call" -> Call(P, vm, ins[2], st)
    [] k = "call_indirect" ->
         LET i == TabSlot(vm, ins[3], Top(st))
         IN IF i = 0 THEN Trap(vm)
            ELSE LET r == vm.tab[ins[3] + 1][i]
                 IN IF r < 0 THEN Trap(vm)
                    ELSE IF FSig(P, r) # ins[2] THEN Trap(vm)
                    ELSE Call(P, vm, r, Pop(st, 1))
    [] k = "drop" -> Keep(vm, Pop(st, 1))
    [] k \in {"select", "select_t"} ->
         LET n == Len(st) IN Push(vm, Pop(st, 3), IF IsZero(st[n]) THEN st[n - 1] ELSE st[n - 2])
    [] k = "nop" -> Keep(vm, st)
    [] k = "unreachable" -> Trap(vm)
    [] k = "ref.null" -> Push(vm, st, NullRef)
    [] k = "ref.is_null" -> Push(vm, Pop(st, 1), Bool(Top(st) = NullRef))
    [] k = "table.get" ->
         LET i == TabSlot(vm, ins[2], Top(st))
         IN IF i = 0 THEN Trap(vm) ELSE Push(vm, Pop(st, 1), <<vm.tab[ins[2] + 1][i]>>)
    [] k = "table.set" ->
         LET i == TabSlot(vm, ins[2], st[Len(st) - 1])
         IN IF i = 0 THEN Trap(vm)
            ELSE Keep([vm EXCEPT !.tab[ins[2] + 1][i] = Top(st)[1]], Pop(st, 2))
    [] k = "table.fill" ->
         LET n == Len(st)  t == ins[2] + 1  sz == Len(vm.tab[t])
         IN IF ~Fits(st[n]) \/ ~Fits(st[n - 2]) THEN Trap(vm)
            ELSE LET i == ToNat(st[n - 2])  c == ToNat(st[n])
                 IN IF i > sz \/ c > sz - i THEN Trap(vm)
                    ELSE Keep([vm EXCEPT !.tab[t] =
                                 [x \in 1..sz |-> IF x > i /\ x <= i + c THEN st[n - 1][1] ELSE @[x]]],
                              Pop(st, 3))
    [] k = "memory.size" -> Push(vm, st, FromNat(vm.pages, 4))
    [] k = "memory.grow" ->
         LET d == Top(st)
             cap == IF P.mem[2] < 0 THEN 65536 ELSE P.mem[2]
             ok == Fits(d) /\ ToNat(d) <= cap - vm.pages
         IN IF ok /\ ToNat(d) > 64 THEN Discard(vm)     \* allocation may fail legitimately
            ELSE IF ok THEN Push([vm EXCEPT !.pages = @ + ToNat(d)], Pop(st, 1), FromNat(vm.pages, 4))
            ELSE Push(vm, Pop(st, 1), Ones(4))
    [] k = "memory.fill" ->
         LET n == Len(st)  a == EA(st[n - 2], 0)  c == EA(st[n], 0)
         IN IF c < 0 \/ ~InMem(vm, a, c) \/ c > 4096 THEN Discard(vm)
            ELSE Keep([vm EXCEPT !.m = MWrite(@, a, [x \in 1..c |-> st[n - 1][1]])], Pop(st, 3))
    [] k = "memory.copy" ->
         LET n == Len(st)  d == EA(st[n - 2], 0)  s == EA(st[n - 1], 0)  c == EA(st[n], 0)
         IN IF c < 0 \/ ~InMem(vm, d, c) \/ ~InMem(vm, s, c) \/ c > 4096 THEN Discard(vm)
            ELSE Keep([vm EXCEPT !.m = MWrite(@, d, MRead(@, s, c))], Pop(st, 3))
    [] k = "memory.init" ->
         LET n == Len(st)  d == EA(st[n - 2], 0)  s == EA(st[n - 1], 0)  c == EA(st[n], 0)
             b == vm.seg[ins[2] + 1]
         \* a dropped segment is empty; the source range is checked even for no bytes at all
         IN IF c < 0 \/ s < 0 \/ s > Len(b) \/ c > Len(b) - s THEN Trap(vm)
            ELSE IF ~InMem(vm, d, c) THEN Discard(vm)
            ELSE Keep([vm EXCEPT !.m = MWrite(@, d, SubSeq(b, s + 1, s + c))], Pop(st, 3))
    [] k = "data.drop" -> Keep([vm EXCEPT !.seg[ins[2] + 1] = <<>>], st)

Step(P, vm) ==
  LET fn == FBody(P, vm.f)
  IN IF vm.pc > Len(fn.code) THEN [Return(P, vm, TopN(vm.st, Len(fn.sig[2]))) EXCEPT !.n = @ + 1]
     ELSE [Exec(P, vm, fn, fn.code[vm.pc]) EXCEPT !.n = @ + 1]

(* instantiation: globals, then element and data segments in order, then the
   start function, then the export                                           *)
Boot(P) ==
  LET t0 == [i \in DOMAIN P.tables |-> [j \in 1..P.tables[i].min |-> -1]]
      t1 == FoldLeft(LAMBDA acc, e :
               [acc EXCEPT ![e.tab + 1] =
                  [j \in DOMAIN @ |-> IF j > e.off /\ j <= e.off + Len(e.fs) THEN e.fs[j - e.off] ELSE @[j]]],
               t0, P.elems)
      m1 == FoldLeft(LAMBDA acc, d : IF d.off < 0 THEN acc ELSE MWrite(acc, d.off, d.b), [x \in {} |-> 0], P.datas)
      mainF == FBody(P, P.main)
      mainLoc == P.args \o [i \in DOMAIN mainF.loc |-> Default(mainF.loc[i])]
      starts == P.start >= 0
      startF == FBody(P, P.start)
      fits == /\ \A i \in DOMAIN P.elems : P.elems[i].off + Len(P.elems[i].fs) <= P.tables[P.elems[i].tab + 1].min
              /\ \A i \in DOMAIN P.datas : P.datas[i].off + Len(P.datas[i].b) <= P.mem[1] * PageSize \/ P.datas[i].off < 0
  IN [s |-> IF fits THEN "run" ELSE "trap", n |-> 0, hc |-> 0, res |-> <<>>, out |-> <<>>,
      g |-> [i \in DOMAIN P.globals |-> P.globals[i].init],
      m |-> m1, pages |-> P.mem[1], tab |-> t1,
      seg |-> [i \in DOMAIN P.datas |-> IF P.datas[i].off < 0 THEN P.datas[i].b ELSE <<>>],
      f |-> IF starts THEN P.start ELSE P.main, pc |-> 1, st |-> <<>>, lab |-> <<>>,
      loc |-> IF starts THEN [i \in DOMAIN startF.loc |-> Default(startF.loc[i])] ELSE mainLoc,
      fr |-> IF starts THEN <<<<P.main, 1, <<>>, <<>>, mainLoc>>>> ELSE <<>>]

(* k steps at a time (iterative in TLC) *)
Run(P, vm, k) == FoldLeft(LAMBDA acc, i : IF acc.s = "run" THEN Step(P, acc) ELSE acc, vm, [i \in 1..k |-> i])
=============================================================================
