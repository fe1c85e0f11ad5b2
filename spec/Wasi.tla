-------------------------------- MODULE Wasi --------------------------------
(***************************************************************************)
(* WASI calls as a machine: a guest memory, a host that answers what it    *)
(* likes, and one transition per function.  A call hands the host the      *)
(* values the guest gave and the bytes its pointers designate; the host's  *)
(* answer (an errno and, on success, some bytes per result) appears in     *)
(* exactly the memory the guest designated; everything else is unchanged.  *)
(*                                                                         *)
(* Each behaviour is a drawn sequence of calls.  Printed are the program   *)
(* that makes them, the answers the host is to give, the calls the host    *)
(* must see, and the memory and errnos the guest must be left with.        *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS COUNT, BASE, CALLS, FOCUS

(* kinds of parameters: values fd w8 w16 w32 w64; path; iovw iovr (buffers to
   write from, to read into); buf rbuf (n bytes to be filled, at least one); o2 o4 o8 o24 o64 (a
   result of that many bytes); pin pout pn (poll_oneoff)                       *)
Fns == <<
  <<"clock_res_get", <<"w32", "o8">>>>, <<"clock_time_get", <<"w32", "w64", "o8">>>>,
  <<"fd_advise", <<"fd", "w64", "w64", "w8">>>>, <<"fd_allocate", <<"fd", "w64", "w64">>>>, <<"fd_close", <<"fd">>>>,
  <<"fd_datasync", <<"fd">>>>, <<"fd_fdstat_get", <<"fd", "o24">>>>, <<"fd_fdstat_set_flags", <<"fd", "w16">>>>,
  <<"fd_fdstat_set_rights", <<"fd", "w64", "w64">>>>, <<"fd_filestat_get", <<"fd", "o64">>>>,
  <<"fd_filestat_set_size", <<"fd", "w64">>>>, <<"fd_filestat_set_times", <<"fd", "w64", "w64", "w16">>>>,
  <<"fd_pread", <<"fd", "iovr", "w64", "o4">>>>, <<"fd_prestat_get", <<"fd", "o8">>>>, <<"fd_prestat_dir_name", <<"fd", "buf">>>>,
  <<"fd_pwrite", <<"fd", "iovw", "w64", "o4">>>>, <<"fd_read", <<"fd", "iovr", "o4">>>>, <<"fd_readdir", <<"fd", "buf", "w64", "o4">>>>,
  <<"fd_renumber", <<"fd", "fd">>>>, <<"fd_seek", <<"fd", "w64", "w8", "o8">>>>, <<"fd_sync", <<"fd">>>>, <<"fd_tell", <<"fd", "o8">>>>,
  <<"fd_write", <<"fd", "iovw", "o4">>>>, <<"path_create_directory", <<"fd", "path">>>>,
  <<"path_filestat_get", <<"fd", "w32", "path", "o64">>>>, <<"path_filestat_set_times", <<"fd", "w32", "path", "w64", "w64", "w16">>>>,
  <<"path_link", <<"fd", "w32", "path", "fd", "path">>>>, <<"path_open", <<"fd", "w32", "path", "w16", "w64", "w64", "w16", "o4">>>>,
  <<"path_readlink", <<"fd", "path", "buf", "o4">>>>, <<"path_remove_directory", <<"fd", "path">>>>,
  <<"path_rename", <<"fd", "path", "fd", "path">>>>, <<"path_symlink", <<"path", "fd", "path">>>>, <<"path_unlink_file", <<"fd", "path">>>>,
  <<"poll_oneoff", <<"pin", "pout", "pn", "o4">>>>, <<"proc_raise", <<"w8">>>>, <<"random_get", <<"rbuf">>>>, <<"sched_yield", <<>>>>,
  <<"sock_accept", <<"fd", "w16", "o4">>>>, <<"sock_recv", <<"fd", "iovr", "w16", "o4", "o2">>>>, <<"sock_send", <<"fd", "iovw", "w16", "o4">>>>,
  <<"sock_shutdown", <<"fd", "w8">>>>,
  <<"args_sizes_get", <<"o4", "o4">>>>, <<"args_get", <<"ptrs", "strs">>>>,
  <<"environ_sizes_get", <<"o4", "o4">>>>, <<"environ_get", <<"ptrs", "strs">>>> >>
Local(f) == Fns[f][1] \in {"args_sizes_get", "args_get", "environ_sizes_get", "environ_get"}
Wide(k) == IF k \in {"path", "iovw", "iovr", "buf", "rbuf"} THEN <<"i32", "i32">> ELSE IF k = "w64" THEN <<"i64">> ELSE <<"i32">>
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
WType(f) == <<Flat([i \in 1..Len(Fns[f][2]) |-> Wide(Fns[f][2][i])]), <<"i32">>>>
OutSize(k) == CASE k = "o2" -> 2 [] k = "o4" -> 4 [] k = "o8" -> 8 [] k = "o24" -> 24 [] k = "o64" -> 64 [] OTHER -> 0

(* ---- strings -----------------------------------------------------------------*)
GWasm == <<103, 46, 119, 97, 115, 109>>
Tokens == <<<<97>>, <<45, 45, 98>>, <<>>, <<195, 169, 32, 122>>, [i \in 1..40 |-> 97 + (i % 26)]>>
EnvS == <<<<65, 61, 49>>, <<66, 61>>, <<80, 65, 84, 72, 61, 47, 120, 58, 195, 188>>, [i \in 1..30 |-> IF i = 5 THEN 61 ELSE 70 + (i % 20)]>>
Some(ss, n) == [i \in 1..n |-> ss[i]]
Blob(ss) == Flat([i \in 1..Len(ss) |-> Append(ss[i], 0)])
Offs(ss) == [i \in 1..Len(ss) |-> Len(Blob(SubSeq(ss, 1, i - 1)))]

VARIABLES rec, mc
vars == <<rec, mc>>
Dr(j) == LET a == Draw24(Seeded(rec * 16 + j, BASE)) IN <<a[1], Draw24(a[2])[1]>>

(* ---- memory: the 2048 bytes from Org on are looked at afterwards; buffers may be
   Big bytes longer, into the zeros beyond them                                       *)
Org == Pick(<<0, 4096, 65536, 131584, 1179648, 8388608, 16777472, 62976>>, IF rec % 3 = 0 THEN 0 ELSE rec \div 3)
Big(r) == IF r % 5 = 0 THEN IF rec % 16 = 7 THEN 16777216 ELSE Pick(<<65536, 131072, 65536, 1048576>>, r \div 5) ELSE 0
Pages == IF Org = 62976 THEN 1 ELSE (Org \div 65536) + (IF rec % 16 = 7 THEN 258 ELSE 18)
Adr(n) == I32(Org + n)
Table == IF Pages = 1 THEN I32(65528) ELSE Adr(2048)      \* even the last bytes of a memory
Show(from, len) ==
  <<Table, Adr(from), <<"i32.store", 0>>, Table, I32(len), <<"i32.store", 4>>,
    I32(1), Table, I32(1), Adr(2056), <<"call", 0>>, <<"drop">>>>
Mem0 == [a \in 0..2047 |-> 1 + (((a * 37) + (a \div 256)) % 255)]
Put(m, a, b) == [x \in DOMAIN m |-> IF x >= a /\ x < a + Len(b) THEN b[x - a + 1] ELSE m[x]]
Get(m, a, n) == [i \in 1..n |-> m[a + i - 1]]
Stuff(x, y, n) == [k \in 1..n |-> 1 + ((((x % 1000) * 31) + (k * k * 7) + (k * (y % 1000))) % 255)]
RECURSIVE Scatter(_, _, _)
Scatter(m, iov, b) ==      \* bytes b into the buffers of iov in order
  IF iov = <<>> \/ b = <<>> THEN m
  ELSE LET n == IF Len(b) < iov[1][2] THEN Len(b) ELSE iov[1][2]
       IN Scatter(Put(m, iov[1][1], SubSeq(b, 1, n)), Tail(iov), SubSeq(b, n + 1, Len(b)))

(* ---- one parameter: drawn numbers p q r, private slots a and b of 128 bytes -------
   code pushing it, memory prepared for it, what the host must see, where its
   result goes and with which bytes                                                *)
Fds == <<<<0,0,0,0>>, <<1,0,0,0>>, <<2,0,0,0>>, <<3,0,0,0>>, <<4,0,0,0>>, <<9,0,0,0>>, <<255,255,255,255>>, <<0,1,0,0>>, <<255,255,255,127>>>>
V16 == <<<<0,0,0,0>>, <<1,0,0,0>>, <<9,0,0,0>>, <<255,255,0,0>>, <<0,128,0,0>>, <<16,0,0,0>>>>
V8 == <<<<0,0,0,0>>, <<1,0,0,0>>, <<2,0,0,0>>, <<5,0,0,0>>>>
Blank == [prep |-> <<>>, see |-> <<>>, has |-> FALSE, at |-> <<>>, bytes |-> <<>>]
IovList(p, q, base) == [j \in 1..(IF q % 9 = 0 THEN p % 14 ELSE p % 5) |-> <<base + (((j * (q % 7)) + j * 2) % 5) * 25, ((q \div 5) + (j * (p \div 16))) % 26>>]
Le4(n) == FromInt(n, 4)
Param(k, p, q, r, a, b) ==
  LET at1 == 128 * a + (r % 24) IN
  CASE k = "fd"  -> [code |-> <<C("i32", Pick(Fds, p))>>] @@ [Blank EXCEPT !.see = <<Pick(Fds, p)>>]
    [] k = "w8"  -> [code |-> <<C("i32", Pick(V8, p))>>] @@ [Blank EXCEPT !.see = <<Pick(V8, p)>>]
    [] k = "w16" -> [code |-> <<C("i32", Pick(V16, p))>>] @@ [Blank EXCEPT !.see = <<Pick(V16, p)>>]
    [] k = "w32" -> LET v == IF r % 2 = 0 THEN Pick(I32V, p) ELSE Arb("i32", p, q) IN [code |-> <<C("i32", v)>>] @@ [Blank EXCEPT !.see = <<v>>]
    [] k = "w64" -> LET v == IF r % 2 = 0 THEN Pick(I64V, p) ELSE Arb("i64", p, q) IN [code |-> <<C("i64", v)>>] @@ [Blank EXCEPT !.see = <<v>>]
    [] k = "pn"  -> [code |-> <<I32(1 + (p % 2))>>] @@ [Blank EXCEPT !.see = <<Le4(1 + (p % 2))>>]
    [] k = "path" -> LET n == IF q % 8 = 0 THEN 0 ELSE 1 + (q % 90)
                         str == IF p % 40 = 0 /\ n > 0 THEN [Stuff(p, r, n) EXCEPT ![1 + (n \div 2)] = 0] ELSE Stuff(p, r, n)
                     IN [code |-> <<Adr(at1), I32(n)>>] @@ [Blank EXCEPT !.prep = <<<<at1, str>>>>, !.see = <<str>>]
    [] k \in {"iovw", "iovr"} ->
         LET iov == IovList(p, q, 128 * b)
             big == IF Pages = 1 \/ iov = <<>> THEN 0 ELSE Big(p)
             tab == Flat([j \in 1..Len(iov) |-> Le4(Org + iov[j][1]) \o Le4(iov[j][2] + (IF k = "iovr" /\ j = Len(iov) THEN big ELSE 0))])
                    \o (IF k = "iovw" /\ big > 0 THEN Le4(Org + 4096 + (p % 256)) \o Le4(big) ELSE <<>>)
             tot == FoldLeft(LAMBDA s, e : s + e[2], 0, iov)
         IN [code |-> <<Adr(at1), I32(Len(tab) \div 8)>>]
            @@ (IF k = "iovw" THEN [Blank EXCEPT !.prep = <<<<at1, tab>>>>, !.see = <<iov, big>>]
                ELSE [Blank EXCEPT !.prep = <<<<at1, tab>>>>, !.see = <<Le4(tot + big)>>, !.has = TRUE, !.at = iov, !.bytes = Stuff(q, r, IF r % 3 = 0 THEN tot ELSE r % (tot + 1))])
    [] k \in {"buf", "rbuf"} -> LET n == IF k = "buf" /\ q % 16 = 5 THEN 0 ELSE 1 + (q % 100)  big == IF Pages = 1 THEN 0 ELSE Big(p) IN
                    [code |-> <<Adr(at1), I32(n + big)>>] @@ [Blank EXCEPT !.see = <<Le4(n + big)>>, !.has = TRUE, !.at = <<<<at1, n>>>>, !.bytes = Stuff(p, r, IF r % 3 = 0 THEN n ELSE r % (n + 1))]
    [] k = "pin" -> LET s == Stuff(p, r, 96) IN [code |-> <<Adr(at1)>>] @@ [Blank EXCEPT !.prep = <<<<at1, s>>>>, !.see = <<s>>]
    [] k = "pout" -> [code |-> <<Adr(at1)>>] @@ [Blank EXCEPT !.has = TRUE, !.at = <<<<at1, 64>>>>, !.bytes = Stuff(q, p, 32)]
    [] k \in {"ptrs", "strs"} -> [code |-> <<Adr(at1)>>] @@ [Blank EXCEPT !.has = TRUE, !.at = <<<<at1, 128>>>>]
    [] OTHER -> LET n == OutSize(k)
                    v == IF n = 4 /\ p % 2 = 0 THEN Pick(I32V, q) ELSE IF n = 8 /\ p % 2 = 0 THEN Pick(I64V, q) ELSE Stuff(p, q, n)
                IN [code |-> <<Adr(at1)>>] @@ [Blank EXCEPT !.has = TRUE, !.at = <<<<at1, n>>>>, !.bytes = v]

Errnos(x) == IF x % 8 < 4 THEN 0 ELSE IF x % 8 < 6 THEN Pick(<<8, 28, 44, 76, 6, 27>>, x \div 8) ELSE 1 + ((x \div 8) % 76)
(* st: [m, code, log, ans, err, n]; d, e: numbers drawn for this call; argv, env: the strings *)
MakeCall(st, f, d, e, argv, env, bare) ==
  LET ks == Fns[f][2]  nm == Fns[f][1]
      Slot(i) == (e[1] + (i * 5)) % 16
      ps == [i \in 1..Len(ks) |-> Param(ks[i], d[i], d[i + 8], d[i + 16], Slot(i), Slot(i + 8))]
      pre == Flat([i \in 1..Len(ks) |-> ps[i].prep])
      m1 == FoldLeft(LAMBDA m, w : Put(m, w[1], w[2]), st.m, pre)
      errno == IF Local(f) THEN 0 ELSE Errnos(e[2])
      strs == IF nm \in {"args_get", "args_sizes_get"} THEN argv ELSE env
      \* the bytes of result i
      data(i) == CASE ~Local(f) -> ps[i].bytes
                   [] ks[i] = "ptrs" -> Flat([j \in 1..Len(strs) |-> Le4(Org + ps[2].at[1][1] + Offs(strs)[j])])
                   [] ks[i] = "strs" -> Blob(strs)
                   [] i = 1 -> Le4(Len(strs))
                   [] OTHER -> Le4(Len(Blob(strs)))
      m2 == IF errno # 0 THEN m1
            ELSE FoldLeft(LAMBDA m, i : IF ps[i].has THEN Scatter(m, ps[i].at, data(i)) ELSE m, m1, [i \in 1..Len(ks) |-> i])
      saw(i) == CASE ps[i].see = <<>> -> <<>>
                  [] ks[i] = "iovw" -> <<Flat([j \in 1..Len(ps[i].see[1]) |-> Get(m1, ps[i].see[1][j][1], ps[i].see[1][j][2])])
                                         \o (IF ps[i].see[2] = 0 THEN <<>> ELSE Le4(ps[i].see[2]))>>     \* so many zeros
                  [] ks[i] = "pin"  -> <<SubSeq(ps[i].see[1], 1, 48 * (1 + (d[i + 2] % 2)))>>
                  [] OTHER -> ps[i].see
      bytewise == Flat([w \in 1..Len(pre) |-> Flat([j \in 1..Len(pre[w][2]) |-> <<Adr(pre[w][1] + j - 1), I32(pre[w][2][j]), <<"i32.store8", 0>>>>])])
      \* arguments straight, or through a local
      arg(i) == IF (e[3] \div (2 ^ i)) % 2 = 0 THEN ps[i].code
                ELSE Flat([j \in 1..Len(ps[i].code) |-> LET t == IF ks[i] = "w64" THEN 1 ELSE 0 IN <<ps[i].code[j], <<"local.set", t>>, <<"local.get", t>>>>])
      do == IF e[4] % 3 = 0 THEN <<I32(f), <<"call_indirect", WType(f), 0>>>> ELSE <<<<"call", f + 1>>>>     \* slot f of the table holds function f
  IN [m |-> m2, n |-> st.n + 1,
      code |-> IF bare THEN st.code \o Flat([i \in 1..Len(ks) |-> arg(i)]) \o do \o <<<<"local.get", 2>>, I32(10), <<"i32.mul">>, <<"i32.add">>, <<"local.set", 2>>>>
               ELSE st.code \o bytewise \o <<Adr(2064 + 4 * st.n)>> \o Flat([i \in 1..Len(ks) |-> arg(i)]) \o do \o <<<<"i32.store", 0>>>>,
      log |-> IF Local(f) THEN st.log ELSE Append(st.log, <<nm, Flat([i \in 1..Len(ks) |-> saw(i)])>>),
      ans |-> IF Local(f) THEN st.ans ELSE Append(st.ans, [errno |-> errno, outs |-> [i \in 1..Len(ks) |-> IF ps[i].has THEN ps[i].bytes ELSE <<>>]]),
      err |-> Append(st.err, errno)]

Used(fs) == SetToSeq({fs[i] : i \in DOMAIN fs})
NF == Len(Fns)
(* proc_raise ends chiwawa (see known_findings): it comes first or not at all *)
Meek(f) == IF Fns[f][1] = "proc_raise" THEN f + 1 ELSE f
(* some modules have no memory and call only functions that need none: their
   first and last calls are sched_yield, their result combines the errnos      *)
Yield == CHOOSE f \in 1..NF : Fns[f][1] = "sched_yield"
Bare == rec % 12 = 5
ByValue == SetToSeq({f \in 1..NF : (\A k \in Range(Fns[f][2]) : k \in {"fd", "w8", "w16", "w32", "w64"}) /\ Fns[f][1] \notin {"proc_raise", "sched_yield"}})
Combined == FoldLeft(LAMBDA a, x : (a * 10) + x, 0, mc.err)
(* every function leads some behaviour; the others are drawn *)
Fs == [j \in 1..CALLS |-> IF Bare THEN Pick(ByValue, Dr(j)[2][9]) ELSE IF FOCUS > 0 THEN FOCUS ELSE IF j = 1 THEN 1 + (rec % NF) ELSE Meek(1 + (Dr(j)[2][9] % NF))]
Argv == <<GWasm>> \o Some(Tokens, Dr(0)[1][1] % 6)
Env == Some(EnvS, Dr(0)[1][2] % 5)
Exits == Dr(0)[1][3] % 6 = 0
ExitCode == Pick(<<0, 1, 2, 7, 126, 255>>, Dr(0)[1][4])
Init == /\ rec \in 1..COUNT
        /\ mc = [m |-> Mem0, n |-> 0, code |-> IF Bare THEN <<<<"call", Yield + 1>>, <<"drop">>>> ELSE Show(2100, 4), log |-> <<>>, ans |-> <<>>, err |-> <<>>]
Program == [imps |-> <<"fd_write", "proc_exit">> \o [f \in 1..NF |-> Fns[f][1]],
            isigs |-> <<ISigs[1], <<<<"i32">>, <<>>>>>> \o [f \in 1..NF |-> WType(f)],
            funcs |-> <<Fn(<<<<>>, <<>>>>, <<"i32", "i64">>,
                          mc.code \o (IF Bare THEN <<<<"call", Yield + 1>>, <<"drop">>, <<"local.get", 2>>>>
                                      ELSE Show(2104, 4) \o Show(0, 2048) \o Show(2064, 4 * mc.n))
                          \o (IF Exits THEN <<I32(ExitCode), <<"call", 1>>, <<"unreachable">>>> ELSE <<>>))>>,
            globals |-> <<>>, mem |-> <<Pages, -1>>, tables |-> <<>>, elems |-> <<>>,
            datas |-> IF Bare THEN <<>> ELSE <<[off |-> Org, b |-> [i \in 1..2048 |-> Mem0[i - 1]]], [off |-> Org + 2100, b |-> <<65, 82, 77, 33, 68, 79, 78, 69>>]>>,
            start |-> -1, main |-> NF + 2, args |-> <<>>]
Next == \/ /\ mc.n < CALLS
           /\ LET j == mc.n + 1 IN mc' = MakeCall(mc, Fs[j], Dr(j)[1], Dr(j)[2], Argv, Env, Bare)
           /\ UNCHANGED rec
        \/ /\ mc.n = CALLS
           /\ PrintT(ToJson([fs |-> [j \in 1..CALLS |-> Fns[Fs[j]][1]], sigs |-> Fns, datas |-> Program.datas, order |-> (rec % 2 = 0), code |-> Program.funcs[1].code, log |-> mc.log, ans |-> mc.ans, argv |-> Argv, env |-> Env,
                             bare |-> Bare, pages |-> Pages, res |-> Combined, mem |-> IF Bare THEN <<>> ELSE [i \in 1..2048 |-> mc.m[i - 1]], err |-> mc.err, exit |-> IF Exits THEN ExitCode ELSE -1]))
           /\ mc' = [mc EXCEPT !.n = CALLS + 1] /\ UNCHANGED rec
(* no call touches memory outside the slots its parameters lie in *)
Sane == Cardinality({a \in 0..2047 : mc.m[a] \notin 0..255}) = 0
=============================================================================
