----------------------------- MODULE CkptTrace -----------------------------
(***************************************************************************)
(* Accepts or rejects what the runtime was seen to do.  Each line of the   *)
(* file named by TRACES is one history: {"last": L, "ev": [[event,..],..]}; *)
(* it is accepted if it is a behaviour of the protocol of Ckpt.  A history *)
(* that is not is printed with the index of the first event that no        *)
(* transition of the protocol explains.                                    *)
(***************************************************************************)
EXTENDS Ckpt, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
tvars == <<vars, t, i>>
idle == lives = 0 /\ looks = 0 /\ ops = 0 /\ nf = 0 /\ nr = 0 /\ sched = <<>> /\ done = FALSE
TraceInit == InitP /\ idle /\ t \in 1..Len(Traces) /\ i = 1
Ev == Traces[t].ev[i]
Step ==
  LET e == Ev IN
  CASE e[1] = "start"   -> Start(e[2], e[3])
    [] e[1] = "resume"  -> Resume
    [] e[1] = "request" -> Request
    [] e[1] = "look"    -> Look(e[2])
    [] e[1] = "consume" -> Consume(e[2])
    [] e[1] = "bin"     -> Commit(e[2])
    [] e[1] = "report"  -> Announce
    [] e[1] = "out"     -> Output(e[2])
    [] e[1] = "fault"   -> Fault
    [] e[1] = "end"     -> End(e[2], Traces[t].last)
    [] e[1] = "die"     -> Die
    [] OTHER            -> FALSE
More == i <= Len(Traces[t].ev)
Accepted == More /\ Step /\ i' = i + 1 /\ UNCHANGED t
Rejected == /\ More /\ ~ENABLED Step
            /\ PrintT(ToJson([reject |-> t, at |-> i, ev |-> ToString(Ev), st |-> ToString([phase |-> phase, cr |-> cr, trig |-> trig, bin |-> bin, pos |-> pos, eaten |-> eaten, hurt |-> hurt])]))
            /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<vars, t>>
TraceNext == (Accepted \/ Rejected) /\ UNCHANGED <<lives, looks, ops, nf, nr, sched, done>>
TraceSpec == TraceInit /\ [][TraceNext]_<<all, tvars>>
=============================================================================
