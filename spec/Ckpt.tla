-------------------------------- MODULE Ckpt --------------------------------
(***************************************************************************)
(* The checkpoint request protocol: a requester creates a trigger, a       *)
(* process running the guest looks for it, consumes it, stores the state   *)
(* and reports; host calls may fail and the process may die at any moment; *)
(* further processes start afresh or restore.                              *)
(*                                                                         *)
(* Abstract state: the guest's position (how much it has put out), what    *)
(* the checkpoint file holds (a complete state taken at some position,     *)
(* nothing, or junk) and the phase of the process.  The operators named    *)
(* after events are the protocol's transitions; this module lets them      *)
(* interleave with every environment (Next), checks the protocol's safety  *)
(* on all of it, and prints the environment's side of every behaviour as a *)
(* schedule.  CkptTrace accepts or rejects what the real runtime did under *)
(* such a schedule, using the same transitions.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXL,     \* processes in one history
          LOOKS,    \* looks for a request in one process (model)
          NOPS,     \* host calls while storing at which a fault may strike
          MAXF,     \* faults in one history
          MAXR      \* requests in one history

VARIABLES
  phase,   \* "off", "up", "seen", "stored", "reported"
  how,     \* "fresh" or "restore", of the running process
  cr,      \* checkpointing enabled in the running process
  trig,    \* the request exists
  bin,     \* what the checkpoint file holds: 0 nothing, p+1 a complete state at position p, -1 junk
  pos,     \* the guest's position
  eaten,   \* this process has consumed the request it saw (or tried to)
  hurt     \* a fault struck this process
vars == <<phase, how, cr, trig, bin, pos, eaten, hurt>>

(* ---- transitions ---------------------------------------------------------*)
Start(h, c) == /\ phase = "off"
               /\ phase' = IF h = "restore" THEN "loading" ELSE "up"
               /\ how' = h /\ cr' = c /\ pos' = 0 /\ eaten' = FALSE /\ hurt' = FALSE
               /\ UNCHANGED <<trig, bin>>
(* resuming continues where the stored state was taken *)
Resume == /\ phase = "loading" /\ bin > 0
          /\ phase' = "up" /\ pos' = bin - 1
          /\ UNCHANGED <<how, cr, trig, bin, eaten, hurt>>
Request == trig' = TRUE /\ UNCHANGED <<phase, how, cr, bin, pos, eaten, hurt>>
Look(p) == /\ phase = "up" /\ cr
           /\ p => trig
           /\ (trig /\ ~p) => hurt                       \* overlooked only if the host would not tell
           /\ phase' = IF p THEN "seen" ELSE "up"
           /\ eaten' = FALSE
           /\ UNCHANGED <<how, cr, trig, bin, pos, hurt>>
Consume(ok) == /\ phase \in {"seen", "stored"} /\ ~eaten
               /\ ok => trig
               /\ ~ok => hurt
               /\ trig' = IF ok THEN FALSE ELSE trig
               /\ eaten' = TRUE
               /\ UNCHANGED <<phase, how, cr, bin, pos, hurt>>
(* the checkpoint file gets new content *)
Commit(b) == /\ phase = "seen"
             /\ IF b = pos + 1 THEN phase' = "stored" ELSE b = -1 /\ bin \in {0, -1} /\ phase' = phase
             /\ bin' = b
             /\ UNCHANGED <<how, cr, trig, pos, eaten, hurt>>
Announce == /\ phase \in {"stored", "reported"} /\ eaten
            /\ phase' = "reported"
            /\ UNCHANGED <<how, cr, trig, bin, pos, eaten, hurt>>
Output(p) == /\ phase = "up" /\ p = pos + 1
             /\ pos' = p
             /\ UNCHANGED <<phase, how, cr, trig, bin, eaten, hurt>>
Fault == /\ phase # "off" /\ hurt' = TRUE
         /\ UNCHANGED <<phase, how, cr, trig, bin, pos, eaten>>
End(k, last) ==
  /\ phase # "off"
  /\ CASE k = "done"    -> phase = "up" /\ pos = last
       [] k = "stopped" -> phase = "reported"
       [] k = "failed"  -> hurt
       [] k = "refused" -> phase = "loading" /\ (bin <= 0 \/ hurt)
       [] OTHER         -> FALSE
  /\ phase' = "off"
  /\ UNCHANGED <<how, cr, trig, bin, pos, eaten, hurt>>
Die == phase # "off" /\ phase' = "off" /\ UNCHANGED <<how, cr, trig, bin, pos, eaten, hurt>>

(* ---- the protocol under every environment ------------------------------------*)
VARIABLES lives, looks, ops, nf, nr, sched, done
all == <<vars, lives, looks, ops, nf, nr, sched, done>>
Life == sched[Len(sched)]
Note(f, v) == sched' = [sched EXCEPT ![Len(sched)][f] = v]
LAST == LOOKS       \* the guest puts out one item per look
InitP == phase = "off" /\ how = "fresh" /\ cr = FALSE /\ trig = FALSE /\ bin = 0 /\ pos = 0 /\ eaten = FALSE /\ hurt = FALSE
Init == InitP /\ lives = 0 /\ looks = 0 /\ ops = 0 /\ nf = 0 /\ nr = 0 /\ sched = <<>> /\ done = FALSE
Same == UNCHANGED <<lives, looks, ops, nf, nr, sched, done>>

DoStart == /\ ~done /\ lives < MAXL
           /\ \E h \in {"fresh", "restore"}, c \in BOOLEAN, m \in (IF lives = 0 THEN {"tco", "legacy"} ELSE {IF Life.m = "tco" THEN "legacy" ELSE "tco"}), pre \in BOOLEAN :
                /\ h = "restore" => lives > 0
                /\ pre => nr < MAXR
                /\ phase = "off" /\ phase' = (IF h = "restore" THEN "loading" ELSE "up")
                /\ how' = h /\ cr' = c /\ pos' = 0 /\ eaten' = FALSE /\ hurt' = FALSE
                /\ trig' = (trig \/ pre) /\ bin' = bin
                /\ lives' = lives + 1 /\ looks' = 0 /\ ops' = 0
                /\ nr' = (IF pre THEN nr + 1 ELSE nr)
                /\ sched' = Append(sched, [h |-> h, cr |-> c, m |-> m, pre |-> pre, at |-> 0, late |-> 0, fk |-> "none", fj |-> 0])
           /\ UNCHANGED <<nf, done>>
DoLoad == /\ phase = "loading" /\ (Resume \/ (bin <= 0 /\ End("refused", LAST))) /\ Same
(* the guest advances to its next look; a request may arrive just before it, the host may
   refuse to tell, the process may die there; without checkpointing it just advances *)
DoStep == /\ phase = "up" /\ pos < LAST /\ looks < LOOKS
          /\ \E q \in BOOLEAN, f \in {"none", "blind", "die"} :
               /\ q => nr < MAXR /\ cr /\ Life.at = 0 /\ ~trig
               /\ f # "none" => nf < MAXF /\ cr /\ Life.fk = "none" /\ (f = "blind" => trig \/ q)
               /\ looks' = looks + 1
               /\ nr' = (IF q THEN nr + 1 ELSE nr) /\ nf' = (IF f = "none" THEN nf ELSE nf + 1)
               /\ LET t == trig \/ q
                      s1 == IF q THEN [Life EXCEPT !.at = looks + 1] ELSE Life
                      s2 == IF f = "none" THEN s1 ELSE [s1 EXCEPT !.fk = f, !.fj = looks + 1]
                  IN /\ sched' = [sched EXCEPT ![Len(sched)] = s2]
                     /\ trig' = t
                     /\ phase' = (IF f = "die" THEN "off" ELSE IF cr /\ t /\ f = "none" THEN "seen" ELSE "up")
                     /\ pos' = (IF f = "die" \/ (cr /\ t /\ f = "none") THEN pos ELSE pos + 1)
                     /\ hurt' = (hurt \/ f = "blind")
               /\ ops' = 0 /\ eaten' = FALSE
          /\ UNCHANGED <<how, cr, bin, lives, done>>
(* one step of consuming, storing and reporting: in the model, consume then commit then report *)
Op == IF ~eaten THEN Consume(TRUE) ELSE IF phase = "seen" THEN Commit(pos + 1) ELSE Announce
DoOp == /\ phase \in {"seen", "stored"} /\ Op /\ ops' = ops + 1
        /\ UNCHANGED <<lives, looks, nf, nr, sched, done>>
FaultKinds == {"io", "intr", "short", "torn", "die"}
(* a fault strikes: the process dies, or gives up and says so, or gets over it *)
DoHurt == /\ phase \in {"seen", "stored"} /\ nf < MAXF /\ Life.fk = "none" /\ nf' = nf + 1
          /\ \E k \in FaultKinds, j \in 1..NOPS :
               /\ sched' = [sched EXCEPT ![Len(sched)].fk = k, ![Len(sched)].fj = j]
               /\ hurt' = TRUE
               /\ phase' \in (IF k \in {"die", "torn"} THEN {"off"} ELSE IF k = "short" THEN {phase} ELSE {"off", phase})
          /\ UNCHANGED <<how, cr, trig, bin, pos, eaten, lives, looks, ops, nr, done>>
(* another request arrives while the state is being stored *)
DoLate == /\ phase \in {"seen", "stored"} /\ nr < MAXR /\ Life.late = 0 /\ nr' = nr + 1
          /\ \E j \in {1, NOPS \div 2} : sched' = [sched EXCEPT ![Len(sched)].late = j]
          /\ trig' = TRUE
          /\ UNCHANGED <<phase, how, cr, bin, pos, eaten, hurt, lives, looks, ops, nf, done>>
DoEnd == /\ phase \in {"up", "reported"} /\ (End("done", LAST) \/ End("stopped", LAST))
         /\ done' = FALSE /\ UNCHANGED <<lives, looks, ops, nf, nr, sched>>
Finish == /\ phase = "off" /\ lives = MAXL /\ ~done
          /\ done' = TRUE /\ PrintT(ToJson([sched |-> sched])) /\ UNCHANGED <<vars, lives, looks, ops, nf, nr, sched>>
Next == DoStart \/ DoLoad \/ DoStep \/ DoOp \/ DoHurt \/ DoLate \/ DoEnd \/ Finish

(* ---- safety ---------------------------------------------------------------------*)
(* the file never loses a complete state except to a newer one taken by a process that saw a request *)
Safe == /\ bin >= 0
        /\ phase = "reported" => bin = pos + 1 /\ cr
        /\ phase \in {"seen", "stored", "reported"} => cr
        /\ (phase = "up" /\ how = "restore" /\ looks = 0) => pos = bin - 1
Kept == [][bin' = bin \/ (phase = "seen" /\ cr /\ bin' = pos + 1)]_all
=============================================================================
