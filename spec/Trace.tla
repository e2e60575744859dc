------------------------------- MODULE Trace -------------------------------
(* Trace validation: every recorded call of the real library must be a step  *)
(* of the machine.  The machine always advances -- a rejected call adds its  *)
(* index to bad, and the rest of that program is skipped -- so that one      *)
(* rejection does not leave the remaining events unexamined.                 *)
EXTENDS Ops, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,     \* next event
          mem,   \* the caller's memory
          skip,  \* the current program already diverged
          bad    \* rejected events
vars == <<l, mem, skip, bad>>

Init == l = 1 /\ mem = <<>> /\ skip = FALSE /\ bad = {}

After(e) == [b \in DOMAIN mem |-> IF b \in DOMAIN e.post THEN e.post[b] ELSE mem[b]]

(* a program starts: its buffers are defined *)
Load(e) ==
  /\ e.op = "load"
  /\ mem' = e.post /\ skip' = FALSE /\ bad' = bad

Call(e) ==
  /\ e.op # "load"
  /\ LET post == After(e)
         ok   == e.thr = (IF "thr" \in DOMAIN e.x THEN e.x.thr ELSE "")
                 /\ e.oob = 0
                \* where the workspace comes from makes no difference
                /\ ("same" \in DOMAIN e => e.same = 1)
                 /\ (IF e.thr = "" THEN Accept(e, mem, post) ELSE post = mem)
     IN  /\ mem' = post
         /\ IF skip \/ ok THEN skip' = skip /\ bad' = bad
            ELSE skip' = (DOMAIN mem # {}) /\ bad' = bad \cup {l}

Next == l <= Len(Events) /\ l' = l + 1 /\ LET e == Events[l] IN Load(e) \/ Call(e)

Spec == Init /\ [][Next]_vars
Done == l = Len(Events) + 1 => PrintT(<<"BAD", bad>>) /\ PrintT(<<"CHECKED", Len(Events)>>)
TraceAccepted == TLCGet("stats").diameter = Len(Events) + 1
=============================================================================
