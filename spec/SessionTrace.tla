---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validation of recorded runs of the real program against Session.  The   *)
(* events come from a shim below the program that sees its output, its     *)
(* input and its file operations, in order:                                *)
(*   run    a run begins                                                   *)
(*   ask, reply, done, error                                               *)
(*   kill   what is in the map if the process is killed here               *)
(*   loss   what is in the map if the power fails here (one possibility)   *)
(*   fault  an operation was made to fail                                  *)
(*   end    the run is over: what is in the map, what became of the source *)
(* Contents are "before", "after", "same" (the change is none), "other"    *)
(* and "corrupt".                                                          *)
(***************************************************************************)
EXTENDS Session, Args, Props, TLC, Json, IOUtils

Property == IOEnv.PROPERTY
T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, scen, run, bad
tvars == <<l, scen, run, bad, phase, stored, said>>

TInit == l = 1 /\ scen = "" /\ run = <<>> /\ bad = 0 /\ SInit

Ev == T[l]
IsEvent(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1
Asp(name, b) == IF b THEN {name} ELSE {}

Report(as) ==
  LET real == as \cap SessionDemands(Property)
  IN /\ bad' = bad + (IF real = {} THEN 0 ELSE 1)
     /\ IF real = {} THEN TRUE
        ELSE PrintT("DIFF " \o ToJson([scen |-> scen', line |-> l, diffs |-> real]))

Scen == IsEvent("scen") /\ scen' = Ev.id /\ UNCHANGED <<run, bad, svars>>

Run == IsEvent("run") /\ run' = Ev /\ phase' = "start" /\ stored' = FALSE /\ said' = {}
       /\ UNCHANGED <<scen, bad>>

(* Running begins without a question if none is wanted. *)
Running == phase = "running" \/ (phase = "start" /\ ~run.confirm)

TAsk == IsEvent("ask") /\ scen' = scen
        /\ Report(Asp("disorder", ~ENABLED Ask))
        /\ phase' = "asked" /\ UNCHANGED <<run, stored, said>>
TReply == IsEvent("reply") /\ scen' = scen
          /\ Report(Asp("disorder", phase # "asked"))
          /\ phase' = (IF Yes(Ev.text) THEN "running" ELSE "ended")
          /\ UNCHANGED <<run, stored, said>>
TDone == IsEvent("done") /\ scen' = scen
         /\ Report(Asp("lostdone", ~run.vacuum /\ run.changes /\ ~stored)
                   \cup Asp("noconsent", ~Running /\ said = {}))
         /\ said' = said \cup {"done"} /\ phase' = "ended"
         /\ UNCHANGED <<run, stored>>
TError == IsEvent("error") /\ scen' = scen /\ Report({})
          /\ said' = said \cup {"error"}
          /\ phase' = (IF run.vacuum THEN phase ELSE "ended")
          /\ UNCHANGED <<run, stored>>

Mixed(c) == c \in {"other", "corrupt"}
(* Only the map's rows count for vacuum. *)
VacuumBad(c) == run.vacuum /\ c \notin {"before", "same"}

Kill == IsEvent("kill") /\ scen' = scen
        /\ Report(Asp("mixture", Mixed(Ev.content) \/ (stored /\ Ev.content = "before"))
                  \cup Asp("data", VacuumBad(Ev.content))
                  \cup Asp("lostdone", "done" \in said /\ ~(Ev.content \in {"after", "same"})
                                       /\ ~run.vacuum)
                  \cup Asp("noconsent", Ev.content \notin {"before", "same"}
                                        /\ ~stored /\ ~Running /\ said = {}))
        /\ stored' = (stored \/ Ev.content = "after")
        /\ phase' = (IF Ev.content = "after" /\ phase = "start" THEN "running" ELSE phase)
        /\ UNCHANGED <<run, said>>

Loss == IsEvent("loss") /\ scen' = scen
        /\ Report(Asp("mixture", Mixed(Ev.content))
                  \cup Asp("data", VacuumBad(Ev.content))
                  \cup Asp("lostdone", "done" \in said /\ Ev.content = "before"
                                       /\ ~run.vacuum)
                  \cup Asp("noconsent", Ev.content \notin {"before", "same"}
                                        /\ ~stored /\ ~Running))
        /\ UNCHANGED <<run, svars>>

Fault == IsEvent("fault") /\ UNCHANGED <<scen, run, bad, svars>>

End ==
  /\ IsEvent("end") /\ scen' = scen
  /\ LET c == Ev.content IN
     Report(Asp("mixture", Mixed(c))
            \cup Asp("data", VacuumBad(c))
            \cup Asp("lostdone", "done" \in said /\ c \notin {"after", "same"} /\ ~run.vacuum)
            \cup Asp("unreported", said = {} /\ ~Ev.hang
                                   /\ (run.confirm => phase = "running"))
            \cup Asp("hang", Ev.hang)
            \cup Asp("noconsent", phase \in {"start", "asked", "ended"} /\ run.confirm
                                  /\ said = {} /\ c \notin {"before", "same"})
            \cup Asp("leftover", Ev.leftover)
            \cup Asp("source", Ev.srcchanged))
  /\ UNCHANGED <<run, svars>>

TNext == Scen \/ Run \/ TAsk \/ TReply \/ TDone \/ TError \/ Kill \/ Loss \/ Fault \/ End
TSpec == TInit /\ [][TNext]_tvars
View == l
Consumed == TLCGet("stats").diameter - 1 = Len(T)
==============================================================================
