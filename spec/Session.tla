------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* One run of the program as its user sees it: arguments are checked, the  *)
(* user may be asked, the change is stored in ONE step, and what is said   *)
(* agrees with what is stored.  Lifecycle.tla (threads, channels, locks,   *)
(* journal, faults) is shown by TLC to refine this; SessionTrace.tla       *)
(* checks recorded runs of the real program against it.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES phase,    \* "start", "asked", "running", "ended"
          stored,   \* the complete change is in the map
          said      \* subset of {"done", "error"}

svars == <<phase, stored, said>>

SInit == phase = "start" /\ stored = FALSE /\ said = {}

(* Invalid arguments, or the map cannot be opened. *)
Refuse == phase = "start" /\ said' = said \cup {"error"} /\ phase' = "ended"
          /\ UNCHANGED stored
Ask == phase = "start" /\ phase' = "asked" /\ UNCHANGED <<stored, said>>
Start == phase = "start" /\ phase' = "running" /\ UNCHANGED <<stored, said>>
Reply(yes) == phase = "asked" /\ phase' = (IF yes THEN "running" ELSE "ended")
              /\ UNCHANGED <<stored, said>>
Store == phase = "running" /\ ~stored
         /\ stored' = TRUE /\ UNCHANGED <<phase, said>>
SayDone == phase = "running" /\ stored /\ said = {}
           /\ said' = {"done"} /\ phase' = "ended" /\ UNCHANGED stored
SayError == phase \in {"asked", "running"} /\ said = {}
            /\ said' = {"error"} /\ phase' = "ended" /\ UNCHANGED stored

SNext == Refuse \/ Ask \/ Start \/ (\E y \in BOOLEAN : Reply(y))
         \/ Store \/ SayDone \/ SayError
SSpec == SInit /\ [][SNext]_svars

(* What a crash may leave, once the map is opened again.  A change that    *)
(* has been stored may still be lost with the power until it has been      *)
(* reported: only "before" and "after" are ever possible.                  *)
AfterKill == IF stored THEN {"after"} ELSE {"before"}
AfterPowerLoss == IF "done" \in said THEN {"after"}
                  ELSE IF phase = "running" THEN {"before", "after"}
                  ELSE IF stored THEN {"before", "after"} ELSE {"before"}

STypeOK == /\ phase \in {"start", "asked", "running", "ended"}
           /\ stored \in BOOLEAN /\ said \subseteq {"done", "error"}
DoneMeansStored == "done" \in said => stored
NothingWithoutConsent == phase \in {"start", "asked"} => ~stored
OneVerdict == said # {"done", "error"}
==============================================================================
