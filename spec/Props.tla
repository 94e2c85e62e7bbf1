-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* Which parts of the step relation each property demands.  A step of the  *)
(* real program violates property P iff one of these aspects differs.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Frame == {"nodes-rest", "param1-rest", "param2-rest", "meta-rest",
          "timers-rest", "objs-rest", "header", "unreadable", "wellformed"}
Semantics == {"nodes", "param1", "param2", "meta", "timers", "objs", "header",
              "unreadable", "skipped", "missing", "extra", "notdeleted", "copy",
              "data"}
Whole == {"missing", "extra", "notdeleted", "copy"}
Selection == {"nodes", "param1", "param2", "meta", "timers", "objs", "skipped",
              "unreadable", "missing", "extra", "notdeleted", "copy"}
(* The run did not carry out a valid, confirmed command although nothing   *)
(* stood in its way ("notdone"), or an invalid one ("notrefused").         *)
Outcome == {"notdone"}

RunAspects == {"twin", "source", "data", "count", "count2", "fails", "notdone",
               "notrefused", "changed"}

CmdOf == [P01 |-> {"fill"}, P02 |-> {"replacenodes"}, P03 |-> {"setparam2"},
          P04 |-> {"clone"}, P05 |-> {"overlay"}, P06 |-> {"overlay"},
          P07 |-> {"deleteblocks"}, P08 |-> {"deletemeta"},
          P09 |-> {"deletetimers"}, P10 |-> {"deleteobjects"},
          P11 |-> {"setmetavar"}, P12 |-> {"replaceininv"}, P23 |-> {"vacuum"}]

Demands(P) ==
  CASE P \in DOMAIN CmdOf -> Semantics \cup Outcome
    [] P = "P13" -> Frame \cup {"param1"} \cup Outcome
    [] P = "P14" -> {"twin"}
    \* the others are processed as if the bad ones were not there
    [] P = "P15" -> {"skipped", "twin", "notdone"} \cup Selection
    [] P = "P16" -> {"skipped", "twin", "notdone", "nodes", "meta", "param1", "param2"}
    [] P = "P18" -> {"notrefused", "notdone", "changed", "unlike"}
    [] P = "P19" -> {"source", "twin"}
    [] P = "P21" -> {"count", "count2", "fails"}
    [] P = "P22" -> {"wellformed", "unreadable", "skipped"} \cup Semantics
    [] P = "P25" -> Selection \cup {"twin", "notdone"}
    [] P = "P26" -> {"twin", "data", "notdone"}
    [] P = "P20" -> {"race"}
    [] OTHER -> {}

(* Aspects of recorded sessions (SessionTrace). *)
SessionDemands(P) ==
  CASE P = "P17" -> {"mixture", "noconsent"}
    [] P = "P18" -> {"noconsent"}
    [] P = "P19" -> {"source"}
    [] P = "P23" -> {"data", "mixture"}
    [] P = "P24" -> {"lostdone", "unreported", "hang"}
    [] OTHER -> {}
==============================================================================
