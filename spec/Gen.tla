--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Scenario generator.  Each behaviour of this specification is the shape  *)
(* of a world and of a history of commands on it: which classes of content *)
(* it has and how areas and offsets lie relative to mapblock borders.  TLC *)
(* simulates it; the harness makes a concrete world and concrete commands  *)
(* of each behaviour and runs the real program on them.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Focus == IOEnv.FOCUS        \* property the scenarios are for
MaxCmds == CASE Focus \in {"P22"} -> 5 [] Focus \in {"P19"} -> 2 [] OTHER -> 1

AreaCmds == {"fill", "replacenodes", "setparam2", "deletemeta", "deletetimers",
             "deleteobjects", "setmetavar", "replaceininv", "deleteblocks",
             "clone", "overlay"}
Cmds ==
  CASE Focus = "P01" -> {"fill"}          [] Focus = "P02" -> {"replacenodes"}
    [] Focus = "P03" -> {"setparam2"}     [] Focus = "P04" -> {"clone"}
    [] Focus = "P05" -> {"overlay"}       [] Focus = "P06" -> {"overlay"}
    [] Focus = "P07" -> {"deleteblocks"}  [] Focus = "P08" -> {"deletemeta"}
    [] Focus = "P09" -> {"deletetimers"}  [] Focus = "P10" -> {"deleteobjects"}
    [] Focus = "P11" -> {"setmetavar"}    [] Focus = "P12" -> {"replaceininv"}
    [] Focus = "P13" -> AreaCmds \ {"deleteblocks"}
    [] Focus = "P16" -> {"fill", "clone", "overlay"}
    [] Focus = "P19" -> {"overlay"}
    [] Focus = "P21" -> AreaCmds \ {"deleteblocks"}
    [] Focus = "P14" -> AreaCmds \ {"deleteblocks"}
    [] Focus = "P23" -> {"vacuum"}
    [] Focus \in {"P17", "P24"} -> AreaCmds \cup {"vacuum"}
    [] OTHER -> AreaCmds

(* Commands that cannot do without an area; those that cannot invert. *)
NeedArea == {"fill", "deleteblocks", "clone"}
NoInvert == {"clone"}
HasOffset == {"clone", "overlay"}

Places == {"origin", "far", "neg", "edgehi", "edgelo", "mixed"}
(* alias: positions whose keys agree in their low bits; many: hundreds of  *)
(* small blocks.                                                           *)
Shapes(n) == CASE n = 1 /\ Focus \notin {"P17", "P20", "P24"} -> {"many"} [] n \in {2, 3} -> {"alias"}
               [] OTHER -> {"one", "line", "cube2", "cube3", "holes", "scatter"}
Vers == {"25", "27", "28", "29", "mix"}
Fills == CASE Focus \in {"P01", "P02", "P13", "P22"} ->
                {"uniform", "sparse", "dense", "mixed", "ids", "planes"}
           [] OTHER -> {"uniform", "sparse", "dense", "mixed", "planes"}
Extras ==
  CASE Focus = "P15" -> {"bad", "badrich"}
    [] Focus = "P16" -> {"ungen", "ungenrich"}
    [] Focus = "P14" -> {"plain", "rich", "badrich"}
    [] Focus = "P21" -> {"plain", "rich", "badrich", "all"}
    [] Focus \in {"P17", "P24", "P18", "P19", "P20"} -> {"plain", "rich", "all"}
    [] Focus \in {"P08", "P09", "P10", "P11", "P12", "P13"} -> {"rich", "rich", "all"}
    [] OTHER -> {"plain", "rich", "ungenrich", "badrich", "all"}

Offs == 0..15
LoHi == {0, 1, 7, 14, 15}

VARIABLES ph,    \* what to choose next
          w,     \* world so far
          c,     \* current command
          cmds   \* commands so far
vars == <<ph, w, c, cmds>>

Init == ph = "place" /\ w = <<>> /\ c = <<>> /\ cmds = <<>>

Set(f, k, v) == (k :> v) @@ f

PickW(now, next, k, S) == ph = now /\ ph' = next /\ \E v \in S : w' = Set(w, k, v)
                          /\ UNCHANGED <<c, cmds>>
PickC(now, next, k, S) == ph = now /\ ph' = next /\ \E v \in S : c' = Set(c, k, v)
                          /\ UNCHANGED <<w, cmds>>

Worlds ==
  \/ PickW("place", "shape", "place", Places)
  \/ \E n \in 1..40 : PickW("shape", "vers", "shape", Shapes(n))
  \/ PickW("vers", "fill", "vers", Vers)
  \/ PickW("fill", "extras", "fill", Fills)
  \/ PickW("extras", "cmd", "extras", Extras)

AreaModes(cmd) ==
  IF cmd = "vacuum" THEN {"no"}
  ELSE IF cmd \in NoInvert THEN {"in"}
  ELSE IF cmd \in NeedArea THEN {"in", "inv"}
  ELSE IF Focus = "P06" THEN {"no", "in"}
  ELSE {"no", "in", "inv"}

(* How the area lies on one axis: first block (relative to the world), its *)
(* length in blocks, and where in the first and last block it begins/ends. *)
Axes(n) ==
  CASE n <= 3 -> [b : {-1, 0}, n : {2, 3}, lo : {0}, hi : {15}, swap : BOOLEAN]
    [] n = 4  -> [b : {0, 1}, n : 0..2, lo : Offs, hi : Offs, swap : BOOLEAN]
    [] n = 5  -> [b : {-1, 0}, n : {2}, lo : LoHi, hi : LoHi, swap : BOOLEAN]
    [] n = 6  -> [b : {0}, n : {0}, lo : LoHi, hi : LoHi, swap : BOOLEAN]
    [] OTHER  -> [b : {-1, 0, 1}, n : 0..2, lo : LoHi, hi : LoHi, swap : BOOLEAN]

(* Offsets on one axis: whole blocks and rest. *)
AxisOffs(n) == CASE n <= 2 -> [b : {0}, r : {0}]
                 [] n = 3 -> [b : {-2, -1, 1, 2}, r : {0}]
                 [] OTHER -> [b : -2..2, r : {0, 1, 5, 15}]

Offset(cmd, area) ==
  IF cmd = "clone" THEN {TRUE}
  ELSE IF cmd # "overlay" \/ area = "inv" \/ Focus = "P05" THEN {FALSE}
  ELSE IF Focus = "P06" THEN {TRUE} ELSE BOOLEAN

Filters == {"none", "common", "rare", "absent", "unknown", "many", "long"}

Commands ==
  \/ PickC("cmd", "area", "cmd", Cmds)
  \/ ph = "area" /\ PickC("area", "x", "area", AreaModes(c.cmd))
  \/ \E n \in 1..8 : PickC("x", "y", "x", Axes(n))
  \/ \E n \in 1..8 : PickC("y", "z", "y", Axes(n))
  \/ \E n \in 1..8 : PickC("z", "off", "z", Axes(n))
  \/ ph = "off" /\ PickC("off", "offx", "off", Offset(c.cmd, c.area))
  \/ ph = "offx" /\ IF c.off THEN \E n \in 1..6 : PickC("offx", "offy", "ox", AxisOffs(n))
                    ELSE ph' = "filter" /\ UNCHANGED <<w, c, cmds>>
  \/ \E n \in 1..6 : PickC("offy", "offz", "oy", AxisOffs(n))
  \/ \E n \in 1..6 : PickC("offz", "filter", "oz", AxisOffs(n))
  \/ \E n \in 1..4 :
       PickC("filter", "variant", "filter", IF n = 1 THEN {"none"} ELSE Filters)
  \/ PickC("variant", "end", "variant", 0..7)
  \/ /\ ph = "end"
     /\ cmds' = Append(cmds, c) /\ c' = <<>>
     /\ ph' = IF Len(cmds) + 1 < MaxCmds THEN "cmd"
              ELSE IF Focus = "P18" THEN "mut"
              ELSE IF Focus = "P26" THEN "page" ELSE "out"
     /\ UNCHANGED w
  \/ /\ ph = "out" /\ ph' = "stop"
     /\ PrintT("GEN " \o ToJson([w |-> w, cmds |-> cmds]))
     /\ UNCHANGED <<w, c, cmds>>

(* What is wrong with the arguments, if anything; how the map is found;    *)
(* what the user answers.                                                  *)
Mutations ==
  {"none", "name", "name2", "int", "int2", "limit", "limit2", "p2value", "droppos",
   "extrapos", "unknownopt", "foreignopt", "twice", "fewvalues", "onecorner",
   "dropoffset", "invertalone", "same", "both", "neither", "emptyvalue", "utf8",
   "nocmd", "badcmd", "droparea", "objitems", "destout", "invoffset"}
MapStates == {"missing", "notdb", "noblocks", "wrongschema", "empty", "dirwithout",
              "srcmissing", "srcnotdb", "srcnoblocks"}
Replies == {"y", "Y", "spacey", "tabY", "crlf", "n", "N", "empty", "eof", "yes", "ye",
            "yy", "no", "q", "nothenY", "unicode", "badutf8", "eofy", "zero", "Yes",
            "quoted", "fullwidth"}
Questions ==
  \/ ph = "mut" /\ \E n \in 1..8 :
       PickW("mut", "mapst", "mut", IF n > 1 THEN {"none"} ELSE Mutations)
  \/ ph = "mapst" /\ \E n \in 1..40 :
       PickW("mapst", "yes", "mapst", IF n = 1 THEN MapStates ELSE {"ok"})
  \/ PickW("yes", "reply", "yes", {"first", "last", "long", "ask", "ask", "ask2"})
  \/ PickW("reply", "out", "reply", Replies)

(* How the database holds the map, and how the user names it.              *)
Layouts ==
  \/ PickW("page", "order", "page", {0, 512, 1024, 8192, 65536})
  \/ PickW("order", "table", "order", {"sorted", "reversed", "shuffled", "holes", "lastrow"})
  \/ PickW("table", "journal", "table", {"plain", "worldgame", "norowid", "integers"})
  \/ PickW("journal", "free", "journal", {"delete", "wal", "persist", "truncate"})
  \/ PickW("free", "vac", "free", {"none", "few", "many"})
  \/ PickW("vac", "enc", "vac", {"none", "full", "incremental"})
  \/ PickW("enc", "rest", "enc", {"UTF-8", "UTF-16le", "UTF-16be"})
  \/ PickW("rest", "path", "rest", {"none", "tables", "first", "views"})
  \/ PickW("path", "out", "path",
           {"file", "dir", "slash", "relfile", "reldir", "here", "linkfile", "linkdir",
            "space", "odd", "unicode", "name"})

Next == Worlds \/ Commands \/ Questions \/ Layouts
Spec == Init /\ [][Next]_vars
==============================================================================
